// C08: the variable-length integer code of the binary AIGER format.
#include "vf.h"
#include <cassert>
#include <fstream>
#include "operations/io/detail/write_aiger.hpp"
using namespace iFPGA;
static uint64_t decode_ref( std::vector<unsigned char> const& b, uint64_t& used )
{
  uint64_t r = 0;
  used = 0;
  for ( unsigned i = 0; i < b.size(); ++i )
  {
    r |= (uint64_t)( b[i] & 0x7f ) << ( 7 * i );
    ++used;
    if ( !( b[i] & 0x80 ) ) return r;
  }
  used = ~0ull;
  return r;
}
/* every 32-bit difference: standard LEB128 code, canonical length, decodable */
VF_PROOF( encode )
{
  vf_option( "merge", 0 );
  std::vector<unsigned char> b;
  b.push_back( 0x55 );
  uint32_t v = vf_u32( "v" );
  detail::encode( b, v );
  vf_assert( b[0] == 0x55, "prefix-untouched" );
  b.erase( b.begin() );
  uint64_t used;
  uint64_t r = decode_ref( b, used );
  vf_assert( used == b.size(), "code-ends-exactly-once" );
  vf_assert( r == v, "decoded-value" );
  vf_assert( b.size() >= 1 && b.size() <= 5, "length" );
  vf_assert( b.size() == 1 || b.back() != 0, "canonical" );
  vf_cover( "end" );
}

/* the tool's own decoder (the local function `decode` of lorina::read_aiger) inverts the tool's own encoder and consumes exactly its bytes */
#include <lorina/aiger.hpp>
static std::vector<unsigned char>* src_bytes;
static uint64_t src_pos;
static int get_byte( void* )
{
  if ( src_pos < src_bytes->size() ) return ( *src_bytes )[src_pos++];
  return -1;
}
VF_PROOF( delta_round_trip )
{
  uint32_t v = vf_u32( "v" );
  std::vector<unsigned char> b;
#ifdef VF_SYMBOLIC
  vf_option( "merge", 0 );
  vf_contract( "std::istream::get()", &get_byte );
  detail::encode( b, v );
  uint64_t len = b.size();
  b.push_back( vf_u8( "next" ) );
  src_bytes = &b;
  src_pos = 0;
  void* closure[2] = { nullptr, nullptr };
  volatile bool never = false;
  if ( never ) lorina::read_aiger( *(std::istream*)nullptr, *(lorina::aiger_reader*)nullptr );
  uint32_t r = __vf_call( "lorina::read_aiger(std::istream&, lorina::aiger_reader const&, lorina::diagnostic_engine*)::{lambda()#1}::operator()", closure );
  vf_assert( r == v, "decoded-value" );
  vf_assert( src_pos == len, "bytes-consumed" );
#else
  vf_assume( v < ( 1u << 24 ) );
  detail::encode( b, v );
  detail::encode( b, 0 );
  uint32_t n = v / 2 + 1;
  std::string s = "aig " + std::to_string( n + 1 ) + " " + std::to_string( n ) + " 0 0 1\n" + std::string( b.begin(), b.end() );
  struct rd : lorina::aiger_reader
  {
    mutable uint32_t l = 0, r = 0;
    void on_and( unsigned, unsigned a, unsigned c ) const override { l = a; r = c; }
  } reader;
  std::istringstream is( s );
  lorina::read_aiger( is, reader );
  vf_assert( reader.l == 2 * ( n + 1 ) - v, "decoded-value" );
  vf_assert( reader.r == reader.l, "bytes-consumed" );
#endif
  vf_cover( "end" );
}
