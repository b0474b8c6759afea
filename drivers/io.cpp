// vf-native: g++ openmp
// C09 / C26: AIGER reading and writing, Verilog and LUT netlists. The oracles (AIGER parser and printer, Verilog evaluator) are written here from the format descriptions.
#include "vf.h"
#include <memory>
#include <cassert>
#include <string>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <list>
#include <map>
#include <unordered_map>
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
#include "operations/io/reader.hpp"
#include "operations/io/writer.hpp"
#include "algorithms/cleanup.hpp"
using namespace iFPGA;
#ifndef VF_SYMBOLIC
#include "native_aig.hpp"
using namespace nat;
typedef aig_network::signal sig;
namespace {
/* circuits as AIGER sees them: variables 1..I inputs, then latches, then ands */
struct aiger
{
  uint32_t M = 0, I = 0, L = 0, O = 0, A = 0;
  std::vector<uint32_t> next;
  std::vector<int> reset; /* 0, 1, -1 uninitialised, 2 not written down */
  std::vector<uint32_t> out;
  std::vector<std::pair<uint32_t, uint32_t>> gate;
  std::map<uint32_t, std::string> in_name, latch_name, out_name;
  std::string tail;
};
void put_delta( std::string& s, uint32_t d )
{
  while ( d >= 128 ) { s += (char)( 128 + d % 128 ); d /= 128; }
  s += (char)d;
}
std::string reset_text( aiger const& g, uint32_t i )
{
  return g.reset[i] == 2 ? "" : " " + std::to_string( g.reset[i] == -1 ? 2 * ( g.I + i + 1 ) : (uint32_t)g.reset[i] );
}
std::string print_binary( aiger const& g, bool named )
{
  std::string s = "aig " + std::to_string( g.M ) + " " + std::to_string( g.I ) + " " + std::to_string( g.L ) + " " + std::to_string( g.O ) + " " + std::to_string( g.A ) + "\n";
  for ( uint32_t i = 0; i < g.L; ++i )
    s += std::to_string( g.next[i] ) + reset_text( g, i ) + "\n";
  for ( auto o : g.out ) s += std::to_string( o ) + "\n";
  for ( uint32_t i = 0; i < g.A; ++i )
  {
    uint32_t l = 2 * ( g.I + g.L + i + 1 );
    put_delta( s, l - g.gate[i].first );
    put_delta( s, g.gate[i].first - g.gate[i].second );
  }
  if ( named )
  {
    for ( auto& [k, v] : g.in_name ) s += "i" + std::to_string( k ) + " " + v + "\n";
    for ( auto& [k, v] : g.latch_name ) s += "l" + std::to_string( k ) + " " + v + "\n";
    for ( auto& [k, v] : g.out_name ) s += "o" + std::to_string( k ) + " " + v + "\n";
    s += g.tail;
  }
  return s;
}
std::string print_ascii( aiger const& g )
{
  std::string s = "aag " + std::to_string( g.M ) + " " + std::to_string( g.I ) + " " + std::to_string( g.L ) + " " + std::to_string( g.O ) + " " + std::to_string( g.A ) + "\n";
  for ( uint32_t i = 0; i < g.I; ++i ) s += std::to_string( 2 * ( i + 1 ) ) + "\n";
  for ( uint32_t i = 0; i < g.L; ++i )
    s += std::to_string( 2 * ( g.I + i + 1 ) ) + " " + std::to_string( g.next[i] ) + reset_text( g, i ) + "\n";
  for ( auto o : g.out ) s += std::to_string( o ) + "\n";
  for ( uint32_t i = 0; i < g.A; ++i )
    s += std::to_string( 2 * ( g.I + g.L + i + 1 ) ) + " " + std::to_string( g.gate[i].first ) + " " + std::to_string( g.gate[i].second ) + "\n";
  return s;
}
bool parse_binary( std::string const& s, aiger& g )
{
  size_t p = 0;
  auto num = [&]( char end, uint32_t& v ) {
    uint64_t r = 0;
    size_t st = p;
    while ( p < s.size() && s[p] >= '0' && s[p] <= '9' ) r = 10 * r + ( s[p++] - '0' );
    if ( p == st || p >= s.size() || s[p] != end || r >> 32 ) return false;
    ++p;
    v = r;
    return true;
  };
  if ( s.compare( 0, 4, "aig " ) ) return false;
  p = 4;
  if ( !num( ' ', g.M ) || !num( ' ', g.I ) || !num( ' ', g.L ) || !num( ' ', g.O ) || !num( '\n', g.A ) ) return false;
  if ( g.M != g.I + g.L + g.A || g.L ) return false;
  for ( uint32_t i = 0; i < g.O; ++i ) { uint32_t v; if ( !num( '\n', v ) || v > 2 * g.M + 1 ) return false; g.out.push_back( v ); }
  auto delta = [&]( uint32_t& d ) {
    uint64_t r = 0;
    for ( int k = 0;; ++k )
    {
      if ( p >= s.size() || k > 4 ) return false;
      unsigned char c = s[p++];
      r += (uint64_t)( c & 127 ) << ( 7 * k );
      if ( c < 128 ) break;
    }
    d = r;
    return r >> 32 == 0;
  };
  for ( uint32_t i = 0; i < g.A; ++i )
  {
    uint32_t a, b, l = 2 * ( g.I + i + 1 );
    if ( !delta( a ) || !delta( b ) || a == 0 || a > l || b > l - a ) return false;
    g.gate.emplace_back( l - a, l - a - b );
  }
  g.tail = s.substr( p );
  return true;
}
/* output and next-state functions over inputs then latches */
std::vector<std::vector<uint64_t>> functions_of( aiger const& g )
{
  std::vector<std::vector<uint64_t>> r( g.out.size() + g.next.size() );
  uint64_t nb = blocks( g.I + g.L );
  for ( uint64_t b = 0; b < nb; ++b )
  {
    std::vector<uint64_t> v( g.M + 1, 0 );
    for ( uint32_t i = 0; i < g.I + g.L; ++i ) v[i + 1] = pi_word( i, b );
    auto lit = [&]( uint32_t l ) { return l & 1 ? ~v[l >> 1] : v[l >> 1]; };
    for ( uint32_t i = 0; i < g.A; ++i ) v[g.I + g.L + 1 + i] = lit( g.gate[i].first ) & lit( g.gate[i].second );
    for ( size_t i = 0; i < g.out.size(); ++i ) r[i].push_back( lit( g.out[i] ) );
    for ( size_t i = 0; i < g.next.size(); ++i ) r[g.out.size() + i].push_back( lit( g.next[i] ) );
  }
  return r;
}
aiger random_circuit( bool latches )
{
  aiger g;
  g.I = rnd( 8 ) ? 1 + rnd( 6 ) : 0;
  g.L = latches && rnd( 3 ) ? 1 + rnd( 4 ) : 0;
  g.A = g.I + g.L == 0 ? 0 : rnd( 4 ) ? rnd( 30 ) : rnd( 400 );
  g.O = 1 + rnd( 6 );
  g.M = g.I + g.L + g.A;
  bool trivial = rnd( 2 );
  for ( uint32_t i = 0; i < g.A; ++i )
  {
    uint32_t n = g.I + g.L + i, a, b;
    auto pk = [&]() -> uint32_t { return rnd( 3 ) ? 2 * ( 1 + n - 1 - rnd( std::min<uint32_t>( n, 6 ) ) ) + rnd( 2 ) : trivial ? (uint32_t)rnd( 2 * n + 2 ) : 2 + (uint32_t)rnd( 2 * n ); };
    a = pk();
    b = pk();
    if ( !trivial ) for ( int k = 0; k < 8 && ( a >> 1 ) == ( b >> 1 ); ++k ) b = pk();
    g.gate.emplace_back( std::max( a, b ), std::min( a, b ) );
  }
  for ( uint32_t i = 0; i < g.L; ++i ) { g.next.push_back( rnd( rnd( 2 ) ? 2 : 2 * g.M + 2 ) ); g.reset.push_back( (int)rnd( 4 ) - 1 ); }
  for ( uint32_t i = 0; i < g.O; ++i ) g.out.push_back( rnd( 3 ) && g.A ? 2 * ( g.M - rnd( std::min<uint32_t>( g.A, 5 ) ) ) + rnd( 2 ) : rnd( 2 * g.M + 2 ) );
  return g;
}
std::string random_name( uint32_t k )
{
  static const char* f[] = { "a[%u]", "data_%u", "x%u", "y%u", "n%u", "_w%u_", "name%u", "top.u%u.q", "in put %u", "i%u", "_i%u_", "_o%u_", "o%u 3", "clk$%u", "%u", "[%u]" };
  char b[64];
  snprintf( b, sizeof b, f[rnd( sizeof f / sizeof *f )], (unsigned)( rnd( 2 ) ? k : rnd( 40 ) ) );
  return b;
}
void name_ports( aiger& g )
{
  std::set<std::string> used;
  auto one = [&]( std::map<uint32_t, std::string>& m, uint32_t n ) {
    uint64_t mode = rnd( 3 );
    for ( uint32_t i = 0; i < n; ++i )
    {
      if ( mode == 0 || ( mode == 1 && rnd( 2 ) ) ) continue;
      auto s = random_name( i );
      if ( used.insert( s ).second ) m[i] = s;
    }
  };
  one( g.in_name, g.I );
  one( g.latch_name, g.L );
  one( g.out_name, g.O );
  if ( rnd( 2 ) ) g.tail = rnd( 2 ) ? "c\nby hand\ni0 not_a_name\no0 neither\n" : "c\n";
}
struct scratch
{
  std::string dir;
  scratch() { char b[] = "/tmp/vfio.XXXXXX"; dir = mkdtemp( b ); }
  ~scratch() { for ( auto n : { "a.aig", "b.aig", "c.v" } ) unlink( ( dir + "/" + n ).c_str() ); rmdir( dir.c_str() ); }
  std::string file( const char* n ) const { return dir + "/" + n; }
};
struct silent
{
  std::streambuf *a, *b;
  std::ostringstream s;
  silent() : a( std::cout.rdbuf( s.rdbuf() ) ), b( std::cerr.rdbuf( s.rdbuf() ) ) {}
  ~silent() { std::cout.rdbuf( a ); std::cerr.rdbuf( b ); }
};
/* identifier denoted by a Verilog token "\name " or "name" */
std::string ident( std::string const& t )
{
  if ( t.size() > 1 && t[0] == '\\' && t.back() == ' ' ) return t.substr( 1, t.size() - 2 );
  return t;
}
bool plain( std::string const& t )
{
  if ( t.empty() || !( isalpha( (unsigned char)t[0] ) || t[0] == '_' ) ) return false;
  for ( unsigned char c : t ) if ( !( isalnum( c ) || c == '_' || c == '$' ) ) return false;
  return true;
}

/* ---- Verilog subset: module, input, output, wire, assign with ~ & | ^ and 1'b0/1, LUT instances with positional ports and defparam INIT ---- */
struct netlist
{
  std::vector<std::string> ports, inputs, outputs;
  std::set<std::string> wires;
  struct expr { std::vector<std::pair<bool, std::string>> ops; char op = 0; };
  std::map<std::string, expr> assigns;
  struct lut { std::vector<std::string> in; uint32_t size = 0; std::string init; bool has_init = false; uint32_t bits = 0; };
  std::map<std::string, std::string> driver; /* net -> instance */
  std::map<std::string, lut> luts;
  std::string error;
  std::vector<std::string> tok;
  size_t p = 0;
  /* escaped identifiers lose backslash and blank; a mark keeps them apart from keywords and numbers */
  static std::vector<std::string> lex( std::string const& s )
  {
    std::vector<std::string> t;
    for ( size_t i = 0; i < s.size(); )
    {
      unsigned char c = s[i];
      if ( isspace( c ) ) { ++i; continue; }
      if ( c == '\\' )
      {
        size_t j = i + 1;
        while ( j < s.size() && !isspace( (unsigned char)s[j] ) ) ++j;
        t.push_back( "\x01" + s.substr( i + 1, j - i - 1 ) );
        i = j;
        continue;
      }
      if ( isalnum( c ) || c == '_' || c == '\'' )
      {
        size_t j = i;
        while ( j < s.size() && ( isalnum( (unsigned char)s[j] ) || s[j] == '_' || s[j] == '$' || s[j] == '\'' ) ) ++j;
        t.push_back( s.substr( i, j - i ) );
        i = j;
        continue;
      }
      t.push_back( std::string( 1, c ) );
      ++i;
    }
    return t;
  }
  bool fail( std::string const& e ) { if ( error.empty() ) error = e; return false; }
  std::string peek() { return p < tok.size() ? tok[p] : std::string(); }
  bool eat( std::string const& s ) { if ( peek() != s ) return fail( "expected " + s + " got " + peek() ); ++p; return true; }
  bool id( std::string& s )
  {
    s = peek();
    if ( s.empty() ) return fail( "eof" );
    ++p;
    if ( s[0] == '\x01' ) { s = s.substr( 1 ); return true; }
    static const std::set<std::string> kw = { "module", "input", "output", "wire", "assign", "endmodule", "defparam" };
    if ( !plain( s ) || kw.count( s ) ) return fail( "identifier expected, got " + s );
    return true;
  }
  bool list( std::vector<std::string>& v, std::string const& end )
  {
    std::string s;
    if ( peek() == end ) { ++p; return true; }
    for ( ;; )
    {
      if ( !id( s ) ) return false;
      v.push_back( s );
      if ( peek() == end ) { ++p; return true; }
      if ( !eat( "," ) ) return false;
    }
  }
  bool parse( std::string const& text )
  {
    tok = lex( text );
    std::string s;
    std::set<std::string> declared;
    auto declare = [&]( std::string const& n ) { return declared.insert( n ).second || fail( "declared twice: " + n ); };
    if ( !eat( "module" ) || !id( s ) || !eat( "(" ) || !list( ports, ")" ) || !eat( ";" ) ) return false;
    while ( peek() != "endmodule" )
    {
      std::string k = peek();
      if ( k.empty() ) return fail( "no endmodule" );
      if ( k == "input" || k == "output" || k == "wire" )
      {
        ++p;
        std::vector<std::string> v;
        if ( !list( v, ";" ) ) return false;
        for ( auto& n : v )
        {
          if ( !declare( n ) ) return false;
          if ( k == "input" ) inputs.push_back( n );
          else if ( k == "output" ) outputs.push_back( n );
          else wires.insert( n );
        }
      }
      else if ( k == "assign" )
      {
        ++p;
        if ( !id( s ) || !eat( "=" ) ) return false;
        if ( assigns.count( s ) || driver.count( s ) ) return fail( "driven twice: " + s );
        expr e;
        for ( ;; )
        {
          bool neg = false;
          while ( peek() == "~" ) { neg = !neg; ++p; }
          std::string o;
          if ( peek() == "1'b0" || peek() == "1'b1" ) o = tok[p++];
          else { if ( !id( o ) ) return false; if ( !declared.count( o ) ) return fail( "undeclared " + o ); }
          e.ops.emplace_back( neg, o );
          if ( peek() == ";" ) { ++p; break; }
          std::string op = peek();
          if ( op != "&" && op != "|" && op != "^" ) return fail( "operator " + op );
          if ( e.op && e.op != op[0] ) return fail( "mixed operators" );
          e.op = op[0];
          ++p;
        }
        if ( !declared.count( s ) ) return fail( "undeclared " + s );
        assigns[s] = e;
      }
      else if ( k == "defparam" )
      {
        ++p;
        if ( !id( s ) || !eat( "." ) || !eat( "INIT" ) || !eat( "=" ) ) return false;
        if ( !luts.count( s ) ) return fail( "defparam of unknown instance" );
        std::string v = peek();
        ++p;
        if ( !eat( ";" ) ) return false;
        auto q = v.find( "'h" );
        if ( q == std::string::npos ) return fail( "INIT value " + v );
        luts[s].bits = atoi( v.c_str() );
        luts[s].init = v.substr( q + 2 );
        luts[s].has_init = true;
      }
      else if ( k.compare( 0, 3, "LUT" ) == 0 )
      {
        ++p;
        lut l;
        l.size = atoi( k.c_str() + 3 );
        if ( !id( s ) ) return false;
        if ( !declare( s ) ) return false; /* instance names share the name space */
        if ( !eat( "(" ) || !list( l.in, ")" ) || !eat( ";" ) ) return false;
        if ( l.in.size() != l.size + 1 ) return fail( "LUT port count" );
        for ( auto& n : l.in ) if ( !declared.count( n ) ) return fail( "undeclared " + n );
        if ( driver.count( l.in.back() ) || assigns.count( l.in.back() ) ) return fail( "driven twice: " + l.in.back() );
        driver[l.in.back()] = s;
        l.in.pop_back();
        luts[s] = l;
      }
      else return fail( "statement " + k );
    }
    ++p;
    if ( p != tok.size() ) return fail( "text after endmodule" );
    std::vector<std::string> io = inputs;
    io.insert( io.end(), outputs.begin(), outputs.end() );
    if ( io != ports ) return fail( "port list differs from declarations" );
    return true;
  }
  std::vector<std::vector<uint64_t>> functions()
  {
    std::vector<std::vector<uint64_t>> r( outputs.size() );
    uint64_t nb = blocks( inputs.size() );
    for ( uint64_t b = 0; b < nb; ++b )
    {
      std::map<std::string, uint64_t> val;
      std::set<std::string> active;
      for ( size_t i = 0; i < inputs.size(); ++i ) val[inputs[i]] = pi_word( i, b );
      std::function<uint64_t( std::string const& )> ev = [&]( std::string const& n ) -> uint64_t {
        if ( n == "1'b0" ) return 0;
        if ( n == "1'b1" ) return ~0ull;
        auto it = val.find( n );
        if ( it != val.end() ) return it->second;
        if ( !active.insert( n ).second ) { fail( "combinational loop" ); return 0; }
        uint64_t x = 0;
        if ( assigns.count( n ) )
        {
          auto& e = assigns[n];
          bool first = true;
          for ( auto& [neg, o] : e.ops )
          {
            uint64_t y = ev( o );
            if ( neg ) y = ~y;
            x = first ? y : e.op == '&' ? x & y : e.op == '|' ? x | y : x ^ y;
            first = false;
          }
        }
        else if ( driver.count( n ) )
        {
          auto& l = luts[driver[n]];
          if ( !l.has_init || l.bits != ( 1u << l.size ) ) { fail( "INIT width" ); return 0; }
          std::vector<uint64_t> in;
          for ( auto& i : l.in ) in.push_back( ev( i ) );
          for ( int q = 0; q < 64; ++q )
          {
            uint64_t m = 0;
            for ( size_t i = 0; i < in.size(); ++i ) m |= ( ( in[i] >> q ) & 1 ) << i;
            size_t d = m / 4;
            uint64_t digit = 0;
            if ( d < l.init.size() ) { char c = l.init[l.init.size() - 1 - d]; digit = isdigit( (unsigned char)c ) ? c - '0' : tolower( c ) - 'a' + 10; }
            x |= ( ( digit >> ( m % 4 ) ) & 1 ) << q;
          }
        }
        else fail( "undriven " + n );
        active.erase( n );
        return val[n] = x;
      };
      for ( size_t i = 0; i < outputs.size(); ++i ) r[i].push_back( ev( outputs[i] ) );
    }
    return r;
  }
};
} // namespace

/* writing: an independent reader of the format sees exactly the circuit; the tool's own reader rebuilds it literal by literal */
VF_NATIVE( aiger_write )
{
  aig_network a;
  if ( rnd( 40 ) == 0 )
  { /* wide: deltas of three and more bytes */
    std::vector<sig> in;
    uint32_t n = 9000 + rnd( 20000 );
    for ( uint32_t i = 0; i < n; ++i ) in.push_back( a.create_pi() );
    for ( int i = 0; i < 20; ++i ) { auto x = in[rnd( in.size() )], y = in[rnd( in.size() )]; in.push_back( a.create_and( rnd( 2 ) ? !x : x, rnd( 2 ) ? !y : y ) ); }
    for ( int i = 0; i < 5; ++i ) { auto x = in[in.size() - 1 - rnd( 20 )]; a.create_po( rnd( 2 ) ? !x : x ); }
  }
  else
  {
    auto s = pick_shape( 8, rnd( 4 ) ? 40 : 300 );
    random_aig( a, s, rnd( 2 ) );
  }
  std::ostringstream os;
  write_aiger( a, os );
  aiger g;
  vf_assert( parse_binary( os.str(), g ), "well-formed-file" );
  vf_assert( g.I == a.num_pis() && g.O == a.num_pos() && g.A == a.num_gates() && g.L == 0, "header-counts" );
  uint32_t k = 0;
  bool ok = true;
  a.foreach_gate( [&]( auto n ) {
    auto const& nd = a._storage->nodes[n];
    uint32_t x = nd.children[0].data, y = nd.children[1].data; /* weight:1, index:63 */
    ok = ok && 2 * ( g.I + 1 + k ) == 2 * n && g.gate[k].first == std::max( x, y ) && g.gate[k].second == std::min( x, y );
    ++k;
  } );
  vf_assert( ok, "gates-as-stored" );
  for ( size_t i = 0; i < a._storage->outputs.size(); ++i ) ok = ok && g.out[i] == a._storage->outputs[i].data;
  vf_assert( ok, "outputs-as-stored" );
  std::string text = os.str();
  if ( rnd( 2 ) )
  {
    scratch d;
    write_aiger( a, d.file( "a.aig" ) );
    std::ifstream is( d.file( "a.aig" ), std::ios::binary );
    std::string t( ( std::istreambuf_iterator<char>( is ) ), std::istreambuf_iterator<char>() );
    vf_assert( t == text, "file-equals-stream" );
  }
  aig_network b;
  {
    std::istringstream is( text );
    auto r = lorina::read_aiger( is, iFPGA::aiger_reader<aig_network>( b ) );
    vf_assert( r == lorina::return_code::success, "read-back" );
  }
  vf_assert( b.num_pis() == a.num_pis() && b.num_pos() == a.num_pos() && b.num_gates() == a.num_gates() && b.size() == a.size(), "round-trip-counts" );
  for ( uint64_t n = 0; n < a.size(); ++n )
    ok = ok && a.is_pi( n ) == b.is_pi( n ) && ( a.is_ci( n ) || n == 0 || ( a._storage->nodes[n].children[0].data == b._storage->nodes[n].children[0].data && a._storage->nodes[n].children[1].data == b._storage->nodes[n].children[1].data ) );
  for ( size_t i = 0; i < a._storage->outputs.size(); ++i ) ok = ok && a._storage->outputs[i].data == b._storage->outputs[i].data;
  vf_assert( ok, "round-trip-identical" );
}
/* a reset value that is not written down is unspecified, or 0 by the later format; it does not depend on anything else in the file */
template<class N>
static void check_resets( N const& a, aiger const& g )
{
  int unwritten = -2;
  for ( uint32_t i = 0; i < g.L; ++i )
  {
    int v = a.latch_reset( i );
    if ( g.reset[i] != 2 ) { vf_assert( v == g.reset[i], "reset-values" ); continue; }
    vf_assert( ( v == -1 || v == 0 ) && ( unwritten == -2 || unwritten == v ), "reset-values-left-out" );
    unwritten = v;
  }
}
/* reading: a circuit from another tool, with constants and equal operands, latches, partial symbol tables and comments */
VF_NATIVE( aiger_read )
{
  auto g = random_circuit( rnd( 2 ) );
  name_ports( g );
  auto f = functions_of( g );
  scratch d;
  { std::ofstream o( d.file( "b.aig" ), std::ios::binary ); o << print_binary( g, true ); }
  silent quiet;
  aig_network a;
  write_verilog_params ps;
  Reader<aig_network> r( d.file( "b.aig" ), a, ps );
  vf_assert( r.isSuccess(), "accepted" );
  vf_assert( a._storage->inputs.size() == g.I + g.L && a._storage->outputs.size() == g.O + g.L, "interface" );
  vf_assert( a.num_pis() == g.I && a.num_pos() == g.O && a.num_latches() == g.L, "counts" );
  for ( uint32_t i = 0; i < g.I + g.L; ++i ) vf_assert( a._storage->inputs[i] == i + 1 && a.is_ci( i + 1 ) && a.is_pi( i + 1 ) == ( i < g.I ), "input-order" );
  vf_assert( functions( a ) == f, "functions" );
  check_resets( a, g );
  auto inv = invariant( a, true, true, true );
  vf_note( inv );
  vf_assert( inv.empty(), "well-formed" );
  auto names = [&]( std::vector<std::pair<std::string, uint32_t>> const& v, uint32_t n, std::map<uint32_t, std::string> const& m, std::map<uint32_t, std::string> const& l, std::string const& suffix, const char* what ) {
    if ( v.empty() ) { vf_assert( m.empty() && l.empty(), what ); return; }
    vf_assert( v.size() == n + g.L, what );
    std::set<std::string> used;
    for ( uint32_t i = 0; i < v.size(); ++i )
    {
      auto id = ident( v[i].first );
      vf_assert( v[i].second == 0 && !id.empty(), what );
      vf_assert( v[i].first[0] == '\\' || plain( v[i].first ), "identifier-legal" );
      vf_assert( used.insert( id ).second, "names-distinct" );
      if ( i < n && m.count( i ) ) vf_assert( id == m.at( i ), what );
      if ( i >= n && l.count( i - n ) ) vf_assert( id == l.at( i - n ) + suffix, what );
    }
  };
  names( ps.input_names, g.I, g.in_name, g.latch_name, "", "input-names" );
  names( ps.output_names, g.O, g.out_name, g.latch_name, "_next", "output-names" );
}
VF_NATIVE( aiger_read_ascii )
{
  auto g = random_circuit( rnd( 2 ) );
  std::istringstream is( print_ascii( g ) );
  aig_network a;
  { auto r = lorina::read_ascii_aiger( is, iFPGA::aiger_reader<aig_network>( a ) ); vf_assert( r == lorina::return_code::success, "accepted" ); }
  vf_assert( functions( a ) == functions_of( g ), "functions" );
  check_resets( a, g );
}
/* names of the ports of a written netlist */
static write_verilog_params some_ports( uint32_t pis, uint32_t pos )
{
  write_verilog_params ps;
  std::set<std::string> used;
  auto one = [&]( std::vector<std::pair<std::string, uint32_t>>& v, uint32_t n ) {
    for ( uint32_t i = 0; i < n; ++i )
    {
      std::string s;
      do
      {
        s = random_name( i );
        std::replace( s.begin(), s.end(), ' ', '.' ); /* a Verilog identifier has no blanks */
        if ( rnd( 3 ) == 0 ) s += "_" + std::to_string( used.size() );
      } while ( !used.insert( s ).second );
      v.emplace_back( plain( s ) && rnd( 2 ) ? s : "\\" + s + " ", 0 );
    }
  };
  one( ps.input_names, pis );
  one( ps.output_names, pos );
  return ps;
}
static void check_names( netlist const& v, write_verilog_params const& ps )
{
  for ( size_t i = 0; i < ps.input_names.size(); ++i ) vf_assert( v.inputs[i] == ident( ps.input_names[i].first ), "input-name" );
  for ( size_t i = 0; i < ps.output_names.size(); ++i ) vf_assert( v.outputs[i] == ident( ps.output_names[i].first ), "output-name" );
}
VF_NATIVE( verilog_netlist )
{
  aig_network a;
  auto s = pick_shape( 8, 60 );
  random_aig( a, s, rnd( 2 ) );
  write_verilog_params ps;
  if ( rnd( 3 ) ) ps = some_ports( a.num_pis(), a.num_pos() );
  if ( rnd( 5 ) == 0 ) ps.input_names.clear();
  if ( rnd( 5 ) == 0 ) ps.output_names.clear();
  std::ostringstream os;
  silent quiet;
  write_verilog( a, os, ps );
  netlist v;
  bool ok = v.parse( os.str() );
  vf_note( v.error );
  vf_assert( ok, "netlist-legal" );
  vf_assert( v.inputs.size() == a.num_pis() && v.outputs.size() == a.num_pos(), "ports" );
  check_names( v, ps );
  auto f = v.functions();
  vf_note( v.error );
  vf_assert( v.error.empty(), "netlist-complete" );
  vf_assert( f == functions( a ), "functions" );
}
VF_NATIVE( lut_netlist )
{
  klut_network k;
  std::vector<klut_network::signal> v;
  uint32_t pis = 1 + rnd( 8 ), n = rnd( 25 ), pos = 1 + rnd( 5 );
  for ( uint32_t i = 0; i < pis; ++i ) v.push_back( k.create_pi() );
  for ( uint32_t i = 0; i < n; ++i )
  {
    uint32_t w = 1 + rnd( 6 );
    std::vector<klut_network::signal> ch;
    for ( uint32_t j = 0; j < w; ++j ) ch.push_back( v[rnd( 2 ) ? v.size() - 1 - rnd( std::min<size_t>( v.size(), 6 ) ) : rnd( v.size() )] );
    kitty::dynamic_truth_table t( w );
    for ( uint32_t b = 0; b < ( 1u << w ); ++b ) if ( rnd( 2 ) ) kitty::set_bit( t, b );
    v.push_back( k.create_node( ch, t ) );
  }
  for ( uint32_t i = 0; i < pos; ++i ) k.create_po( rnd( 8 ) == 0 ? k.get_constant( rnd( 2 ) ) : v[rnd( 3 ) ? v.size() - 1 - rnd( std::min<size_t>( v.size(), 6 ) ) : rnd( v.size() )] );
  write_verilog_params ps;
  if ( rnd( 3 ) ) ps = some_ports( pis, pos );
  if ( rnd( 5 ) == 0 ) ps.input_names.clear();
  if ( rnd( 5 ) == 0 ) ps.output_names.clear();
  std::ostringstream os;
  write_lut( k, os, ps );
  netlist p;
  bool ok = p.parse( os.str() );
  vf_note( p.error );
  vf_assert( ok, "netlist-legal" );
  vf_assert( p.inputs.size() == pis && p.outputs.size() == pos, "ports" );
  check_names( p, ps );
  auto f = p.functions();
  vf_note( p.error );
  vf_assert( p.error.empty(), "netlist-complete" );
  vf_assert( f == klut_functions( k ), "functions" );
  vf_assert( p.luts.size() == k.num_gates(), "one-lut-per-node" );
}
#endif
