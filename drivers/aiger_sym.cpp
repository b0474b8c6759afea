// C09: what write_aiger emits for one gate / one output of any network, and what read_aiger and the reader callbacks rebuild from it.
#include "aig_sym.hpp"
#include <cassert>
#include <fstream>
#include <sstream>
#include "operations/io/detail/write_aiger.hpp"
#include "operations/io/detail/aiger_reader.hpp"
#ifdef VF_SYMBOLIC
static std::vector<unsigned char>* src_bytes;
static uint64_t src_pos;
static int get_byte( void* )
{
  if ( src_pos < src_bytes->size() ) return ( *src_bytes )[src_pos++];
  return -1;
}
static uint64_t printed_count, printed_value;
/* C library: sprintf with the format "%u\n" */
static int print_u( char* buf, const char* fmt, uint32_t v )
{
  vf_assert( fmt[0] == '%' && fmt[1] == 'u' && fmt[2] == '\n' && fmt[3] == 0, "format" );
  ++printed_count;
  printed_value = v;
  buf[0] = 0;
  return 0;
}
static void touch( std::ostream& os )
{
  aig_network a;
  write_aiger( a, os );
  lorina::read_aiger( *(std::istream*)nullptr, *(lorina::aiger_reader*)nullptr );
}
void ( *volatile keep_touch )( std::ostream& ) = &touch;
#define DECODE "lorina::read_aiger(std::istream&, lorina::aiger_reader const&, lorina::diagnostic_engine*)::{lambda()#1}::operator()"
#endif
/* any gate of any network: the two deltas written for it decode (by the tool's own decoder) to its two fanin literals, larger first */
VF_PROOF( gate_round_trip )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  anode* nd = a._storage->nodes.data();
  uint64_t n = vf_range( "n", 1, N );
  aptr x = nd[n].children[0], y = nd[n].children[1];
  vf_assume( is_gate( nd, n ) && x.index < n && y.index < n );
  uint64_t litx = 2 * x.index + x.weight, lity = 2 * y.index + y.weight;
#ifdef VF_SYMBOLIC
  vf_option( "merge", 0 );
  vf_contract( "std::istream::get()", &get_byte );
  std::vector<unsigned char> b;
  struct { aig_network const* aig; std::vector<unsigned char>* buffer; void* more[6]; } closure{ &a, &b, {} };
  __vf_call( "write_aiger<iFPGA::aig_network>(iFPGA::aig_network const&, std::ostream&)::{lambda(unsigned long const&)#1}::operator()", &closure, &n );
  src_bytes = &b;
  src_pos = 0;
  void* in[2] = { nullptr, nullptr };
  uint32_t d1 = __vf_call( DECODE, in );
  uint32_t d2 = __vf_call( DECODE, in );
  uint32_t g = 2 * n;
  vf_assert( src_pos == b.size(), "exactly-two-deltas" );
  vf_assert( d1 > 0 && d1 <= g && d2 <= g - d1, "deltas-in-range" );
  vf_assert( g - d1 == ( litx > lity ? litx : lity ), "larger-fanin" );
  vf_assert( g - d1 - d2 == ( litx > lity ? lity : litx ), "smaller-fanin" );
  vf_cover( "end" );
#endif
}
/* any output of any network */
VF_PROOF( output_line )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
#ifdef VF_SYMBOLIC
  char buf[64];
  sig f( vf_range( "index", 0, N ), vf_bool( "complement" ) );
  vf_contract( "sprintf", &print_u );
  struct { char* buf; aig_network const* aig; std::ostream* os; void* more[4]; } closure{ buf, &a, nullptr, {} };
  printed_count = 0;
  __vf_call( "write_aiger<iFPGA::aig_network>(iFPGA::aig_network const&, std::ostream&)::{lambda(iFPGA::aig_network::signal const&)#1}::operator()", &closure, &f );
  vf_assert( printed_count == 1 && printed_value == 2 * f.index + f.complement, "output-literal" );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static sig and_a, and_b, and_r;
static uint64_t and_calls;
static sig and_stub( aig_network*, sig a, sig b )
{
  ++and_calls;
  and_a = a;
  and_b = b;
  return and_r = sig( vf_u64( "gate" ) );
}
#endif
#ifdef VF_SYMBOLIC
typedef iFPGA::aiger_reader<aig_network> rd_t;
static rd_t& mk_reader( aig_network& a, uint64_t& S )
{
  rd_t* r = new ( __vf_alloc( sizeof( rd_t ) ) ) rd_t( a );
  S = vf_range( "variables", 1, 1ull << 30 );
  vf_vector( r->signals, "signals", S );
  r->_num_inputs = vf_u32( "num_inputs" );
  return *r;
}
#endif
/* reading one AND: any file position, any literals; the gate is built from exactly the two named literals, earlier variables keep their signals */
VF_PROOF( reader_and )
{
#ifdef VF_SYMBOLIC
  uint64_t N, S;
  aig_network& a = mk_aig( N );
  rd_t& r = mk_reader( a, S );
  vf_contract( "aig_network::create_and(", &and_stub );
  uint32_t l = vf_range( "left", 0, 2 * S ), q = vf_range( "right", 0, 2 * S );
  uint64_t j = vf_range( "j", 0, S );
  sig old = r.signals[j], x = r.signals[l >> 1], y = r.signals[q >> 1];
  if ( l & 1 ) x = sig( x.index, !x.complement );
  if ( q & 1 ) y = sig( y.index, !y.complement );
  and_calls = 0;
  r.rd_t::on_and( S, l, q );
  vf_assert( and_calls == 1 && and_a.data == x.data && and_b.data == y.data, "operands" );
  vf_assert( r.signals.size() == S + 1 && r.signals[S].data == and_r.data, "variable-defined" );
  vf_assert( r.signals[j].data == old.data, "earlier-variables-unchanged" );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static sig made[3];
static uint64_t made_n, po_n, ri_n;
static sig po_f[4], ri_f[4];
static int ri_r[4];
static uint32_t po_stub( aig_network*, sig const& f, std::string const& ) { if ( po_n < 4 ) po_f[po_n] = f; return po_n++; }
static uint32_t ri_stub( aig_network*, sig const& f, int8_t reset, std::string const& ) { if ( ri_n < 4 ) { ri_f[ri_n] = f; ri_r[ri_n] = reset; } return ri_n++; }
#endif
/* end of file: every announced output and next-state line becomes one output / register input, in order, with its literal and reset value */
VF_PROOF( reader_outputs )
{
#ifdef VF_SYMBOLIC
  uint64_t N, S;
  aig_network& a = mk_aig( N );
  rd_t& r = mk_reader( a, S );
  vf_contract( "aig_network::create_po(", &po_stub );
  vf_contract( "aig_network::create_ri(", &ri_stub );
  uint64_t no = vf_range( "outputs", 0, 3 ), nl = vf_range( "latches", 0, 3 );
  uint32_t o[2] = { (uint32_t)vf_range( "o0", 0, 2 * S ), (uint32_t)vf_range( "o1", 0, 2 * S ) };
  uint32_t x[2] = { (uint32_t)vf_range( "x0", 0, 2 * S ), (uint32_t)vf_range( "x1", 0, 2 * S ) };
  uint32_t rs[2] = { (uint32_t)vf_range( "r0", 0, 3 ), (uint32_t)vf_range( "r1", 0, 3 ) };
  po_n = ri_n = 0;
  sig* vals = r.signals.data();
  for ( uint64_t i = 0; i < nl; ++i ) r.rd_t::on_latch( i, x[i], (lorina::aiger_reader::latch_init_value)rs[i] );
  for ( uint64_t i = 0; i < no; ++i ) r.rd_t::on_output( i, o[i] );
  r.~rd_t();
  vf_assert( po_n == no && ri_n == nl, "counts" );
  for ( uint64_t i = 0; i < no; ++i ) { sig f = vals[o[i] >> 1]; vf_assert( po_f[i].index == f.index && po_f[i].complement == ( f.complement ^ ( o[i] & 1 ) ), "output" ); }
  for ( uint64_t i = 0; i < nl; ++i )
  {
    sig f = vals[x[i] >> 1];
    vf_assert( ri_f[i].index == f.index && ri_f[i].complement == ( f.complement ^ ( x[i] & 1 ) ), "next-state" );
    vf_assert( ri_r[i] == ( rs[i] == 2 ? -1 : (int)rs[i] ), "reset-value" );
  }
  vf_cover( "end" );
#endif
}
