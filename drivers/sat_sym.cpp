// C23: clauses generated for a network describe it; miter and equivalence check decide equality of two networks.
// vf-native: g++ openmp abcsat
#include <memory>
#include <cassert>
#include <string>
#include <algorithm>
#include "aig_sym.hpp"
#include "kitty/kitty.hpp"
#include "algorithms/cnf.hpp"
#ifdef VF_SYMBOLIC
static uint8_t* V; /* an arbitrary assignment of the SAT variables */
static inline bool lv( uint32_t l ) { return ( V[l >> 1] & 1 ) ^ ( l & 1 ); }
static inline bool lv( bill::lit_type l ) { return ( V[l.variable()] & 1 ) ^ l.is_complemented(); }
/* collects whether all clauses hold under V */
template<class L> struct holds_all
{
  bool ok = true;
  uint32_t n = 0;
  void operator()( std::initializer_list<L> c )
  {
    bool s = false;
    for ( auto const& l : c ) s |= lv( l );
    ok &= s;
    ++n;
  }
};
template<class L> static L any_lit( const char* n );
template<> uint32_t any_lit<uint32_t>( const char* n ) { return vf_u32( n ); }
template<> bill::lit_type any_lit<bill::lit_type>( const char* n ) { return bill::lit_type( (uint32_t)vf_range( n, 0, 0x7fffffff ), vf_bool( n ) ? bill::lit_type::polarities::negative : bill::lit_type::polarities::positive ); }
/* for all literals (also over equal variables) and all assignments: the clauses hold exactly when the output literal has the value of the operation */
template<class L> static void gate_clauses()
{
  V = (uint8_t*)__vf_symarray( "V", 1, ~0ull );
  L a = any_lit<L>( "a" ), b = any_lit<L>( "b" ), c = any_lit<L>( "c" ), d = any_lit<L>( "d" );
  bool A = lv( a ), B = lv( b ), C = lv( c ), D = lv( d );
  { holds_all<L> f; iFPGA::detail::on_and( d, a, b, f ); vf_assert( f.ok == ( D == ( A && B ) ), "and" ); }
  { holds_all<L> f; iFPGA::detail::on_or( d, a, b, f ); vf_assert( f.ok == ( D == ( A || B ) ), "or" ); }
  { holds_all<L> f; iFPGA::detail::on_xor( d, a, b, f ); vf_assert( f.ok == ( D == ( A != B ) ), "xor" ); }
  { holds_all<L> f; iFPGA::detail::on_maj( d, a, b, c, f ); vf_assert( f.ok == ( D == ( A + B + C >= 2 ) ), "majority" ); }
  { holds_all<L> f; iFPGA::detail::on_xor3( d, a, b, c, f ); vf_assert( f.ok == ( D == ( ( A + B + C ) % 2 == 1 ) ), "xor3" ); }
  { holds_all<L> f; iFPGA::detail::on_ite( d, a, b, c, f ); vf_assert( f.ok == ( D == ( A ? B : C ) ), "if-then-else" ); }
  bool k = vf_bool( "k" );
  vf_assert( lv( lit_not( a ) ) == !A && lv( lit_not_cond( a, k ) ) == ( A != k ), "literal-negation" );
  vf_cover( "end" );
}
VF_PROOF( gate_clauses_raw ) { gate_clauses<uint32_t>(); }
VF_PROOF( gate_clauses_bill ) { gate_clauses<bill::lit_type>(); }
VF_PROOF( literals )
{
  uint32_t v = vf_u32( "v" );
  vf_assume( v < 1u << 31 );
  bool k = vf_bool( "k" );
  uint32_t l = make_lit( v, k );
  vf_assert( l >> 1 == v && ( l & 1 ) == k && make_lit( v ) == 2 * v, "literal-of-variable" );
  vf_cover( "end" );
}
static aig_network* A;
static anode* ND;
static uint64_t NN;
static uint32_t* LIT;  /* the literal of every node */
static bool OK;        /* all clauses so far hold under V */
static bool node_val( uint64_t n ) { return lv( LIT[n] ); }
static bool agrees( uint64_t i )
{
  aptr x = ND[i].children[0], y = ND[i].children[1];
  return node_val( i ) == ( ( node_val( x.index ) != x.weight ) && ( node_val( y.index ) != y.weight ) );
}
static bool live_gate( uint64_t i ) { return is_gate( ND, i ) && !( ND[i].data[0].h1 >> 31 ); }
typedef iFPGA::detail::generate_cnf_impl<aig_network, uint32_t> cnf_impl;
static clause_callback_t<uint32_t>* FN;
static void receive( std::vector<uint32_t> const& c )
{
  bool s = false;
  for ( auto l : c ) s |= lv( l );
  OK &= s;
}
/* every gate of an AIG is an AND gate: the general case is never reached */
static void never( uint32_t, std::vector<uint32_t> const&, kitty::dynamic_truth_table const&, clause_callback_t<uint32_t> const& ) { vf_assert( false, "every-gate-is-an-and" ); }
static void mk_cnf( cnf_impl*& impl )
{
  vf_contract( "on_function<", &never );
  A = &mk_aig( NN );
  ND = A->_storage->nodes.data();
  V = (uint8_t*)__vf_symarray( "V", 1, ~0ull );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !is_gate( ND, i ) || ( ND[i].children[0].index < NN && ND[i].children[1].index < NN ); } );
  auto* lits = (std::vector<uint32_t>*)__vf_alloc( sizeof( std::vector<uint32_t> ) );
  vf_vector( *lits, "lits", NN );
  LIT = lits->data();
  FN = new clause_callback_t<uint32_t>( []( std::vector<uint32_t> const& c ) { receive( c ); } );
  struct raw { aig_network const* ntk; clause_callback_t<uint32_t> const* fn; aig_network const* map_ntk; std::vector<uint32_t>* map; void* rc; };
  static_assert( sizeof( raw ) == sizeof( cnf_impl ) );
  auto* r = (raw*)__vf_alloc( sizeof( cnf_impl ) );
  r->ntk = A;
  r->fn = FN;
  r->map_ntk = A;
  r->map = lits;
  r->rc = nullptr;
  impl = (cnf_impl*)r;
  OK = true;
}
/* the output literals do not influence the clauses (see output_literals) */
static void no_outputs( aig_network const*, void* ) {}
static void no_gates( aig_network const*, void* ) {}
static uint64_t POS;
static void take_literal( std::vector<uint32_t>*, uint32_t&& l )
{
  aptr f = A->_storage->outputs.data()[POS];
  vf_assert( POS < A->_storage->data.num_pos && l == ( LIT[f.index] ^ (uint32_t)f.weight ), "literal-of-the-next-output" );
  ++POS;
}
/* every output, in order, contributes the literal of its driver with its complement */
VF_PROOF( output_literals )
{
  cnf_impl* impl;
  mk_cnf( impl );
  vf_contract( "foreach_gate<", &no_gates );
  vf_contract( "std::vector<unsigned int, std::allocator<unsigned int> >::push_back(unsigned int&&)", &take_literal );
  vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= A->_storage->data.num_pos || A->_storage->outputs.data()[i].index < NN; } );
  POS = 0;
  vf_option( "loops_inv", 1 );
  auto pos = []( uint64_t i ) -> bool { return POS == i; };
  vf_loop_inv1( pos );
  impl->run();
  vf_assert( POS == A->_storage->data.num_pos, "one-literal-per-output" );
  vf_cover( "end" );
}
/* all clauses of a network hold under an assignment exactly when the constant is false and every gate has the value of its fanins; outputs get their literals in order */
VF_PROOF( network_clauses )
{
  cnf_impl* impl;
  mk_cnf( impl );
  vf_contract( "foreach_po<", &no_outputs );
  vf_option( "loops_inv", 1 );
  static uint64_t g;
  g = vf_range( "gate", 0, NN );
  auto sound = []( uint64_t i ) -> bool { return !OK || g >= i || !live_gate( g ) || agrees( g ); };
  auto zero = []() -> bool { return !OK || !node_val( 0 ); };
  vf_loop_inv1( sound );
  vf_loop_inv0( zero );
  impl->run();
  vf_assert( !OK || !node_val( 0 ), "constant-is-false" );
  vf_assert( !OK || !live_gate( g ) || agrees( g ), "every-gate-is-constrained" );
  vf_cover( "end" );
}
VF_PROOF( network_clauses_satisfiable )
{
  cnf_impl* impl;
  mk_cnf( impl );
  vf_contract( "foreach_po<", &no_outputs );
  vf_assume( !node_val( 0 ) );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !live_gate( i ) || agrees( i ); } );
  vf_option( "loops_inv", 1 );
  auto ok = []() -> bool { return OK; };
  vf_loop_inv0( ok );
  impl->run();
  vf_assert( OK, "evaluations-satisfy-all-clauses" );
  vf_cover( "end" );
}
#else
#include "network/klut_network.hpp"
#include "native_aig.hpp"
#include "algorithms/cleanup.hpp"
#include "algorithms/miter.hpp"
#include <percy/percy.hpp>
#include "algorithms/equivalence_checking.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
#include "algorithms/debugger.hpp"
using namespace iFPGA;
typedef std::vector<std::vector<uint32_t>> clauses;
static bool holds( clauses const& cl, std::vector<char> const& v )
{
  for ( auto& c : cl )
  {
    bool s = false;
    for ( auto l : c ) s |= v[l >> 1] != ( l & 1 );
    if ( !s ) return false;
  }
  return true;
}
/* the clauses of an AIG (literals with default or shifted gate variables, both literal types) are satisfied exactly by its evaluations */
VF_NATIVE( cnf_aig )
{
  aig_network a;
  nat::shape s = nat::pick_shape( 5, 25, 5 );
  nat::random_aig( a, s );
  bool shifted = nat::rnd( 2 );
  vf_note( "pis " + std::to_string( s.pis ) + " gates " + std::to_string( a.num_gates() ) + " shifted " + std::to_string( shifted ) );
  uint32_t off = shifted ? 40 + nat::rnd( 20 ) : a.num_pis() + 1;
  clauses cl;
  std::vector<uint32_t> outs;
  if ( shifted )
    outs = generate_cnf<aig_network>( a, [&]( std::vector<uint32_t> const& c ) { cl.push_back( c ); }, node_literals<aig_network>( a, off ) );
  else if ( nat::rnd( 2 ) )
    outs = generate_cnf<aig_network>( a, [&]( std::vector<uint32_t> const& c ) { cl.push_back( c ); } );
  else
  {
    auto raw = []( bill::lit_type l ) { return 2 * l.variable() + l.is_complemented(); };
    auto o = generate_cnf<aig_network, bill::lit_type>( a, [&]( std::vector<bill::lit_type> const& c ) { std::vector<uint32_t> k; for ( auto l : c ) k.push_back( raw( l ) ); cl.push_back( k ); } );
    for ( auto l : o ) outs.push_back( raw( l ) );
  }
  vf_assert( outs.size() == a.num_pos(), "one-literal-per-output" );
  std::vector<uint64_t> gates;
  for ( uint64_t n = 1; n < a.size(); ++n ) if ( !a.is_ci( n ) && !a.is_dead( n ) ) gates.push_back( n );
  uint32_t nv = off + gates.size();
  for ( auto& c : cl ) for ( auto l : c ) vf_assert( ( l >> 1 ) < nv, "variables-in-range" );
  std::map<uint64_t, uint32_t> var;
  var[0] = 0;
  for ( uint32_t i = 0; i < s.pis; ++i ) var[a._storage->inputs[i]] = i + 1;
  for ( size_t i = 0; i < gates.size(); ++i ) var[gates[i]] = off + i;
  nat::evaluator<aig_network> e( a );
  e.val[0] = 0;
  for ( uint32_t i = 0; i < s.pis; ++i ) e.val[a._storage->inputs[i]] = nat::pi_word( i, 0 );
  for ( auto g : gates ) e.node( g );
  for ( unsigned p = 0; p < ( 1u << s.pis ); ++p )
  {
    std::vector<char> v( nv, 0 );
    for ( auto& [n, x] : var ) v[x] = ( e.val[n] >> p ) & 1;
    vf_assert( holds( cl, v ), "evaluation-satisfies-every-clause" );
    for ( size_t k = 0; k < outs.size(); ++k )
    {
      auto o = a._storage->outputs[k];
      bool want = ( ( e.val[o.index] >> p ) & 1 ) != o.weight;
      vf_assert( (bool)( v[outs[k] >> 1] ^ ( outs[k] & 1 ) ) == want, "output-literal" );
    }
    for ( int t = 0; t < 3 && gates.size(); ++t )
    {
      auto w = v;
      int m = 1 + nat::rnd( 3 );
      bool changed = false;
      while ( m-- ) { auto x = var[gates[nat::rnd( gates.size() )]]; w[x] = !w[x]; }
      for ( auto g : gates ) changed |= w[var[g]] != v[var[g]];
      vf_assert( !changed || !holds( cl, w ), "only-evaluations-satisfy-all-clauses" );
    }
    auto w = v;
    w[0] = 1;
    vf_assert( !holds( cl, w ), "constant-is-false" );
  }
}
/* the clauses of a LUT network */
VF_NATIVE( cnf_lut )
{
  klut_network k;
  std::vector<uint64_t> v{ 0, 1 };
  unsigned npi = 1 + nat::rnd( 5 ), ng = nat::rnd( 10 );
  for ( unsigned i = 0; i < npi; ++i ) v.push_back( k.create_pi() );
  for ( unsigned i = 0; i < ng; ++i )
  {
    unsigned w = 1 + nat::rnd( 5 );
    std::vector<uint64_t> fi;
    for ( unsigned q = 0; q < w; ++q ) fi.push_back( v[nat::rnd( v.size() )] );
    kitty::dynamic_truth_table t( w );
    for ( uint64_t i = 0; i < t.num_bits(); ++i ) if ( nat::rnd( 2 ) ) kitty::set_bit( t, i );
    v.push_back( k.create_node( fi, t ) );
  }
  for ( unsigned i = 0; i < 3; ++i ) k.create_po( v[nat::rnd( v.size() )] );
  clauses cl;
  auto outs = generate_cnf<klut_network>( k, [&]( std::vector<uint32_t> const& c ) { cl.push_back( c ); } );
  std::vector<uint64_t> gates;
  k.foreach_gate( [&]( auto n ) { gates.push_back( n ); } );
  auto f = nat::klut_functions( k );
  auto k2 = k;
  for ( unsigned p = 0; p < ( 1u << npi ); ++p )
  {
    std::vector<uint64_t> val( k.size(), 0 );
    std::vector<char> x( 1 + npi + gates.size(), 0 );
    val[1] = 1;
    for ( unsigned i = 0; i < npi; ++i ) val[2 + i] = x[1 + i] = p >> i & 1;
    for ( size_t i = 0; i < gates.size(); ++i )
    {
      uint64_t m = 0, j = 0;
      k.foreach_fanin( gates[i], [&]( auto c ) { m |= val[c] << j++; } );
      val[gates[i]] = x[1 + npi + i] = ( k.node_function( gates[i] )._bits[m >> 6] >> ( m & 63 ) ) & 1;
    }
    vf_assert( holds( cl, x ), "evaluation-satisfies-every-clause" );
    for ( size_t o = 0; o < outs.size(); ++o ) vf_assert( (uint64_t)( x[outs[o] >> 1] ^ ( outs[o] & 1 ) ) == ( ( f[o][0] >> p ) & 1 ), "output-literal" );
    for ( size_t i = 0; i < gates.size(); ++i ) { auto w = x; w[1 + npi + i] ^= 1; vf_assert( !holds( cl, w ), "only-evaluations-satisfy-all-clauses" ); }
  }
}
/* a second network: equal by construction (rebuilt), equal but for one output or one minterm, or unrelated */
static aig_network variant( aig_network const& a, unsigned kind )
{
  aig_network b;
  std::vector<aig_network::signal> pis;
  for ( uint32_t i = 0; i < a.num_pis(); ++i ) pis.push_back( b.create_pi() );
  auto pos = cleanup_dangling( a, b, pis.begin(), pis.end() );
  if ( kind == 1 )
  {
    auto& o = pos[nat::rnd( pos.size() )];
    o = b.create_and( b.create_or( o, pis[nat::rnd( pis.size() )] ), o ); /* absorbed: still equal */
  }
  if ( kind == 2 )
  {
    /* one minterm flipped on one output: every pattern but one agrees */
    auto m = b.get_constant( true );
    for ( auto p : pis ) m = b.create_and( m, nat::rnd( 2 ) ? p : !p );
    auto& o = pos[nat::rnd( pos.size() )];
    o = b.create_xor( o, m );
  }
  if ( kind == 3 ) { auto& o = pos[nat::rnd( pos.size() )]; o = !o; }
  if ( kind == 4 ) { auto& o = pos[nat::rnd( pos.size() )]; o = nat::rnd( 2 ) ? b.get_constant( nat::rnd( 2 ) ) : pis[nat::rnd( pis.size() )]; }
  for ( auto o : pos ) b.create_po( o );
  return b;
}
/* the miter is true exactly on the patterns on which the networks differ */
VF_NATIVE( miter_function )
{
  aig_network a;
  nat::shape s = nat::pick_shape( 7, 25, 5 );
  nat::random_aig( a, s );
  unsigned kind = nat::rnd( 5 );
  aig_network b = variant( a, kind );
  vf_note( "pis " + std::to_string( s.pis ) + " gates " + std::to_string( a.num_gates() ) + " kind " + std::to_string( kind ) );
  auto fa = nat::functions( a ), fb = nat::functions( b );
  auto m = miter<aig_network, aig_network, aig_network>( a, b );
  vf_assert( m.has_value() && m->num_pis() == s.pis && m->num_pos() == 1, "interface" );
  auto fm = nat::functions( *m );
  for ( size_t w = 0; w < fm[0].size(); ++w )
  {
    uint64_t d = 0;
    for ( size_t o = 0; o < fa.size(); ++o ) d |= fa[o][w] ^ fb[o][w];
    vf_assert( fm[0][w] == d, "true-exactly-where-they-differ" );
  }
  aig_network c = variant( a, 0 );
  if ( nat::rnd( 2 ) ) c.create_po( c.get_constant( false ) );
  else { aig_network e; for ( uint32_t i = 0; i <= s.pis; ++i ) e.create_pi(); for ( uint32_t i = 0; i < a.num_pos(); ++i ) e.create_po( e.get_constant( false ) ); c = e; }
  auto bad = miter<aig_network, aig_network, aig_network>( a, c );
  vf_assert( !bad.has_value(), "no-miter-for-different-interfaces" );
}
/* the answer is right, and a counter-example is a pattern on which the networks differ */
VF_NATIVE( equivalence )
{
  aig_network a;
  nat::shape s = nat::pick_shape( 7, 25, 5 );
  nat::random_aig( a, s );
  unsigned kind = nat::rnd( 5 );
  aig_network b = variant( a, kind );
  vf_note( "pis " + std::to_string( s.pis ) + " gates " + std::to_string( a.num_gates() ) + " kind " + std::to_string( kind ) );
  auto fa = nat::functions( a ), fb = nat::functions( b );
  auto m = miter<aig_network, aig_network, aig_network>( a, b );
  vf_assert( m.has_value(), "miter-exists" );
  equivalence_checking_stats st;
  auto r = equivalence_checking( *m, {}, &st );
  vf_assert( r.has_value(), "answers-without-a-limit" );
  uint64_t mask = s.pis >= 6 ? ~0ull : ( 1ull << ( 1u << s.pis ) ) - 1;
  bool same = true;
  for ( size_t o = 0; o < fa.size(); ++o ) for ( size_t w = 0; w < fa[o].size(); ++w ) same = same && ( ( fa[o][w] ^ fb[o][w] ) & mask ) == 0;
  vf_assert( *r == same, "answer-is-right" );
  if ( !*r )
  {
    vf_assert( st.counter_example.size() == s.pis, "counter-example-names-every-input" );
    uint64_t x = 0;
    for ( uint32_t i = 0; i < s.pis; ++i ) x |= (uint64_t)st.counter_example[i] << i;
    bool diff = false;
    for ( size_t o = 0; o < fa.size(); ++o ) diff |= ( ( fa[o][x >> 6] ^ fb[o][x >> 6] ) >> ( x & 63 ) ) & 1;
    vf_assert( diff, "counter-example-distinguishes" );
  }
  vf_assert( debug_by_miter<aig_network, aig_network>( a, b ) == same, "debug-by-miter" );
}
#endif
