// C03 (bookkeeping of an AIG) and the evaluation helpers of C01, for networks of any size.
#include <memory>
#include <cassert>
#include <string>
#include <algorithm>
#include "aig_sym.hpp"
#include "kitty/static_truth_table.hpp"
#include "kitty/dynamic_truth_table.hpp"
#include "kitty/partial_truth_table.hpp"
#include "kitty/operations.hpp"
#include "kitty/operators.hpp"
template<class T>
static auto iter( T* p ) { return __gnu_cxx::__normal_iterator<T*, std::vector<int>>( p ); }
#ifdef VF_SYMBOLIC
static anode* ND;
static uint64_t NN, IN, ON, PI, PO;
static uint64_t* INP;
static aptr* OUT;
/* representation of inputs and outputs: input k is a node that stores its position k, primary inputs first; outputs are literals of existing nodes */
static aig_network& mk_book()
{
  aig_network& a = mk_aig( NN );
  aig_storage* s = a._storage.get();
  ND = s->nodes.data();
  static_assert( sizeof( s->inputs[0] ) == 8 && sizeof( s->outputs[0] ) == 8 );
  INP = (uint64_t*)s->inputs.data();
  OUT = (aptr*)s->outputs.data();
  IN = s->inputs.size();
  ON = s->outputs.size();
  PI = s->data.num_pis;
  PO = s->data.num_pos;
  vf_assume( s->data.latches.size() == ON - PO );
  vf_assume_forall( 0, IN, []( uint64_t k ) -> bool { uint64_t n = INP[k]; return n > 0 && n < NN && ND[n].children[0].data == k && ND[n].children[1].data == k; } );
  vf_assume_forall( 0, ON, []( uint64_t k ) -> bool { return OUT[k].index < NN; } );
  return a;
}
#endif
/* creating a primary input, primary output, register output or register input appends exactly that and changes nothing else */
VF_PROOF( io_create )
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  aig_storage* s = a._storage.get();
  uint64_t op = vf_range( "op", 0, 4 );
  sig f( vf_u64( "f" ) );
  int8_t rst = (int8_t)vf_u8( "reset" );
  vf_assume( f.index < NN );
  uint32_t fo = ND[f.index].data[0].h1;
  vf_assume( ( fo & 0x7fffffff ) != 0x7fffffff );
  uint64_t j = vf_range( "j", 0, NN ), ki = vf_u64( "ki" ), ko = vf_u64( "ko" ), kl = vf_u64( "kl" );
  anode o = ND[j];
  uint64_t oi = INP[ki], oo = OUT[ko].data, ne = s->num_entries;
  uint32_t tr = s->data.trav_id;
  uint32_t ol = s->data.latches.data()[kl];
  if ( op == 0 ) vf_assume( IN == PI ); /* primary inputs are created before registers */
  if ( op == 1 ) vf_assume( ON == PO );
  uint64_t L = s->data.latches.size();
  sig r( 0 );
  uint64_t ro = ~0ull;
  if ( op == 0 ) r = a.create_pi();
  else if ( op == 1 ) ro = a.create_po( f );
  else if ( op == 2 ) r = a.create_ro();
  else ro = a.create_ri( f, rst );
  bool in = op == 0 || op == 2;
  vf_assert( s->nodes.size() == NN + in && s->inputs.size() == IN + in && s->outputs.size() == ON + !in, "one-element-appended" );
  vf_assert( s->data.num_pis == PI + ( op == 0 ) && s->data.num_pos == PO + ( op == 1 ) && s->data.latches.size() == L + ( op == 3 ), "counters" );
  vf_assert( a.num_pis() == PI + ( op == 0 ) && a.num_pos() == PO + ( op == 1 ) && a.num_cis() == uint32_t( IN + in ) && a.num_cos() == uint32_t( ON + !in ) && a.num_latches() == uint32_t( L + ( op == 3 ) ) && a.size() == uint32_t( NN + in ), "reported-counts" );
  if ( in )
  {
    vf_assert( r == sig( NN, 0 ), "fresh-literal" );
    vf_assert( a.is_ci( NN ) && a.is_pi( NN ) == ( op == 0 ) && a.is_ro( NN ) == ( op == 2 ) && !a.is_and( NN ) && !a.is_dead( NN ) && a.fanout_size( NN ) == 0 && a.fanin_size( NN ) == 0, "kind-of-new-node" );
    vf_assert( a.ci_at( IN ) == NN && a.ci_index( NN ) == uint32_t( IN ), "position-of-new-input" );
    if ( op == 0 ) vf_assert( a.pi_at( PI ) == NN && a.pi_index( NN ) == uint32_t( PI ), "position-of-new-primary-input" );
    else vf_assert( a.ro_at( IN - PI ) == NN && a.ro_index( NN ) == uint32_t( IN - PI ), "position-of-new-register" );
    vf_assert( ND[NN].data[0].n == 0 && ND[NN].data[1].n == 0 && ND[NN].next == 0, "new-node-fields-clear" );
    vf_cover( "input" );
  }
  else
  {
    vf_assert( ro == uint32_t( ON ), "returned-position" );
    vf_assert( a.co_at( ON ) == f, "position-of-new-output" );
    if ( op == 1 ) vf_assert( a.po_at( PO ) == f, "position-of-new-primary-output" );
    else vf_assert( a.ri_at( ON - PO ) == f && a.latch_reset( L ) == rst, "position-of-new-register-input" );
    vf_cover( "output" );
  }
  vf_assert( ND[j].data[0].h1 == o.data[0].h1 + ( !in && j == f.index ), "fanout-counts" );
  vf_assert( ND[j].children[0].data == o.children[0].data && ND[j].children[1].data == o.children[1].data && ND[j].next == o.next && ND[j].data[1].n == o.data[1].n && ND[j].data[0].h2 == o.data[0].h2, "existing-nodes-unchanged" );
  vf_assert( ki >= IN || INP[ki] == oi, "existing-inputs-unchanged" );
  vf_assert( ko >= ON || OUT[ko].data == oo, "existing-outputs-unchanged" );
  vf_assert( kl >= L || s->data.latches.data()[kl] == ol, "existing-resets-unchanged" );
  vf_assert( s->num_entries == ne && s->data.trav_id == tr, "other-data-unchanged" );
  vf_cover( "end" );
#endif
}
/* positions: the k-th element is found at position k, kinds partition the nodes */
VF_PROOF( io_queries )
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  uint64_t k = vf_range( "k", 0, 1ull << 31 );
  vf_assert( a.num_cis() == IN && a.num_cos() == ON && a.num_pis() == PI && a.num_pos() == PO && a.num_latches() == ON - PO && a.size() == NN, "counts" );
  vf_assert( a.is_combinational() == ( IN == PI && ON == PO ), "combinational" );
  if ( k < IN )
  {
    uint64_t n = INP[k];
    vf_assert( a.ci_at( k ) == n && a.ci_index( n ) == k && a.is_ci( n ) && a.is_pi( n ) == ( k < PI ) && a.is_ro( n ) == ( k >= PI ) && !a.is_and( n ) && !a.is_constant( n ) && a.fanin_size( n ) == 0, "input-position" );
    if ( k < PI ) vf_assert( a.pi_at( k ) == n && a.pi_index( n ) == k, "primary-input-position" );
    else vf_assert( a.ro_at( k - PI ) == n && a.ro_index( n ) == k - PI, "register-position" );
    if ( k >= PI && k - PI < ON - PO ) vf_assert( a.ro_to_ri( sig( n, 0 ) ) == a.ri_at( k - PI ), "register-input-of-register" );
    vf_cover( "in" );
  }
  if ( k < ON )
  {
    sig f( OUT[k].index, OUT[k].weight );
    vf_assert( a.co_at( k ) == f, "output-position" );
    if ( k < PO ) vf_assert( a.po_at( k ) == f, "primary-output-position" );
    else vf_assert( a.ri_at( k - PO ) == f, "register-input-position" );
    vf_cover( "out" );
  }
  uint64_t n = vf_range( "n", 0, NN );
  sig g( vf_u64( "g" ) );
  vf_assert( a.get_node( g ) == g.index && a.is_complemented( g ) == bool( g.complement ) && a.make_signal( n ) == sig( n, 0 ) && a.node_to_index( n ) == uint32_t( n ) && a.index_to_node( n ) == n, "literal-queries" );
  vf_assert( a.is_constant( n ) == ( n == 0 ) && a.is_and( n ) == ( n > 0 && !a.is_ci( n ) ) && !a.is_or( n ) && !a.is_xor( n ) && !a.is_maj( n ) && !a.is_ite( n ), "kinds" );
  vf_assert( a.fanin_size( n ) == ( a.is_and( n ) ? 2 : 0 ), "fanin-size" );
  vf_assert( a.get_constant( false ) == sig( 0, 0 ) && a.get_constant( true ) == sig( 0, 1 ), "constants" );
  vf_assert( a.get_child0( n ) == sig( ND[n].children[0].index, ND[n].children[0].weight ) && a.get_child1( n ) == sig( ND[n].children[1].index, ND[n].children[1].weight ), "children" );
  vf_cover( "end" );
#endif
}
/* position of an output literal: the first one of that group that equals it, or none */
template<int G>
static void position_of_output()
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  vf_option( "loops_inv", 1 );
  sig f( vf_u64( "f" ) );
  uint64_t base = G == 2 ? PO : 0, len = G == 0 ? ON : G == 1 ? PO : ON - PO;
  uint64_t j = vf_range( "j", 0, 1ull << 31 );
  auto match = [=]( uint64_t i ) -> bool { return OUT[base + i].index == f.index && OUT[base + i].weight == f.complement; };
  auto before = [&]( uint64_t c ) -> bool { return j >= c || j >= len || !match( j ); };
  auto bound = [&]( uint64_t c ) -> bool { return c <= len; };
  vf_loop_inv1( before );
  vf_loop_inv1( bound );
  auto p2 = [&]( uint64_t p, uint64_t i ) -> bool { return (aptr*)p == OUT + base + i; };
  vf_loop_inv2( p2 );
  uint32_t r = G == 0 ? a.co_index( f ) : G == 1 ? a.po_index( f ) : a.ri_index( f );
  if ( r == uint32_t( -1 ) ) { vf_assert( j >= len || !match( j ), "no-position-only-without-a-match" ); vf_cover( "none" ); }
  else { vf_assert( r < len && match( r ) && ( j >= r || !match( j ) ), "first-match" ); vf_cover( "found" ); }
  vf_cover( "end" );
#endif
}
VF_PROOF( co_position ) { position_of_output<0>(); }
VF_PROOF( po_position ) { position_of_output<1>(); }
VF_PROOF( ri_position ) { position_of_output<2>(); }
#ifdef VF_SYMBOLIC
static uint64_t RI;
static aig_network* AIG;
static sig* QUERY;
static uint32_t ri_index_stub( aig_network* a, sig const& s )
{
  vf_assert( a == AIG && s.index == QUERY->index && s.complement == QUERY->complement, "asks-for-the-same-literal" );
  return RI;
}
#endif
/* the register output that belongs to a register input literal is the one at the position of that literal */
VF_PROOF( register_of_input )
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  AIG = &a;
  vf_assume( IN - PI == ON - PO );
  sig f( vf_u64( "f" ) );
  QUERY = &f;
  RI = vf_range( "position", 0, 1ull << 31 );
  vf_assume( RI < ON - PO && OUT[PO + RI].index == f.index && OUT[PO + RI].weight == f.complement );
  vf_contract( "::ri_index(", &ri_index_stub );
  vf_assert( a.ri_to_ro( f ) == INP[PI + RI] && a.ri_to_ro( f ) == a.ro_at( RI ), "register-of-input" );
  vf_cover( "end" );
#endif
}
/* forgetting the outputs, redirecting one output */
VF_PROOF( io_change )
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  uint64_t k = vf_range( "k", 0, 1ull << 31 ), q = vf_u64( "q" ), j = vf_range( "j", 0, NN );
  sig f( vf_u64( "f" ) );
  anode o = ND[j];
  uint64_t oq = OUT[q].data;
  bool clear = vf_bool( "clear" );
  if ( clear )
  {
    vf_assume( ON == PO );
    a.clear_pos();
    vf_assert( a.num_pos() == 0 && a.num_cos() == 0, "no-outputs-left" );
    vf_cover( "clear" );
  }
  else
  {
    vf_assume( k < PO );
    a.set_po_at( k, f );
    vf_assert( a.po_at( k ) == f && a.num_pos() == PO && a.num_cos() == ON && ( q == k || OUT[q].data == oq ), "only-that-output-changed" );
    vf_cover( "set" );
  }
  vf_assert( a.num_pis() == PI && a.num_cis() == IN && a.size() == NN, "inputs-and-nodes-kept" );
  vf_assert( ND[j].children[0].data == o.children[0].data && ND[j].children[1].data == o.children[1].data && ND[j].data[0].n == o.data[0].n && ND[j].data[1].n == o.data[1].n && ND[j].next == o.next, "existing-nodes-unchanged" );
  vf_cover( "end" );
#endif
}
/* iterations visit every element of their group exactly once, in order, with consecutive indices */
template<int G>
static void iterate()
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  vf_option( "loops_inv", 1 );
  uint64_t base = G == 1 ? PI : G == 4 ? PO : 0;
  uint64_t len = G == 0 ? PI : G == 1 ? IN - PI : G == 2 ? IN : G == 3 ? PO : G == 4 ? ON - PO : ON;
  static uint64_t seen;
  seen = 0;
  auto cnt = [&]( uint64_t c ) -> bool { return c == seen; };
  auto bound = [&]() -> bool { return seen <= len; };
  auto pos = [&]( uint64_t p ) -> bool { return p == (uint64_t)( G < 3 ? (void*)( INP + base + seen ) : (void*)( OUT + base + seen ) ); };
  vf_loop_inv1( cnt );
  vf_loop_inv0( bound );
  vf_loop_inv1( pos );
  if constexpr ( G < 3 )
  {
    auto fn = [&]( auto n, auto i ) { vf_assert( seen < len && i == uint32_t( seen ) && uint64_t( n ) == INP[base + seen], "next-input" ); ++seen; };
    if constexpr ( G == 0 ) a.foreach_pi( fn );
    else if constexpr ( G == 1 ) a.foreach_ro( fn );
    else a.foreach_ci( fn );
  }
  else
  {
    auto fn = [&]( auto f, auto i ) { vf_assert( seen < len && i == uint32_t( seen ) && f.data == OUT[base + seen].data, "next-output" ); ++seen; };
    if constexpr ( G == 3 ) a.foreach_po( fn );
    else if constexpr ( G == 4 ) a.foreach_ri( fn );
    else a.foreach_co( fn );
  }
  vf_assert( seen == len, "all-visited" );
  vf_cover( "end" );
#endif
}
VF_PROOF( each_pi ) { iterate<0>(); }
VF_PROOF( each_ro ) { iterate<1>(); }
VF_PROOF( each_ci ) { iterate<2>(); }
VF_PROOF( each_po ) { iterate<3>(); }
VF_PROOF( each_ri ) { iterate<4>(); }
VF_PROOF( each_co ) { iterate<5>(); }
/* iteration over nodes and gates: an arbitrary node j is visited once if it belongs to the group and never otherwise; visits are in increasing order */
template<bool GATES>
static void iterate_nodes()
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  vf_option( "loops_inv", 1 );
  uint64_t j = vf_u64( "j" );
  static uint64_t seen, next;
  seen = 0;
  next = GATES ? 1 : 0;
  bool member = j < NN && ( !GATES || j > 0 ) && !( ( ND[j].data[0].h1 >> 31 ) & 1 ) && ( !GATES || ND[j].children[0].data != ND[j].children[1].data );
  auto state = [&]( uint64_t c ) -> bool { return next <= c && c <= NN && seen == ( member && j < c ); };
  auto state0 = [&]() -> bool { return next <= NN; };
  vf_loop_inv1( state );
  vf_loop_inv0( state0 );
  auto fn = [&]( auto n ) {
    vf_assert( n >= next && n < NN, "visits-increase" );
    vf_assert( n != j || ( member && seen == 0 ), "members-only-and-once" );
    if ( n == j ) ++seen;
    next = n + 1;
  };
  if constexpr ( GATES ) a.foreach_gate( fn );
  else a.foreach_node( fn );
  vf_assert( seen == member, "every-member-visited" );
  vf_cover( "end" );
#endif
}
VF_PROOF( each_node ) { iterate_nodes<false>(); }
VF_PROOF( each_gate ) { iterate_nodes<true>(); }
VF_PROOF( each_register )
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  vf_option( "loops_inv", 1 );
  vf_assume( IN - PI == ON - PO );
  uint64_t len = IN - PI;
  static uint64_t seen;
  seen = 0;
  auto cnt = [&]( uint64_t c ) -> bool { return c == seen; };
  auto bound = [&]() -> bool { return seen <= len; };
  auto pos = [&]( uint64_t p ) -> bool { return p == (uint64_t)( INP + PI + seen ); };
  auto pos2 = [&]( uint64_t p ) -> bool { return p == (uint64_t)( OUT + PO + seen ); };
  vf_loop_inv1( cnt );
  vf_loop_inv0( bound );
  vf_loop_inv1( pos );
  vf_loop_inv1( pos2 );
  a.foreach_register( [&]( std::pair<sig, uint64_t> r, uint32_t i ) {
    vf_assert( seen < len && i == uint32_t( seen ) && r.first.data == OUT[PO + seen].data && r.second == INP[PI + seen], "next-register" );
    ++seen;
  } );
  vf_assert( seen == len && a.num_registers() == len, "all-visited" );
  vf_cover( "end" );
#endif
}
/* fanins of a gate in stored order */
VF_PROOF( each_fanin )
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  uint64_t n = vf_range( "n", 0, NN );
  bool g = n > 0 && ND[n].children[0].data != ND[n].children[1].data;
  uint32_t c = 0, c2 = 0, c3 = 0, c4 = 0, stop = 0, stop2 = 0;
  auto is = [&]( sig const& s, uint32_t i ) -> bool { return i < 2 && s.index == ND[n].children[i].index && s.complement == ND[n].children[i].weight; };
  a.foreach_fanin( n, [&]( sig const& s ) { vf_assert( is( s, c ), "fanin" ); ++c; } );
  a.foreach_fanin( n, [&]( sig const& s, uint32_t i ) { vf_assert( i == c2 && is( s, i ), "fanin" ); ++c2; } );
  a.foreach_fanin( n, [&]( sig const& s ) -> bool { vf_assert( is( s, c3 ), "fanin" ); ++c3; return true; } );
  a.foreach_fanin( n, [&]( sig const& s, uint32_t i ) -> bool { vf_assert( i == c4 && is( s, i ), "fanin" ); ++c4; return true; } );
  a.foreach_fanin( n, [&]( sig const& s ) -> bool { ++stop; return false; } );
  a.foreach_fanin( n, [&]( sig const& s, uint32_t i ) -> bool { ++stop2; return false; } );
  vf_assert( c == ( g ? 2 : 0 ) && c2 == c && c3 == c && c4 == c && stop == ( g ? 1 : 0 ) && stop2 == stop, "number-of-fanins" );
  vf_cover( "end" );
#endif
}
/* C01: evaluating a gate from values of its fanins: Booleans and truth tables */
VF_PROOF( evaluate_gate )
{
#ifdef VF_SYMBOLIC
  aig_network& a = mk_book();
  uint64_t n = vf_range( "n", 1, NN );
  vf_assume( is_gate( ND, n ) );
  bool w0 = ND[n].children[0].weight, w1 = ND[n].children[1].weight;
  bool v[2] = { vf_bool( "v0" ), vf_bool( "v1" ) };
  vf_assert( a.compute( n, iter( &v[0] ), iter( &v[2] ) ) == ( ( v[0] != w0 ) && ( v[1] != w1 ) ), "boolean-value" );
  typedef kitty::static_truth_table<4, true> T4;
  T4 t[2];
  t[0]._bits = vf_u16( "t0" );
  t[1]._bits = vf_u16( "t1" );
  T4 r = a.compute( n, iter( &t[0] ), iter( &t[2] ) );
  vf_assert( r._bits == ( ( t[0]._bits ^ ( w0 ? 0xffff : 0 ) ) & ( t[1]._bits ^ ( w1 ? 0xffff : 0 ) ) ), "truth-table-value" );
  typedef kitty::static_truth_table<7, false> T7;
  T7 u[2];
  for ( int i = 0; i < 2; ++i ) for ( int k = 0; k < 2; ++k ) u[i]._bits[k] = vf_u64( "u" );
  T7 q = a.compute( n, iter( &u[0] ), iter( &u[2] ) );
  for ( int k = 0; k < 2; ++k ) vf_assert( q._bits[k] == ( ( u[0]._bits[k] ^ ( w0 ? ~0ull : 0 ) ) & ( u[1]._bits[k] ^ ( w1 ? ~0ull : 0 ) ) ), "large-truth-table-value" );
  vf_cover( "end" );
#endif
}
#ifndef VF_SYMBOLIC
using namespace nat;
/* partial truth tables are extended one block at a time: the recomputed last block equals the recomputation of the whole table */
VF_NATIVE( evaluate_partial )
{
  aig_network a;
  std::vector<sig> p;
  for ( int i = 0; i < 3; ++i ) p.push_back( a.create_pi() );
  sig g = a.create_and( p[rnd( 2 )] ^ bool( rnd( 2 ) ), p[2] ^ bool( rnd( 2 ) ) );
  uint64_t bits = 1 + rnd( 200 );
  std::vector<kitty::partial_truth_table> v( 2, kitty::partial_truth_table( bits ) );
  auto expect = [&]( uint64_t i ) {
    bool x = kitty::get_bit( v[0], i ) != a.get_child0( g.index ).complement, y = kitty::get_bit( v[1], i ) != a.get_child1( g.index ).complement;
    return x && y;
  };
  for ( auto& t : v ) for ( uint64_t i = 0; i < bits; ++i ) if ( rnd( 2 ) ) kitty::set_bit( t, i );
  auto r = a.compute( g.index, v.begin(), v.end() );
  for ( uint64_t i = 0; i < bits; ++i ) vf_assert( kitty::get_bit( r, i ) == expect( i ), "partial-table-value" );
  for ( int step = 0; step < 100; ++step )
  {
    for ( auto& t : v ) { t.resize( bits + 1 ); if ( rnd( 2 ) ) kitty::set_bit( t, bits ); }
    ++bits;
    a.compute( g.index, r, v.begin(), v.end() );
    vf_assert( uint64_t( r.num_bits() ) == bits, "extended-length" );
    for ( uint64_t i = 0; i < bits; ++i ) vf_assert( kitty::get_bit( r, i ) == expect( i ), "extended-table-value" );
  }
  bool b[2] = { bool( rnd( 2 ) ), bool( rnd( 2 ) ) };
  vf_assert( a.compute( g.index, iter( &b[0] ), iter( &b[2] ) ) == ( ( b[0] != bool( a.get_child0( g.index ).complement ) ) && ( b[1] != bool( a.get_child1( g.index ).complement ) ) ), "boolean-value" );
  std::vector<kitty::dynamic_truth_table> d( 2, kitty::dynamic_truth_table( 8 ) );
  for ( auto& t : d ) for ( auto& w : t._bits ) w = vfrt::pick( 64 );
  auto dr = a.compute( g.index, d.begin(), d.end() );
  for ( uint64_t i = 0; i < 256; ++i ) vf_assert( kitty::get_bit( dr, i ) == ( ( kitty::get_bit( d[0], i ) != a.get_child0( g.index ).complement ) && ( kitty::get_bit( d[1], i ) != a.get_child1( g.index ).complement ) ), "dynamic-table-value" );
}
#endif
