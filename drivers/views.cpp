// C17 / C18: depth view (levels) and topological view.
#include "aig_sym.hpp"
#include <memory>
#include <cassert>
#include <string>
#include <algorithm>
#include <optional>
#include "views/depth_view.hpp"
#include "views/topo_view.hpp"
#include "views/immutable_view.hpp"
#ifdef VF_SYMBOLIC
/* C17, any acyclic combinational network of any size. Acyclicity is the existence of a level function L with L = 0 on constants and inputs and L(n) = 1 + max over the fanins (plus one
   per complemented edge when complements count); L is ghost. Levels are required to stay below 2^30. */
typedef depth_view<aig_network> dview;
static dview* DV;
static anode* ND;
static uint32_t *LV, *L;
static uint64_t NN;
static uint32_t cost( aptr p ) { return L[p.index] + ( DV->_ps.count_complements && p.weight ? 1 : 0 ); }
/* nodes whose levels are being computed by callers (on the recursion stack): an arbitrary set of nodes above the argument, plus the node under proof */
static uint8_t* IP;
static uint64_t CUR;
static bool in_progress( uint64_t i ) { return IP[i] || i == CUR; }
static bool level_ok( uint64_t i ) { return ND[i].data[1].h1 == DV->_storage->data.trav_id ? in_progress( i ) || LV[i] == L[i] : !in_progress( i ); }
static dview& mk_view( bool structure = true )
{
  aig_network& a = mk_aig( NN );
  dview* d = (dview*)__vf_alloc( sizeof( dview ) );
  __builtin_memcpy( (void*)d, (void*)&a, sizeof( aig_network ) );
  d->_ps.count_complements = vf_bool( "count_complements" );
  auto* lv = (std::vector<uint32_t>*)__vf_alloc( sizeof( std::vector<uint32_t> ) );
  auto* cp = (std::vector<uint32_t>*)__vf_alloc( sizeof( std::vector<uint32_t> ) );
  vf_vector( *lv, "levels", NN );
  vf_vector( *cp, "crit", NN );
  *(aig_network const**)&d->_levels = d;
  *(aig_network const**)&d->_crit_path = d;
  d->_levels.data._M_ptr = lv;
  d->_levels.data._M_refcount._M_pi = nullptr;
  d->_crit_path.data._M_ptr = cp;
  d->_crit_path.data._M_refcount._M_pi = nullptr;
  d->_depth = vf_u32( "depth" );
  DV = d;
  ND = d->_storage->nodes.data();
  LV = lv->data();
  L = (uint32_t*)__vf_symarray( "L", 4, ~0ull );
  IP = (uint8_t*)__vf_symarray( "IP", 1, ~0ull );
  CUR = ~0ull;
  if ( !structure )
  { /* the output loop needs nothing but the bound */
    vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return L[i] < ( 1u << 30 ); } );
    return *d;
  }
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool {
    bool g = is_gate( ND, i );
    if ( i && !g && ND[i].children[0].data >= DV->_storage->data.num_pis ) return false; /* no registers */
    if ( !g ) return L[i] == 0;
    uint32_t x = cost( ND[i].children[0] ), y = cost( ND[i].children[1] );
    return ND[i].children[0].index < NN && ND[i].children[1].index < NN && L[i] < ( 1u << 30 ) && L[i] == 1 + ( x > y ? x : y );
  } );
  return *d;
}
/* contract of the recursive call: nodes visited in this traversal carry their level unless a caller is still working on them, before and after; callers only work on
   nodes of higher level, so that the recursion ends; the argument is visited afterwards */
static uint32_t levels_stub( dview* d, uint64_t const& n )
{
  uint64_t m = n;
  vf_assert( d == DV && m < NN, "argument-in-range" );
  vf_assert( CUR == ~0ull || L[m] < L[CUR], "recursion-decreases" );
  static uint32_t lm;
  lm = L[m];
  vf_assert_forall( "callers-are-above", 0, NN, []( uint64_t i ) -> bool { return !in_progress( i ) || L[i] > lm; } );
  vf_assert_forall( "levels-of-visited-nodes", 0, NN, level_ok );
  __vf_havoc_field( ND, 24 );
  __vf_havoc_array( LV );
  vf_assume_forall( 0, NN, level_ok );
  vf_assume( ND[m].data[1].h1 == DV->_storage->data.trav_id && LV[m] == L[m] );
  return L[m];
}
#endif
VF_PROOF( level_of_node )
{
#ifdef VF_SYMBOLIC
  static_assert( offsetof( anode, data ) == 16 );
  dview& d = mk_view();
  uint64_t n = vf_range( "n", 0, NN );
  vf_assume_forall( 0, NN, [=]( uint64_t i ) -> bool { return !IP[i] || L[i] > L[n]; } );
  vf_assume_forall( 0, NN, level_ok );
  CUR = n;
  vf_contract_rec( "::compute_levels(unsigned long const&)", &levels_stub );
  uint32_t r = d.compute_levels( n );
  CUR = ~0ull;
  vf_assert( r == L[n], "returns-level" );
  vf_assert( ND[n].data[1].h1 == d.trav_id() && LV[n] == L[n], "level-recorded" );
  vf_assert_forall( "levels-of-visited-nodes", 0, NN, level_ok );
  vf_cover( "end" );
#endif
}
/* whole computation: every node in the cone of an output gets its level (the recursive call by contract), depth is the largest level of an output */
VF_PROOF( depth_of_network )
{
#ifdef VF_SYMBOLIC
  dview& d = mk_view( false );
  auto* out = d._storage->outputs.data();
  uint64_t O = d._storage->outputs.size();
  vf_assume( O == d._storage->data.num_pos );
  vf_assume_forall( 0, O, [=]( uint64_t k ) -> bool { return out[k].index < NN; } );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !IP[i]; } );
  vf_assume_forall( 0, NN, level_ok );
  /* ghost: the largest output level and an output that has it */
  uint32_t D = vf_u32( "D" );
  uint64_t w = vf_range( "w", 0, O + 1 );
  vf_assume_forall( 0, O, [=]( uint64_t k ) -> bool { return cost( out[k] ) <= D; } );
  vf_assume( O ? w < O && cost( out[w] ) == D : D == 0 );
  vf_contract( "::compute_levels(unsigned long const&)", &levels_stub );
  vf_option( "loops_inv", 1 );
  auto vis = [&]( uint64_t i ) -> bool { return i >= NN || level_ok( i ); };
  auto le = [&]() -> bool { return d._depth <= D; };
  auto ge = [&]( uint64_t pos ) -> bool { return pos > O || pos <= w || d._depth >= D; };
  vf_loop_forall0( vis );
  vf_loop_inv0( le );
  vf_loop_inv1( ge );
  d.compute_levels();
  vf_assert( d._depth == D, "depth" );
  vf_assert_forall( "levels-of-visited-nodes", 0, NN, level_ok );
  vf_cover( "end" );
#endif
}
/* growth: a gate announced by the network gets one more than the larger level of its fanins, whatever was there before */
VF_PROOF( level_on_add )
{
#ifdef VF_SYMBOLIC
  dview& d = mk_view();
  uint64_t n = vf_range( "n", 1, NN ), j = vf_range( "j", 0, NN );
  vf_assume( is_gate( ND, n ) && n != j );
  auto a = ND[n].children[0], b = ND[n].children[1];
  vf_assume( LV[a.index] == L[a.index] && LV[b.index] == L[b.index] && a.index != n && b.index != n );
  uint32_t old = LV[j], depth = d._depth;
  d.on_add( n );
  vf_assert( LV[n] == L[n], "level-of-new-gate" );
  vf_assert( LV[j] == old && d._depth == depth, "other-levels-unchanged" );
  vf_cover( "end" );
#endif
}
/* growth: a new output raises the depth to the level of its driver, one more when its complement counts */
VF_PROOF( depth_on_output )
{
#ifdef VF_SYMBOLIC
  dview& d = mk_view();
  sig f;
  f.index = vf_range( "n", 0, NN );
  f.complement = vf_bool( "complement" );
  uint64_t j = vf_range( "j", 0, NN );
  vf_assume( LV[f.index] == L[f.index] );
  uint32_t old = LV[j], depth = d._depth, pos = d._storage->data.num_pos;
  uint64_t lvl = L[f.index] + ( d._ps.count_complements && f.complement ? 1 : 0 );
  uint32_t k = d.create_po( f, *(std::string*)__vf_alloc( sizeof( std::string ) ) );
  vf_assert( d._depth == ( depth > lvl ? depth : lvl ), "depth-covers-the-output" );
  vf_assert( LV[j] == old && d._storage->data.num_pos == pos + 1 && k + 1 == (uint32_t)d._storage->outputs.size(), "levels-unchanged" );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
/* C18, any acyclic network. Ghost: L, a level that decreases from a gate to its fanins; P, the position of a node in the order; DN, any set of nodes already placed;
   R, any set of nodes that contains the roots and the fanins of its members (so that nothing outside the cones of the roots is placed). */
typedef topo_view<aig_network> tview;
static tview* TV;
static uint64_t *T, *P;
static uint8_t *DN, *R;
static uint64_t WN; /* one more node whose being placed is tracked across calls */
static uint64_t FIN; /* last fanin finished by the call under proof */
static bool placed( uint64_t i ) { return ND[i].data[1].h1 == TV->_storage->data.trav_id; }
/* every placed node sits in the order at its own position, after its fanins; nodes some caller is working on carry the temporary mark, others no mark */
static bool node_marks( uint64_t i )
{
  uint32_t t = TV->_storage->data.trav_id, v = ND[i].data[1].h1;
  if ( in_progress( i ) ) return v == t - 1;
  return v == t || ( v != t - 1 && !DN[i] && i != FIN && is_gate( ND, i ) );
}
static bool node_position( uint64_t i ) { return in_progress( i ) || !placed( i ) || ( P[i] < TV->topo_order.size() && T[P[i]] == i ); }
static bool node_fanins( uint64_t i )
{
  if ( in_progress( i ) || !placed( i ) || !is_gate( ND, i ) ) return true;
  uint64_t a = ND[i].children[0].index, b = ND[i].children[1].index;
  return R[i] && placed( a ) && placed( b ) && P[a] < P[i] && P[b] < P[i];
}
static bool node_ok( uint64_t i ) { return node_marks( i ) && node_position( i ) && node_fanins( i ); }
static bool entry_ok( uint64_t k ) { return k >= TV->topo_order.size() || ( T[k] < NN && placed( T[k] ) && P[T[k]] == k ); }
static tview& mk_topo()
{
  aig_network& a = mk_aig( NN );
  tview* d = (tview*)__vf_alloc( sizeof( tview ) );
  __builtin_memcpy( (void*)d, (void*)&a, sizeof( aig_network ) );
  vf_vector( d->topo_order, "order", vf_range( "order_size", 0, 1ull << 31 ) );
  TV = d;
  ND = d->_storage->nodes.data();
  T = d->topo_order.data();
  P = (uint64_t*)__vf_symarray( "P", 8, ~0ull );
  L = (uint32_t*)__vf_symarray( "L", 4, ~0ull );
  IP = (uint8_t*)__vf_symarray( "IP", 1, ~0ull );
  DN = (uint8_t*)__vf_symarray( "DN", 1, ~0ull );
  R = (uint8_t*)__vf_symarray( "R", 1, ~0ull );
  CUR = FIN = WN = ~0ull;
  vf_assume( d->_storage->data.trav_id >= 2 && d->_storage->data.trav_id < 0x7fffffffu );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool {
    if ( !is_gate( ND, i ) ) return true;
    uint64_t x = ND[i].children[0].index, y = ND[i].children[1].index;
    return x < NN && y < NN && L[x] < L[i] && L[y] < L[i] && ( !R[i] || ( R[x] && R[y] ) );
  } );
  return *d;
}
static void topo_stub( tview* d, uint64_t const& n )
{
  uint64_t m = n;
  vf_assert( d == TV && m < NN, "argument-in-range" );
  vf_assert( R[m] != 0, "argument-in-cone" );
  bool was = WN != ~0ull && placed( WN );
  vf_assert( CUR == ~0ull || L[m] < L[CUR], "recursion-decreases" );
  static uint32_t lm;
  lm = L[m];
  vf_assert_forall( "callers-are-above", 0, NN, []( uint64_t i ) -> bool { return !in_progress( i ) || L[i] > lm; } );
  vf_assert_forall( "placed-nodes", 0, NN, node_ok );
  vf_assert_forall( "order-entries", 0, 1ull << 32, entry_ok );
  __vf_havoc_field( ND, 24 );
  __vf_havoc_array( T );
  __vf_havoc_array( P );
  d->topo_order._M_impl._M_finish = d->topo_order._M_impl._M_start + vf_range( "grown", 0, 1ull << 32 );
  vf_assume_forall( 0, NN, node_ok );
  vf_assume_forall( 0, 1ull << 32, entry_ok );
  vf_assume( placed( m ) && !in_progress( m ) && ( !was || placed( WN ) ) ); /* DN = { WN } */
  FIN = m;
}
#endif
VF_PROOF( topo_place_node )
{
#ifdef VF_SYMBOLIC
  tview& d = mk_topo();
  uint64_t n = vf_range( "n", 0, NN );
  vf_assume( R[n] != 0 );
  vf_assume_forall( 0, NN, [=]( uint64_t i ) -> bool { return !IP[i] || L[i] > L[n]; } );
  vf_assume_forall( 0, NN, node_ok );
  vf_assume_forall( 0, 1ull << 32, entry_ok );
  vf_contract_rec( "::create_topo_rec(unsigned long const&)", &topo_stub );
  bool known = placed( n );
  CUR = known ? ~0ull : n;
  d.create_topo_rec( n );
  uint64_t s = d.topo_order.size();
  if ( !known ) P[n] = s - 1;
  CUR = FIN = ~0ull;
  vf_assert( placed( n ), "node-placed" );
  vf_assert_forall( "marks", 0, NN, node_marks );
  vf_assert_forall( "positions", 0, NN, node_position );
  vf_assert_forall( "fanins-before", 0, NN, node_fanins );
  vf_assert_forall( "order-entries", 0, 1ull << 32, entry_ok );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static uint64_t NI, ROOTS;
static uint64_t* IN;
static void topo_common( tview& d, uint64_t& w )
{
  uint64_t O = d._storage->outputs.size();
  auto* in = IN = d._storage->inputs.data();
  auto* out = d._storage->outputs.data();
  NI = d._storage->inputs.size();
  vf_assume( d.topo_order.size() == 0 && d._storage->data.num_pis == NI && d._storage->data.num_pos == O && NI < NN );
  static uint32_t t0;
  t0 = d._storage->data.trav_id;
  vf_assume( t0 < 0x7ffffff0u );
  /* inputs know their position; marks of earlier traversals are not newer than the traversal number */
  vf_assume_forall( 0, NI, []( uint64_t k ) -> bool { return IN[k] > 0 && IN[k] < NN && !is_gate( ND, IN[k] ) && ND[IN[k]].children[0].data == k && P[IN[k]] == k + 1; } );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return ND[i].data[1].h1 <= t0 && !IP[i] && !DN[i] && ( is_gate( ND, i ) || i == 0 || ( ND[i].children[0].data < NI && IN[ND[i].children[0].data] == i ) ); } );
  vf_assume( P[0] == 0 );
  if ( !d.start_signal.has_value() )
  {
    vf_assume_forall( 0, O, [=]( uint64_t k ) -> bool { return out[k].index < NN && R[out[k].index] != 0; } );
    w = vf_range( "w", 0, O );
    WN = out[w].index;
  }
  else
  {
    WN = d.start_signal->index;
    vf_assume( WN < NN && R[WN] != 0 );
    w = 0;
  }
}
/* what holds once constants and inputs are listed: the precondition of every placement */
static void inputs_listed()
{
  vf_assert( TV->topo_order.size() == NI + 1, "inputs-listed" );
  vf_assert_forall( "inputs-in-order", 0, 1ull << 32, []( uint64_t k ) -> bool { return k > NI || T[k] == ( k ? IN[k - 1] : 0 ); } );
  vf_assert_forall( "placed-nodes", 0, NN, node_ok );
  vf_assert_forall( "order-entries", 0, 1ull << 32, entry_ok );
  ++ROOTS;
}
static void co_stub() { inputs_listed(); }
static void rec_stub( tview* d, uint64_t const& n )
{
  vf_assert( d == TV && n == WN, "start-node" );
  inputs_listed();
}
static void ci_stub()
{
  __vf_havoc_field( ND, 24 );
  __vf_havoc_array( T );
  TV->topo_order._M_impl._M_finish = TV->topo_order._M_impl._M_start + NI + 1;
  vf_assume_forall( 0, NN, node_ok );
  vf_assume_forall( 0, 1ull << 32, entry_ok );
}
#endif
/* first part of the order: constant, inputs in order, all of them marked, nothing else */
VF_PROOF( topo_inputs )
{
#ifdef VF_SYMBOLIC
  tview& d = mk_topo();
  uint64_t w;
  topo_common( d, w );
  vf_contract( "::create_topo_rec(unsigned long const&)", &rec_stub );
  vf_contract( "::foreach_co<", &co_stub );
  vf_option( "loops_inv", 1 );
  auto ci_nodes = [&]( uint64_t p, uint64_t i ) -> bool {
    uint32_t t = TV->_storage->data.trav_id, v = ND[i].data[1].h1;
    if ( i >= NN ) return true;
    if ( !is_gate( ND, i ) && ( i == 0 || ND[i].children[0].data < p ) ) return v == t;
    return v < t - 1;
  };
  auto ci_order = [&]( uint64_t p, uint64_t k ) -> bool { return k > p || T[k] == ( k ? IN[k - 1] : 0 ); };
  auto ci_size = [&]( uint64_t p ) -> bool { return p <= NI && TV->topo_order.size() == p + 1; };
  vf_loop_forall1( ci_nodes );
  vf_loop_forall1( ci_order );
  vf_loop_inv1( ci_size );
  ROOTS = 0;
  bool whole = !d.start_signal.has_value();
  d.update_topo();
  vf_assert( ROOTS == 1 || ( !whole && !is_gate( ND, WN ) ), "continues-with-the-roots" );
  if ( !whole && !is_gate( ND, WN ) ) inputs_listed();
  vf_cover( "end" );
#endif
}
/* second part, from the state the first part establishes: the cones of the outputs (or of the start signal), each node once and after its fanins */
VF_PROOF( topo_roots )
{
#ifdef VF_SYMBOLIC
  tview& d = mk_topo();
  uint64_t w;
  topo_common( d, w );
  vf_contract( "::create_topo_rec(unsigned long const&)", &topo_stub );
  vf_contract( "::foreach_ci<", &ci_stub );
  vf_option( "loops_inv", 1 );
  vf_option( "inv_mem", 0 );
  auto nodes = [&]( uint64_t i ) -> bool { return i >= NN || node_ok( i ); };
  auto entries = [&]( uint64_t k ) -> bool { return k >= ( 1ull << 32 ) || entry_ok( k ); };
  auto tracked = [&]( uint64_t p ) -> bool { return p <= w || placed( WN ); };
  vf_loop_forall0( nodes );
  vf_loop_forall0( entries );
  vf_loop_inv1( tracked );
  uint64_t O = d._storage->outputs.size();
  auto in_outputs = [&]( uint64_t p ) -> bool { return p <= O; };
  vf_loop_inv1( in_outputs );
  d.update_topo();
  FIN = ~0ull;
  vf_assert( placed( WN ), "root-placed" );
  vf_assert_forall( "placed-nodes", 0, NN, node_ok );
  vf_assert_forall( "order-entries", 0, 1ull << 32, entry_ok );
  vf_cover( "end" );
#endif
}
#ifndef VF_SYMBOLIC
#include "network/klut_network.hpp"
using namespace nat;
namespace {
template<class N>
struct ref_levels
{
  N const& a;
  bool compl_cost;
  static constexpr bool bits = std::is_same_v<N, aig_network>; /* k-LUT edges carry no complement */
  std::map<uint64_t, uint32_t> memo;
  ref_levels( N const& x, bool c = false ) : a( x ), compl_cost( c ) {}
  uint32_t operator()( uint64_t n )
  {
    auto const& nd = a._storage->nodes.at( n );
    if ( a.is_constant( n ) || a.is_ci( n ) ) return 0;
    auto it = memo.find( n );
    if ( it != memo.end() ) return it->second;
    uint32_t d = 0;
    for ( auto const& c : nd.children ) d = std::max( d, ( *this )( c.index ) + ( compl_cost && ( c.data & 1 ) && bits ? 1u : 0u ) );
    return memo[n] = d + 1;
  }
  uint32_t depth()
  {
    uint32_t d = 0;
    for ( auto const& o : a._storage->outputs ) d = std::max( d, ( *this )( o.index ) + ( compl_cost && ( o.data & 1 ) && bits ? 1u : 0u ) );
    return d;
  }
};
template<class N>
std::set<uint64_t> cone( N const& a, std::vector<uint64_t> roots )
{
  std::set<uint64_t> s;
  while ( !roots.empty() )
  {
    auto n = roots.back();
    roots.pop_back();
    if ( a.is_constant( n ) || a.is_ci( n ) || !s.insert( n ).second ) continue;
    for ( auto const& c : a._storage->nodes[n].children ) roots.push_back( c.index );
  }
  return s;
}
template<class N>
std::vector<uint64_t> po_nodes( N const& a )
{
  std::vector<uint64_t> r;
  for ( auto const& o : a._storage->outputs ) r.push_back( o.index );
  return r;
}
/* an AIG whose node order need not be topological: built, then some nodes substituted */
void shuffled_aig( aig_network& a )
{
  auto s = pick_shape( 7, 50 );
  random_aig( a, s, rnd( 2 ) );
  for ( int k = rnd( 4 ); k > 0; --k )
  {
    std::vector<uint64_t> g;
    a.foreach_gate( [&]( auto n ) { g.push_back( n ); } );
    if ( g.empty() ) return;
    uint64_t old = g[rnd( g.size() )];
    /* a replacement built from inputs only cannot depend on the replaced node */
    sig x( a._storage->inputs[rnd( a._storage->inputs.size() )], rnd( 2 ) ), y( a._storage->inputs[rnd( a._storage->inputs.size() )], rnd( 2 ) );
    sig r = rnd( 2 ) ? a.create_and( x, y ) : a.create_xor( x, y );
    auto c = cone( a, { r.index } );
    if ( c.count( old ) ) continue;
    a.substitute_node( old, r );
  }
}
klut_network random_klut()
{
  klut_network k;
  std::vector<klut_network::signal> v;
  uint32_t pis = 1 + rnd( 6 ), n = rnd( 30 );
  for ( uint32_t i = 0; i < pis; ++i ) v.push_back( k.create_pi() );
  for ( uint32_t i = 0; i < n; ++i )
  {
    uint32_t w = 1 + rnd( 4 );
    std::vector<klut_network::signal> ch;
    for ( uint32_t j = 0; j < w; ++j ) ch.push_back( v[rnd( 2 ) ? v.size() - 1 - rnd( std::min<size_t>( v.size(), 5 ) ) : rnd( v.size() )] );
    kitty::dynamic_truth_table t( w );
    for ( uint32_t b = 0; b < ( 1u << w ); ++b ) if ( rnd( 2 ) ) kitty::set_bit( t, b );
    v.push_back( k.create_node( ch, t ) );
  }
  for ( uint32_t i = 0, pos = 1 + rnd( 4 ); i < pos; ++i ) k.create_po( v[rnd( v.size() )] );
  return k;
}
} // namespace
VF_NATIVE( depth_levels )
{
  aig_network a;
  shuffled_aig( a );
  depth_view_params ps;
  ps.count_complements = rnd( 3 ) == 0;
  std::optional<depth_view<aig_network>> view;
  view.emplace( a, unit_cost<aig_network>{}, ps );
  auto& d = *view;
  auto check = [&]( std::set<uint64_t> const& nodes, const char* what ) {
    ref_levels<aig_network> r( a, ps.count_complements );
    for ( auto n : nodes ) if ( !a.is_dead( n ) ) vf_assert( d.level( n ) == r( n ), what );
    vf_assert( d.depth() == r.depth(), "depth" );
  };
  auto known = cone( a, po_nodes( a ) );
  check( known, "level" );
  for ( auto i : a._storage->inputs ) vf_assert( d.level( i ) == 0, "input-level" );
  /* growth: gates over known nodes, through the view or the network, new inputs, new outputs */
  std::vector<sig> pool;
  for ( auto n : known ) pool.push_back( sig( n, 0 ) );
  for ( auto i : a._storage->inputs ) pool.push_back( sig( i, 0 ) );
  for ( int k = rnd( 20 ); k > 0; --k )
  {
    sig x = pool[rnd( pool.size() )], y = pool[rnd( pool.size() )];
    if ( rnd( 2 ) ) x = !x;
    if ( rnd( 2 ) ) y = !y;
    uint64_t before = a.size();
    switch ( rnd( 5 ) )
    {
    case 0: { sig f = rnd( 2 ) ? a.create_pi() : d.create_pi(); pool.push_back( f ); break; }
    case 1: d.create_po( x ); break;
    default:
    {
      sig f = rnd( 2 ) ? d.create_and( x, y ) : a.create_and( x, y );
      if ( a.size() > before ) { pool.push_back( f ); known.insert( f.index ); }
    }
    }
    /* existing gates outside the cones of outputs have no level yet */
    if ( a.size() == before ) continue;
    ref_levels<aig_network> r( a, ps.count_complements );
    for ( auto n : known ) vf_assert( d.level( n ) == r( n ), "level-after-growth" );
  }
  check( known, "level-after-growth" );
  d.update_levels();
  check( cone( a, po_nodes( a ) ), "level-after-update" );
  if ( rnd( 2 ) )
  { /* a view that is gone is not told about new nodes */
    view.reset();
    if ( a._storage->inputs.size() > 1 ) { sig f = a.create_pi(); a.create_po( a.create_and( f, pool[rnd( pool.size() )] ) ); }
    depth_view<aig_network> e{ a };
    ref_levels<aig_network> r( a );
    vf_assert( e.depth() == r.depth(), "second-view" );
  }
}
VF_NATIVE( klut_levels )
{
  auto k = random_klut();
  depth_view<klut_network> d{ k };
  ref_levels<klut_network> r( k );
  for ( auto n : cone( k, po_nodes( k ) ) ) vf_assert( d.level( n ) == r( n ), "level" );
  vf_assert( d.depth() == r.depth(), "depth" );
}
template<class N>
static void check_topo( N const& a, std::optional<typename N::signal> start )
{
  auto run = [&]( auto& t ) {
    std::vector<uint64_t> order, gates, fixed;
    t.foreach_node( [&]( auto n ) { order.push_back( n ); } );
    t.foreach_gate( [&]( auto n ) { gates.push_back( n ); } );
    fixed.push_back( a.get_node( a.get_constant( false ) ) );
    if ( a.get_node( a.get_constant( true ) ) != fixed[0] ) fixed.push_back( a.get_node( a.get_constant( true ) ) );
    for ( auto i : a._storage->inputs ) fixed.push_back( i );
    vf_assert( order.size() == fixed.size() + gates.size() && std::equal( fixed.begin(), fixed.end(), order.begin() ) && std::equal( gates.begin(), gates.end(), order.begin() + fixed.size() ), "constants-and-inputs-first" );
    vf_assert( t.size() == order.size() && t.num_gates() == gates.size(), "counts" );
    std::set<uint64_t> seen( fixed.begin(), fixed.end() );
    for ( auto n : gates )
    {
      for ( auto const& c : a._storage->nodes[n].children ) vf_assert( seen.count( c.index ), "fanins-before" );
      vf_assert( seen.insert( n ).second, "each-node-once" );
    }
    auto want = start ? cone( a, { (uint64_t)a.get_node( *start ) } ) : cone( a, po_nodes( a ) );
    vf_assert( std::set<uint64_t>( gates.begin(), gates.end() ) == want, "exactly-the-logic-of-the-outputs" );
    for ( uint32_t i = 0; i < order.size(); ++i ) vf_assert( t.index_to_node( i ) == order[i] && t.node_to_index( order[i] ) == i, "index-bijection" );
    uint32_t pos = 0;
    t.foreach_po( [&]( auto f ) { if ( start ) vf_assert( f == *start, "start-signal" ); ++pos; } );
    vf_assert( pos == t.num_pos() && pos == ( start ? 1 : a.num_pos() ), "outputs" );
  };
  if ( start ) { topo_view<N> t( a, *start ); run( t ); }
  else { topo_view<N> t( a ); run( t ); }
}
VF_NATIVE( topo_order )
{
  if ( rnd( 4 ) == 0 )
  {
    auto k = random_klut();
    check_topo<klut_network>( k, {} );
    check_topo<klut_network>( k, k.index_to_node( rnd( k.size() ) ) );
    return;
  }
  aig_network a;
  shuffled_aig( a );
  check_topo<aig_network>( a, {} );
  std::vector<uint64_t> live;
  a.foreach_node( [&]( auto n ) { live.push_back( n ); } );
  check_topo<aig_network>( a, sig( live[rnd( live.size() )], rnd( 2 ) ) );
}
#endif
