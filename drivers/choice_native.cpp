// vf-native: g++ openmp abcsat
// Bounded native contracts: structural choices from equivalent networks never change a function.
#include "vf.h"
#include <cassert>
#include <omp.h>
#include <iostream>
#include <kitty/kitty.hpp>
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
#include "native_aig.hpp"
#include "optimization/rewrite.hpp"
#include "optimization/and_balance.hpp"
#include "optimization/refactor.hpp"
#include "algorithms/cleanup.hpp"
#include "views/mapping_view.hpp"
#include "algorithms/aig_with_choice.hpp"
#include "algorithms/choice_miter.hpp"
#include "algorithms/choice_computation.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
using namespace iFPGA;
using namespace nat;
typedef aig_network::signal sig;
typedef std::vector<std::vector<uint64_t>> funcs;

/* the function of every live node, block by block */
template<class N>
static std::vector<std::vector<uint64_t>> node_functions( N const& a )
{
  uint64_t nb = blocks( a._storage->inputs.size() );
  std::vector<std::vector<uint64_t>> v( a._storage->nodes.size(), std::vector<uint64_t>( nb, 0 ) );
  std::vector<uint8_t> st( v.size(), 0 );
  for ( uint32_t i = 0; i < a._storage->inputs.size(); ++i ) { auto n = a._storage->inputs[i]; st[n] = 2; for ( uint64_t b = 0; b < nb; ++b ) v[n][b] = pi_word( i, b ); }
  st[0] = 2;
  std::function<void( uint64_t )> go = [&]( uint64_t n ) {
    if ( st[n] == 2 ) return;
    vf_assert( st[n] == 0, "acyclic" );
    st[n] = 1;
    auto const& c = a._storage->nodes[n].children;
    go( c[0].index );
    go( c[1].index );
    for ( uint64_t b = 0; b < nb; ++b ) v[n][b] = ( c[0].weight ? ~v[c[0].index][b] : v[c[0].index][b] ) & ( c[1].weight ? ~v[c[1].index][b] : v[c[1].index][b] );
    st[n] = 2;
  };
  for ( uint64_t n = 1; n < v.size(); ++n ) if ( !a.is_dead( n ) ) go( n );
  return v;
}
static rewrite_params rw()
{
  rewrite_params p;
  p.b_use_zero_gain = rnd( 2 );
  p.b_preserve_depth = rnd( 2 );
  return p;
}
static aig_network variant( aig_network const& a )
{
  static node_rewriting<aig_network> fn;
  aig_network b = cleanup_dangling( a );
  for ( int k = rnd( 3 ); k >= 0; --k )
  {
    switch ( rnd( 3 ) )
    {
    case 0: b = iFPGA::detail::rewrite_impl<aig_network, node_rewriting<aig_network>>{ b, fn, rw() }.run(); break;
    case 1: { refactor_params p; p.allow_zero_gain = rnd( 2 ); b = refactor( b, p ); break; }
    case 2: b = balance_and( b ); break;
    }
  }
  return b;
}
static void check_choices( aig_with_choice const& c, funcs const& f )
{
  vf_assert( functions( c ) == f, "outputs-of-choice-network" );
  auto v = node_functions( c );
  std::vector<int> in_class( v.size(), 0 );
  uint64_t n_choices = 0;
  for ( uint64_t n = 0; n < v.size(); ++n )
  {
    if ( c.is_dead( n ) ) continue;
    auto e = c.get_equiv_node( n );
    if ( e == aig_with_choice::AIG_NULL ) continue;
    vf_assert( e < n && !c.is_ci( e ) && e != 0, "choice-precedes-representative" );
    vf_assert( ++in_class[e] == 1, "one-class-per-node" );
    ++n_choices;
    bool eq = v[n] == v[e], ne = true;
    for ( uint64_t b = 0; b < v[n].size(); ++b ) ne = ne && v[n][b] == ~v[e][b];
    vf_assert( eq || ne, "choices-equivalent-up-to-complement" );
    vf_assert( eq == ( c.phase( n ) == c.phase( e ) ), "phase-tells-the-complement" );
  }
  /* no node reaches itself through fanins and through the choices of what it reaches */
  std::vector<uint8_t> st( v.size(), 0 );
  std::function<void( uint64_t )> go = [&]( uint64_t n ) {
    if ( n == aig_with_choice::AIG_NULL || n == 0 || c.is_ci( n ) || st[n] == 2 ) return;
    vf_assert( st[n] == 0, "acyclic-with-choices" );
    st[n] = 1;
    go( c.get_child0( n ).index );
    go( c.get_child1( n ).index );
    go( c.get_equiv_node( n ) );
    st[n] = 2;
  };
  for ( auto const& o : c._storage->outputs ) go( o.index );
  vf_note( "choices " + std::to_string( n_choices ) );
}
static klut_mapping_params map_params()
{
  klut_mapping_params p;
  p.cut_enumeration_ps.cut_size = 2 + rnd( 5 );
  p.cut_enumeration_ps.cut_limit = 6 + rnd( 15 );
  p.uFlowIters = 1 + rnd( 2 );
  p.uAreaIters = 1 + rnd( 3 );
  return p;
}
static funcs start( aig_network& a, shape& s )
{
  s = pick_shape( 8, 60, 5 );
  random_aig( a, s, rnd( 2 ) );
  return functions( a );
}
/* the miter of equivalent networks has the outputs of the first one and contains the logic of all */
VF_NATIVE( miter_merge )
{
  aig_network a;
  shape s;
  auto f = start( a, s );
  choice_miter cm;
  uint64_t k = 1 + rnd( 3 );
  std::vector<aig_network> v;
  v.push_back( cleanup_dangling( a ) );
  while ( v.size() < k ) v.push_back( variant( a ) );
  std::set<std::vector<uint64_t>> all;
  for ( auto& x : v )
  {
    cm.add_aig( std::make_shared<aig_network>( x ) );
  }
  auto m = cm.merge_aigs_to_miter();
  vf_assert( m.num_pis() == a.num_pis() && m._storage->inputs.size() == a._storage->inputs.size(), "inputs" );
  vf_assert( m.num_pos() == a.num_pos() && m._storage->outputs.size() == a._storage->outputs.size(), "outputs" );
  vf_assert( functions( m ) == f, "functions" );
  auto nf = node_functions( m );
  for ( auto& x : nf ) { all.insert( x ); for ( auto& w : x ) w = ~w; all.insert( x ); }
  for ( auto& x : v )
  {
    auto xf = node_functions( x );
    std::vector<uint8_t> seen( xf.size(), 0 );
    std::function<void( uint64_t )> go = [&]( uint64_t n ) {
      if ( n == 0 || x.is_ci( n ) || seen[n]++ ) return;
      vf_assert( all.count( xf[n] ), "logic-of-every-network" );
      go( x.get_child0( n ).index );
      go( x.get_child1( n ).index );
    };
    for ( auto const& o : x._storage->outputs ) go( o.index );
  }
}
VF_NATIVE( choice_equiv )
{
  aig_network a;
  shape s;
  auto f = start( a, s );
  choice_miter cm;
  uint64_t k = 1 + rnd( 3 );
  if ( rnd( 2 ) ) cm.add_aig( std::make_shared<aig_network>( cleanup_dangling( a ) ) );
  for ( uint64_t i = 0; i < k; ++i ) cm.add_aig( std::make_shared<aig_network>( variant( a ) ) );
  choice_params cp;
  if ( rnd( 4 ) == 0 ) { cp.max_sat_var = 1 + rnd( 60 ); cp.calls_recycle = 1 + rnd( 10 ); }
  if ( rnd( 4 ) == 0 ) cp.nwords = 1 + rnd( 4 );
  if ( rnd( 4 ) == 0 ) cp.polar_flip = false;
  choice_computation cc( cp, cm.merge_aigs_to_miter() );
  aig_with_choice awc = cc.compute_choice();
  vf_assert( awc.num_pis() == a.num_pis() && awc.num_pos() == a.num_pos(), "interface" );
  check_choices( awc, f );
  auto p = map_params();
  mapping_view<aig_with_choice, true, false> m( awc );
  klut_mapping<decltype( m ), true>( m, p );
  const auto kl = *choice_to_klut<klut_network>( m );
  vf_assert( kl.num_pis() == a.num_pis() && kl.num_pos() == a.num_pos(), "lut-interface" );
  vf_assert( klut_functions( kl ) == f, "lut-network-equivalent" );
  kl.foreach_gate( [&]( auto n ) {
    uint32_t c = 0;
    kl.foreach_fanin( n, [&]( auto const& ) { ++c; } );
    vf_assert( c <= p.cut_enumeration_ps.cut_size && (uint32_t)kl.node_function( n ).num_vars() == c, "lut-fanin-bound" );
  } );
}
