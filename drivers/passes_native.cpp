// vf-native: g++ openmp
// Bounded native contracts: every optimisation / mapping pass preserves all primary-output functions.
#include "vf.h"
#include <cassert>
#include <omp.h>
#include <kitty/kitty.hpp>
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
#include "native_aig.hpp"
#include "optimization/rewrite.hpp"
#include "optimization/and_balance.hpp"
#include "optimization/refactor.hpp"
#include "algorithms/cleanup.hpp"
#include "views/mapping_view.hpp"
#include "views/depth_view.hpp"
#include "algorithms/aig_with_choice.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
using namespace iFPGA;
using namespace nat;
typedef aig_network::signal sig;

static std::string io_kept( aig_network const& a, uint32_t pis, uint32_t pos )
{
  if ( a.num_pis() != pis || a._storage->inputs.size() != pis ) return "input-count";
  if ( a.num_pos() != pos || a._storage->outputs.size() != pos ) return "output-count";
  for ( uint32_t i = 0; i < pis; ++i ) if ( !a.is_pi( a._storage->inputs[i] ) ) return "input-kind";
  return "";
}
static uint32_t ref_depth( aig_network const& a )
{
  std::map<uint64_t, uint32_t> m;
  std::function<uint32_t( uint64_t )> f = [&]( uint64_t n ) -> uint32_t {
    if ( n == 0 || a.is_ci( n ) ) return 0;
    auto it = m.find( n );
    if ( it != m.end() ) return it->second;
    uint32_t d = 1 + std::max( f( a.get_child0( n ).index ), f( a.get_child1( n ).index ) );
    return m[n] = d;
  };
  uint32_t r = 0;
  for ( auto const& o : a._storage->outputs ) r = std::max( r, f( o.index ) );
  return r;
}
static void start( aig_network& a, shape& s, uint32_t mp = 9, uint32_t mg = 90, uint32_t mo = 8 )
{
  s = pick_shape( mp, mg, mo );
  random_aig( a, s, rnd( 2 ) );
  s.pos = a.num_pos();
}
static rewrite_params rw_params()
{
  rewrite_params p;
  p.b_use_zero_gain = rnd( 2 );
  p.b_preserve_depth = rnd( 2 );
  p.cut_enumeration_ps.cut_size = 2 + rnd( 3 );
  p.cut_enumeration_ps.cut_limit = 6 + rnd( 6 );
  return p;
}
static refactor_params rf_params()
{
  refactor_params p;
  p.allow_depth_up = rnd( 2 );
  p.allow_zero_gain = rnd( 2 );
  p.max_leaves_num = 2 + rnd( 11 );
  p.max_cone_size = 2 + rnd( 19 );
  return p;
}
static std::string ps( rewrite_params const& p ) { return "zero " + std::to_string( p.b_use_zero_gain ) + " depth " + std::to_string( p.b_preserve_depth ) + " K " + std::to_string( p.cut_enumeration_ps.cut_size ) + " L " + std::to_string( p.cut_enumeration_ps.cut_limit ); }
static std::string ps( refactor_params const& p ) { return "up " + std::to_string( p.allow_depth_up ) + " zero " + std::to_string( p.allow_zero_gain ) + " leaves " + std::to_string( p.max_leaves_num ) + " cone " + std::to_string( p.max_cone_size ); }
static void check_same( std::vector<std::vector<uint64_t>> const& f, aig_network const& r, uint32_t pis, uint32_t pos )
{
  auto k = io_kept( r, pis, pos );
  vf_assert( k.empty(), ( "interface-" + k ).c_str() );
  vf_assert( functions( r ) == f, "outputs-preserved" );
}
/* one database of optimum structures for all rewriting calls, building it takes seconds */
static aig_network fast_rewrite( aig_network& a, rewrite_params const& p )
{
  static node_rewriting<aig_network> fn;
  const auto dest = iFPGA::detail::rewrite_impl<aig_network, node_rewriting<aig_network>>{ a, fn, p }.run();
  return dest;
}
VF_NATIVE( rewrite_api )
{
  aig_network a;
  shape s;
  start( a, s );
  auto f = functions( a );
  rewrite_params p;
  auto r = rewrite( a, p );
  check_same( f, r, s.pis, s.pos );
}
VF_NATIVE( rewrite_equiv )
{
  aig_network a;
  shape s;
  start( a, s );
  auto f = functions( a );
  auto p = rw_params();
  vf_note( ps( p ) );
  auto r = fast_rewrite( a, p );
  check_same( f, r, s.pis, s.pos );
  auto inv = invariant( r, true, true, true );
  vf_note( ps( p ) + " " + inv );
  vf_assert( inv.empty(), "invariant" );
}
VF_NATIVE( refactor_equiv )
{
  aig_network a;
  shape s;
  start( a, s, 10 );
  auto f = functions( a );
  auto p = rf_params();
  vf_note( ps( p ) );
  auto r = refactor( a, p );
  check_same( f, r, s.pis, s.pos );
  auto inv = invariant( r, true, true, true );
  vf_note( ps( p ) + " " + inv );
  vf_assert( inv.empty(), "invariant" );
}
VF_NATIVE( balance_equiv )
{
  aig_network a;
  shape s;
  start( a, s, 10 );
  auto f = functions( a );
  uint32_t d0 = ref_depth( a );
  auto nodes0 = a._storage->nodes.size();
  auto r = balance_and( a );
  check_same( f, r, s.pis, s.pos );
  vf_assert( functions( a ) == f && a._storage->nodes.size() == nodes0, "source-unchanged" );
  auto inv = invariant( r, true, true, true );
  vf_note( inv );
  vf_assert( inv.empty(), "invariant" );
  vf_assert( ref_depth( r ) <= d0, "balancing-does-not-increase-depth" );
}
VF_NATIVE( cleanup_equiv )
{
  aig_network a;
  shape s;
  start( a, s, 10 );
  auto f = functions( a );
  auto before = a._storage->nodes;
  auto r = cleanup_dangling( a );
  check_same( f, r, s.pis, s.pos );
  vf_assert( functions( a ) == f && a._storage->nodes.size() == before.size(), "source-unchanged" );
  auto inv = invariant( r, true, true, true );
  vf_note( inv );
  vf_assert( inv.empty(), "invariant" );
  r.foreach_gate( [&]( auto n ) { vf_assert( r.fanout_size( n ) > 0, "no-dangling-gate" ); } );
  /* exactly the gates reachable from outputs survive */
  std::set<uint64_t> reach;
  std::function<void( uint64_t )> go = [&]( uint64_t n ) { if ( n == 0 || a.is_ci( n ) || !reach.insert( n ).second ) return; go( a.get_child0( n ).index ); go( a.get_child1( n ).index ); };
  for ( auto const& o : a._storage->outputs ) go( o.index );
  vf_assert( r.num_gates() == reach.size(), "reachable-gates-kept" );
  vf_assert( ref_depth( r ) == ref_depth( a ), "depth-kept" );
}
/* mapping: quick contract on the LUT network */
static void check_klut( klut_network const& k, std::vector<std::vector<uint64_t>> const& f, uint32_t pis, uint32_t pos, uint32_t K )
{
  vf_assert( k.num_pis() == pis, "klut-input-count" );
  vf_assert( k.num_pos() == pos, "klut-output-count" );
  k.foreach_gate( [&]( auto n ) {
    uint32_t c = 0;
    k.foreach_fanin( n, [&]( auto const& s ) { ++c; } );
    vf_assert( c <= K, "lut-fanin-bound" );
    vf_assert( c == k.fanin_size( n ) && (uint32_t)k.node_function( n ).num_vars() == c, "lut-arity" );
  } );
  auto kf = klut_functions( k );
  vf_assert( kf == f, "lut-network-equivalent" );
}
VF_NATIVE( map_equiv )
{
  aig_network a;
  shape s;
  start( a, s, 10, 120 );
  auto f = functions( a );
  klut_mapping_params p;
  p.cut_enumeration_ps.cut_size = 2 + rnd( 5 );
  p.cut_enumeration_ps.cut_limit = 6 + rnd( 15 );
  p.uFlowIters = 1 + rnd( 2 );
  p.uAreaIters = 1 + rnd( 3 );
  p.bZeroGain = rnd( 2 );
  vf_note( "K " + std::to_string( p.cut_enumeration_ps.cut_size ) + " limit " + std::to_string( p.cut_enumeration_ps.cut_limit ) );
  aig_with_choice awc( a );
  mapping_view<aig_with_choice, true, false> m( awc );
  klut_mapping<decltype( m ), true>( m, p );
  const auto k = *choice_to_klut<klut_network>( m );
  check_klut( k, f, s.pis, s.pos, p.cut_enumeration_ps.cut_size );
  /* the conversion that does not look at choices, for the same mapping */
  const auto k2 = *network_to_klut<klut_network>( m );
  check_klut( k2, f, s.pis, s.pos, p.cut_enumeration_ps.cut_size );
  klut_network k3;
  vf_assert( network_to_klut( k3, m ), "mapped-network-is-converted" );
  check_klut( k3, f, s.pis, s.pos, p.cut_enumeration_ps.cut_size );
  aig_network r = convert_klut_to_aig( k );
  check_same( f, r, s.pis, s.pos );
}
VF_NATIVE( script_equiv )
{
  aig_network a;
  shape s;
  start( a, s, 9, 100 );
  auto f = functions( a );
  std::string h;
  uint64_t steps = 1 + rnd( 6 );
  for ( uint64_t i = 0; i < steps; ++i )
  {
    switch ( rnd( 5 ) )
    {
    case 0: { auto p = rw_params(); h += " rewrite(" + ps( p ) + ")"; vf_note( h ); a = fast_rewrite( a, p ); break; }
    case 1: { auto p = rf_params(); h += " refactor(" + ps( p ) + ")"; vf_note( h ); a = refactor( a, p ); break; }
    case 2: h += " balance"; vf_note( h ); a = balance_and( a ); break;
    case 3: h += " cleanup"; vf_note( h ); a = cleanup_dangling( a ); break;
    case 4:
    {
      h += " lut_opt"; vf_note( h );
      klut_mapping_params p;
      p.cut_enumeration_ps.cut_size = 2 + rnd( 5 );
      aig_with_choice awc( a );
      mapping_view<aig_with_choice, true, false> m( awc );
      klut_mapping<decltype( m ), true>( m, p );
      a = convert_klut_to_aig( *choice_to_klut<klut_network>( m ) );
      break;
    }
    }
    check_same( f, a, s.pis, s.pos );
  }
}
