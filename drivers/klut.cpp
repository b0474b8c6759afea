// C07/C10: the truth-table cache and the k-LUT network.
#include "vf.h"
#include <cassert>
#include <memory>
#include <string>
#include <algorithm>
#include "native_aig.hpp"
#include "kitty/kitty.hpp"
#include "database/network/klut_network.hpp"
using namespace iFPGA;
typedef kitty::dynamic_truth_table DT;

#ifndef VF_SYMBOLIC
static DT rnd_tt( unsigned nv )
{
  DT t( nv );
  uint64_t k = nat::rnd( 8 );
  for ( uint64_t i = 0; i < t.num_bits(); ++i )
    if ( k == 0 ? false : k == 1 ? true : k == 2 ? nv && ( i & 1 ) : nat::rnd( 2 ) ) kitty::set_bit( t, i );
  return t;
}
#endif
/* C07: a literal of the cache always denotes the function it was given for */
VF_NATIVE( cache_history )
{
#ifndef VF_SYMBOLIC
  truth_table_cache<DT> c( nat::rnd( 2 ) ? 1000u : nat::rnd( 4 ) );
  std::vector<std::pair<DT, uint32_t>> h;
  unsigned steps = 1 + nat::rnd( nat::rnd( 4 ) ? 40 : 1500 );
  unsigned maxv = 1 + nat::rnd( 8 );
  auto less = []( DT const& a, DT const& b ) { return a.num_vars() != b.num_vars() ? a.num_vars() < b.num_vars() : a._bits < b._bits; };
  std::map<DT, uint32_t, decltype( less )> ref( less );
  std::set<uint32_t> idx;
  for ( unsigned i = 0; i < steps; ++i )
  {
    DT t = h.size() && nat::rnd( 3 ) == 0 ? h[nat::rnd( h.size() )].first : rnd_tt( nat::rnd( maxv + 1 ) );
    if ( nat::rnd( 4 ) == 0 ) t = ~t;
    DT keep = t;
    uint32_t l = c.insert( t );
    idx.insert( l >> 1 );
    vf_assert( t == keep, "argument-unchanged" );
    vf_assert( c[l] == t && c[l].num_vars() == t.num_vars(), "literal-denotes-the-inserted-function" );
    vf_assert( c[l ^ 1] == ~t, "opposite-literal-denotes-the-complement" );
    vf_assert( ( l & 1 ) == (uint32_t)kitty::get_bit( t, 0 ), "polarity-is-the-value-at-zero" );
    auto it = ref.find( t );
    if ( it != ref.end() ) vf_assert( it->second == l, "same-function-same-literal" );
    auto jt = ref.find( ~t );
    if ( jt != ref.end() ) vf_assert( ( jt->second ^ 1 ) == l, "complement-shares-the-entry" );
    ref[t] = l;
    vf_assert( c.size() == idx.size() && *idx.rbegin() + 1 == idx.size(), "size-is-the-number-of-distinct-functions" );
    h.emplace_back( t, l );
    auto& o = h[nat::rnd( h.size() )];
    vf_assert( c[o.second] == o.first, "earlier-literals-keep-their-functions" );
  }
  for ( auto& o : h ) vf_assert( c[o.second] == o.first, "earlier-literals-keep-their-functions" );
  vf_cover( "end" );
#endif
}
#ifndef VF_SYMBOLIC
struct kref { std::vector<uint64_t> fi; DT f; bool gate; };
static uint64_t keval( std::vector<kref> const& r, uint64_t n, uint64_t pat, std::vector<uint64_t> const& piidx )
{
  if ( n <= 1 ) return n;
  if ( !r[n].gate ) return ( pat >> piidx[n] ) & 1;
  uint64_t p = 0;
  for ( size_t j = 0; j < r[n].fi.size(); ++j ) p |= keval( r, r[n].fi[j], pat, piidx ) << j;
  return kitty::get_bit( r[n].f, p );
}
#endif
/* C10: construction histories of LUT networks */
VF_NATIVE( klut_history )
{
#ifndef VF_SYMBOLIC
  klut_network k;
  std::vector<kref> r( 2 );
  std::vector<uint64_t> piidx( 2, 0 ), ins, outs, fan( 2, 0 );
  unsigned npi = 1 + nat::rnd( 5 ), nro = nat::rnd( 3 ) ? 0 : nat::rnd( 3 );
  std::vector<uint64_t> adds;
  k.events().on_add.push_back( [&]( auto const& n ) { adds.push_back( n ); } );
  for ( unsigned i = 0; i < npi + nro; ++i )
  {
    uint64_t s = i < npi ? k.create_pi() : k.create_ro();
    vf_assert( s == r.size(), "fresh-input-node" );
    ins.push_back( s );
    r.push_back( { {}, DT( 0 ), false } );
    piidx.push_back( i );
    fan.push_back( 0 );
  }
  unsigned ng = nat::rnd( 14 );
  std::vector<uint64_t> gates;
  auto pick = [&]() { return nat::rnd( 3 ) ? r.size() - 1 - nat::rnd( std::min<uint64_t>( r.size(), 6 ) ) : nat::rnd( r.size() ); };
  auto add = [&]( uint64_t s, std::vector<uint64_t> fi, DT f, const char* what ) {
    vf_assert( s == r.size(), "fresh-gate-node" );
    for ( auto c : fi ) ++fan[c];
    r.push_back( { fi, f, true } );
    piidx.push_back( 0 );
    fan.push_back( 0 );
    gates.push_back( s );
    vf_assert( adds.size() == gates.size() && adds.back() == s, "observer-sees-each-gate-once" );
    vf_assert( k.node_function( s ) == f, what );
  };
  auto fn = [&]( unsigned nv, auto g ) { DT t( nv ); for ( uint64_t i = 0; i < t.num_bits(); ++i ) if ( g( i & 1, ( i >> 1 ) & 1, ( i >> 2 ) & 1 ) ) kitty::set_bit( t, i ); return t; };
  for ( unsigned i = 0; i < ng; ++i )
  {
    uint64_t a = pick(), b = pick(), c = pick();
    switch ( nat::rnd( 15 ) )
    {
    case 0: add( k.create_not( a ), { a }, fn( 1, []( int x, int, int ) { return !x; } ), "not" ); break;
    case 1: add( k.create_and( a, b ), { a, b }, fn( 2, []( int x, int y, int ) { return x && y; } ), "and" ); break;
    case 2: add( k.create_or( a, b ), { a, b }, fn( 2, []( int x, int y, int ) { return x || y; } ), "or" ); break;
    case 3: add( k.create_lt( a, b ), { a, b }, fn( 2, []( int x, int y, int ) { return !x && y; } ), "lt" ); break;
    case 4: add( k.create_le( a, b ), { a, b }, fn( 2, []( int x, int y, int ) { return !x || y; } ), "le" ); break;
    case 5: add( k.create_xor( a, b ), { a, b }, fn( 2, []( int x, int y, int ) { return x != y; } ), "xor" ); break;
    case 6: add( k.create_maj( a, b, c ), { a, b, c }, fn( 3, []( int x, int y, int z ) { return x + y + z >= 2; } ), "maj" ); break;
    case 7: add( k.create_ite( a, b, c ), { a, b, c }, fn( 3, []( int x, int y, int z ) { return x ? y : z; } ), "ite" ); break;
    case 8: add( k.create_xor3( a, b, c ), { a, b, c }, fn( 3, []( int x, int y, int z ) { return ( x + y + z ) & 1; } ), "xor3" ); break;
    case 9:
    {
      /* n-ary operations are checked by function only */
      std::vector<uint64_t> fs;
      unsigned w = nat::rnd( 6 );
      for ( unsigned q = 0; q < w; ++q ) fs.push_back( pick() );
      unsigned op = nat::rnd( 3 );
      uint64_t old = r.size();
      uint64_t s = op == 0 ? k.create_nary_and( fs ) : op == 1 ? k.create_nary_or( fs ) : k.create_nary_xor( fs );
      for ( uint64_t n = old; n < k.size(); ++n )
      {
        std::vector<uint64_t> fi;
        k.foreach_fanin( n, [&]( auto f ) { fi.push_back( f ); } );
        for ( auto f : fi ) { vf_assert( f < n, "fanin-earlier" ); ++fan[f]; }
        r.push_back( { fi, k.node_function( n ), true } );
        piidx.push_back( 0 );
        fan.push_back( 0 );
        gates.push_back( n );
      }
      for ( uint64_t p = 0; p < ( 1ull << ( npi + nro ) ); ++p )
      {
        uint64_t e = op == 0 ? 1 : 0;
        for ( auto f : fs ) { auto v = keval( r, f, p, piidx ); e = op == 0 ? e & v : op == 1 ? e | v : e ^ v; }
        vf_assert( keval( r, s, p, piidx ) == e, "n-ary-function" );
      }
      break;
    }
    case 10: vf_assert( k.create_buf( a ) == a, "buffer" ); break;
    case 11:
    {
      DT t( 0 );
      if ( nat::rnd( 2 ) ) t = ~t;
      vf_assert( k.create_node( {}, t ) == ( kitty::is_const0( t ) ? 0u : 1u ), "constant-function" );
      break;
    }
    case 12:
      if ( nro == 0 && npi < 8 )
      { /* inputs may be added at any time */
        uint64_t s = k.create_pi();
        vf_assert( s == r.size(), "fresh-input-node" );
        ins.push_back( s );
        r.push_back( { {}, DT( 0 ), false } );
        piidx.push_back( npi++ );
        fan.push_back( 0 );
      }
      break;
    default:
    {
      std::vector<uint64_t> fi;
      unsigned w = 1 + nat::rnd( 6 );
      for ( unsigned q = 0; q < w; ++q ) fi.push_back( pick() );
      DT t = rnd_tt( w );
      add( k.create_node( fi, t ), fi, t, "node-function" );
    }
    }
  }
  /* clone into a second network */
  if ( gates.size() )
  {
    uint64_t g = gates[nat::rnd( gates.size() )];
    klut_network k2;
    std::vector<uint64_t> fi;
    for ( size_t i = 0; i < r[g].fi.size(); ++i ) fi.push_back( k2.create_pi() );
    uint64_t n2 = k2.clone_node( k, g, fi );
    vf_assert( k2.node_function( n2 ) == r[g].f && k2.fanin_size( n2 ) == fi.size(), "clone-keeps-the-function" );
  }
  unsigned npo = nat::rnd( 5 );
  for ( unsigned i = 0; i < npo; ++i ) { uint64_t o = pick(); vf_assert( k.create_po( o ) == outs.size(), "output-index" ); outs.push_back( o ); ++fan[o]; }
  std::vector<int> resets;
  for ( unsigned i = 0; i < nro; ++i ) { uint64_t o = pick(); int8_t rs = nat::rnd( 4 ); vf_assert( k.create_ri( o, rs ) == outs.size(), "register-input-index" ); outs.push_back( o ); resets.push_back( rs ); ++fan[o]; }
  /* application fields do not influence anything below */
  for ( unsigned i = 0; i < 6; ++i )
  {
    uint64_t n = nat::rnd( r.size() ), m = nat::rnd( r.size() );
    uint32_t v = nat::rnd( 2 ) ? nat::rnd( 5 ) : nat::rnd();
    uint32_t ov = k.value( m ), os = k.visited( m );
    switch ( nat::rnd( 6 ) )
    {
    case 0: k.set_value( n, v ); vf_assert( k.value( n ) == v && k.visited( m ) == os && ( m == n || k.value( m ) == ov ), "value-written" ); break;
    case 1: k.set_visited( n, v ); vf_assert( k.visited( n ) == v && k.value( m ) == ov && ( m == n || k.visited( m ) == os ), "visited-written" ); break;
    case 2: { uint32_t o = k.value( n ); vf_assert( k.incr_value( n ) == o && k.value( n ) == o + 1, "increment" ); break; }
    case 3: { uint32_t o = k.value( n ); vf_assert( k.decr_value( n ) == o - 1 && k.value( n ) == o - 1, "decrement" ); break; }
    case 4: k.clear_values(); vf_assert( k.value( n ) == 0 && k.visited( m ) == os, "values-cleared" ); break;
    case 5: k.clear_visited(); vf_assert( k.visited( n ) == 0 && k.value( m ) == ov, "visited-cleared" ); break;
    }
  }
  vf_assert( k.size() == r.size() && k.num_cis() == npi + nro && k.num_pis() == npi && k.num_cos() == outs.size() && k.num_pos() == npo && k.num_gates() == gates.size() && k.num_registers() == nro && k.num_latches() == nro, "counts" );
  vf_assert( k.is_combinational() == ( nro == 0 ), "combinational" );
  std::vector<uint64_t> v;
  auto is = [&]( std::vector<uint64_t> const& e, const char* w ) { vf_assert( v == e, w ); v.clear(); };
  std::vector<uint64_t> all( r.size() ), pis( ins.begin(), ins.begin() + npi ), ros( ins.begin() + npi, ins.end() ), pos( outs.begin(), outs.begin() + npo ), ris( outs.begin() + npo, outs.end() );
  for ( size_t i = 0; i < all.size(); ++i ) all[i] = i;
  k.foreach_node( [&]( auto n ) { v.push_back( n ); } ); is( all, "foreach-node" );
  k.foreach_ci( [&]( auto n ) { v.push_back( n ); } ); is( ins, "foreach-ci" );
  k.foreach_pi( [&]( auto n ) { v.push_back( n ); } ); is( pis, "foreach-pi" );
  k.foreach_ro( [&]( auto n ) { v.push_back( n ); } ); is( ros, "foreach-ro" );
  k.foreach_co( [&]( auto n ) { v.push_back( n ); } ); is( outs, "foreach-co" );
  k.foreach_po( [&]( auto n ) { v.push_back( n ); } ); is( pos, "foreach-po" );
  k.foreach_ri( [&]( auto n ) { v.push_back( n ); } ); is( ris, "foreach-ri" );
  k.foreach_gate( [&]( auto n ) { v.push_back( n ); } ); is( gates, "foreach-gate" );
  for ( uint64_t n = 0; n < r.size(); ++n )
  {
    bool ci = n > 1 && !r[n].gate;
    vf_assert( k.is_constant( n ) == ( n < 2 ) && k.is_ci( n ) == ci && k.is_pi( n ) == ( ci && piidx[n] < npi ) && k.is_ro( n ) == ( ci && piidx[n] >= npi ) && k.is_function( n ) == r[n].gate, "node-kind" );
    vf_assert( k.fanout_size( n ) == fan[n], "fanout-count-equals-references" );
    if ( r[n].gate )
    {
      k.foreach_fanin( n, [&]( auto f ) { v.push_back( f ); } );
      is( r[n].fi, "fanins-in-order" );
      vf_assert( k.fanin_size( n ) == r[n].fi.size() && k.node_function( n ) == r[n].f, "fanins-and-function-kept" );
      /* evaluation: single values and whole tables */
      unsigned w = r[n].fi.size();
      uint64_t p = nat::rnd( 1ull << w );
      bool vals[8];
      for ( unsigned q = 0; q < w; ++q ) vals[q] = ( p >> q ) & 1;
      std::vector<bool> vb( vals, vals + w );
      vf_assert( k.compute( n, vb.begin(), vb.end() ) == (bool)kitty::get_bit( r[n].f, p ), "bool-evaluation" );
      std::vector<DT> tts;
      unsigned tv = nat::rnd( 4 ) ? nat::rnd( 5 ) : 6 + nat::rnd( 3 );
      for ( unsigned q = 0; q < w; ++q ) tts.push_back( rnd_tt( tv ) );
      DT res = k.compute( n, tts.begin(), tts.end() );
      vf_assert( res.num_vars() == (int)tv, "table-evaluation-size" );
      for ( unsigned m = 0; m < ( 1u << tv ); ++m )
      {
        uint64_t pp = 0;
        for ( unsigned q = 0; q < w; ++q ) pp |= (uint64_t)kitty::get_bit( tts[q], m ) << q;
        vf_assert( kitty::get_bit( res, m ) == kitty::get_bit( r[n].f, pp ), "table-evaluation" );
      }
    }
    if ( ci )
    {
      vf_assert( k.ci_index( n ) == piidx[n] && k.ci_at( piidx[n] ) == n, "ci-position" );
      if ( piidx[n] < npi ) vf_assert( k.pi_index( n ) == piidx[n] && k.pi_at( piidx[n] ) == n, "pi-position" );
      else
      {
        vf_assert( k.ro_index( n ) == piidx[n] - npi && k.ro_at( piidx[n] - npi ) == n, "ro-position" );
        vf_assert( k.ro_to_ri( n ) == outs[npo + piidx[n] - npi], "register-pairing" );
      }
    }
  }
  for ( size_t i = 0; i < outs.size(); ++i )
  {
    vf_assert( k.co_at( i ) == outs[i], "co-at" );
    if ( i < npo ) vf_assert( k.po_at( i ) == outs[i] && k.po_index( outs[i] ) == (uint32_t)( std::find( pos.begin(), pos.end(), outs[i] ) - pos.begin() ), "po-position" );
    else vf_assert( k.ri_at( i - npo ) == outs[i] && k.ri_index( outs[i] ) == (uint32_t)( std::find( ris.begin(), ris.end(), outs[i] ) - ris.begin() ) && k.latch_reset( i - npo ) == resets[i - npo], "ri-position" );
  }
  unsigned c = 0;
  k.foreach_register( [&]( std::pair<uint64_t, uint64_t> p ) { vf_assert( p.first == ris[c] && p.second == ros[c], "register-pairs" ); ++c; } );
  vf_assert( c == nro, "all-registers-visited" );
  /* substitutions of a gate by a node that does not depend on it, one after the other */
  for ( unsigned t = 0, times = gates.size() ? 1 + nat::rnd( 4 ) : 0; t < times; ++t )
  {
    uint64_t g = gates[nat::rnd( gates.size() )], s = nat::rnd( 2 ) ? nat::rnd( g ) : nat::rnd( r.size() );
    std::vector<char> dep( r.size(), 0 );
    dep[g] = 1;
    for ( size_t round = 0; round < r.size(); ++round )
      for ( size_t n = 2; n < r.size(); ++n ) for ( auto f : r[n].fi ) dep[n] |= dep[f];
    if ( dep[s] ) continue;
    uint64_t moved = 0, before = k.fanout_size( s );
    for ( auto& n : r ) for ( auto& f : n.fi ) if ( f == g ) { f = s; ++moved; }
    for ( auto& o : outs ) if ( o == g ) { o = s; ++moved; }
    k.substitute_node( g, s );
    for ( uint64_t n = 2; n < r.size(); ++n )
      if ( r[n].gate ) { k.foreach_fanin( n, [&]( auto f ) { v.push_back( f ); } ); is( r[n].fi, "substituted-fanins" ); vf_assert( k.node_function( n ) == r[n].f, "substitution-keeps-functions" ); }
    k.foreach_co( [&]( auto n ) { v.push_back( n ); } ); is( outs, "substituted-outputs" );
    vf_assert( k.fanout_size( g ) == 0 && k.fanout_size( s ) == before + moved, "substituted-fanout-counts" );
  }
  vf_cover( "end" );
#endif
}
/* C10: a bool range */
struct bits
{
  using value_type = bool;
  bool const* p;
  bool operator!=( bits const& o ) const { return p != o.p; }
  bool operator==( bits const& o ) const { return p == o.p; }
  bits& operator++() { ++p; return *this; }
  bits operator++( int ) { return { p++ }; }
  bool const& operator*() const { return *p; }
};
/* C10: the named operations create a LUT whose table is the named function of its fanins (real constructor, real cache) */
VF_PROOF( klut_named )
{
  vf_option( "merge", 0 );
  vf_option( "max_unroll", 20000 );
  klut_network k;
  uint64_t a = k.create_pi(), b = k.create_pi(), c = k.create_pi();
  bool v[3] = { vf_bool( "x" ), vf_bool( "y" ), vf_bool( "z" ) };
  bool x = v[0], y = v[1], z = v[2];
  vf_assert( k.get_constant( false ) == 0 && k.get_constant( true ) == 1 && k.is_constant( 0 ) && k.is_constant( 1 ) && !k.constant_value( 0 ) && k.constant_value( 1 ), "constants" );
  vf_assert( !kitty::get_bit( k.node_function( 0 ), 0 ) && kitty::get_bit( k.node_function( 1 ), 0 ), "constant-functions" );
  auto f = k.create_not( a );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 1 } ) == !x, "not" );
  f = k.create_and( a, b );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 2 } ) == ( x && y ), "and" );
  f = k.create_or( a, b );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 2 } ) == ( x || y ), "or" );
  f = k.create_lt( a, b );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 2 } ) == ( !x && y ), "lt" );
  f = k.create_le( a, b );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 2 } ) == ( !x || y ), "le" );
  f = k.create_xor( a, b );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 2 } ) == ( x != y ), "xor" );
  f = k.create_maj( a, b, c );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 3 } ) == ( ( x && y ) || ( x && z ) || ( y && z ) ), "maj" );
  f = k.create_ite( a, b, c );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 3 } ) == ( x ? y : z ), "ite" );
  f = k.create_xor3( a, b, c );
  vf_assert( k.compute( f, bits{ v }, bits{ v + 3 } ) == ( x ^ y ^ z ), "xor3" );
  vf_cover( "end" );
}
/* C10/C07: an arbitrary function of W fanins is what the created node computes; an equal or complementary function created before or after does not disturb it */
#ifdef VF_SYMBOLIC
namespace gtt { static DT* tt[2]; static uint32_t n, base, other; }
static uint32_t cins_stub( truth_table_cache<DT>*, DT t )
{
  vf_assert( gtt::n < 2, "one-insertion-per-node" );
  gtt::tt[gtt::n] = new DT( t );
  return gtt::n++ == 0 ? gtt::base : gtt::other;
}
static DT cat_stub( truth_table_cache<DT> const*, uint32_t l )
{
  if ( l == gtt::base ) return *gtt::tt[0];
  vf_assert( l == gtt::other && gtt::n == 2, "literal-handed-out-by-the-cache" );
  return *gtt::tt[1];
}
#endif
template<unsigned W>
static void node_fn( bool cache_by_contract )
{
  vf_option( "max_unroll", 20000 );
  klut_network k;
  std::vector<uint64_t> in;
  bool v[6];
  for ( unsigned i = 0; i < W; ++i ) { in.push_back( k.create_pi() ); v[i] = vf_bool( "v" ); }
  DT t( W ), u( W );
  t._bits[0] = vf_u64( "t" ) & ( ~0ull >> ( 64 - ( 1u << W ) ) );
  u._bits[0] = vf_u64( "u" ) & ( ~0ull >> ( 64 - ( 1u << W ) ) );
  uint64_t m = 0;
  for ( unsigned i = 0; i < W; ++i ) m |= (uint64_t)v[i] << i;
#ifdef VF_SYMBOLIC
  if ( cache_by_contract )
  {
    /* the cache by its contract (cache_insert): the literal returned denotes the inserted function */
    gtt::n = 0;
    gtt::base = (uint32_t)vf_range( "first_literal", 20, 1u << 30 );
    gtt::other = (uint32_t)vf_range( "second_literal", 20, 1u << 30 );
    vf_assume( gtt::base != gtt::other || t._bits[0] == u._bits[0] );
    vf_contract( "truth_table_cache<kitty::dynamic_truth_table>::insert(", cins_stub );
    vf_contract( "truth_table_cache<kitty::dynamic_truth_table>::operator[](", cat_stub );
  }
#endif
  uint64_t f = k.create_node( in, t );
  uint64_t g = k.create_node( in, u );
  vf_assert( f != g && f >= 2 + W && g >= 2 + W, "fresh-nodes" );
  vf_assert( k.compute( f, bits{ v }, bits{ v + W } ) == ( ( t._bits[0] >> m ) & 1 ), "first-node-computes-its-function" );
  vf_assert( k.compute( g, bits{ v }, bits{ v + W } ) == ( ( u._bits[0] >> m ) & 1 ), "second-node-computes-its-function" );
  DT r = k.node_function( f );
  vf_assert( r.num_vars() == W && r._bits[0] == t._bits[0], "stored-function" );
  vf_cover( "end" );
}
VF_PROOF( node_fn_1 ) { node_fn<1>( true ); }
VF_PROOF( node_fn_2 ) { node_fn<2>( true ); }
VF_PROOF( node_fn_3 ) { node_fn<3>( true ); }
VF_PROOF( node_fn_4 ) { node_fn<4>( true ); }
VF_PROOF( node_fn_5 ) { node_fn<5>( true ); }
VF_PROOF( node_fn_6 ) { node_fn<6>( true ); }
VF_PROOF( node_fn_real_2 ) { node_fn<2>( false ); }
#ifdef VF_SYMBOLIC
/* C07: the cache with any number of entries; std::unordered_map by contract (an abstract finite map) */
typedef kitty::static_truth_table<6> ST;
typedef truth_table_cache<ST> SC;
typedef std::unordered_map<ST, uint32_t, kitty::hash<ST>> SM;
namespace g {
static uint64_t* found; static uint64_t* idx; static uint64_t n; static ST* data; static bool wrote; static uint64_t wkey; static uint32_t slot;
}
static SM::iterator find_stub( SM*, ST const& k )
{
  if ( g::found[k._bits] != 0 )
  {
    typedef std::__detail::_Hash_node<std::pair<const ST, uint32_t>, false> HN;
    vf_assume( g::idx[k._bits] < g::n && g::data[g::idx[k._bits]]._bits == k._bits );
    SM::iterator it;
    it._M_cur = (decltype( it._M_cur ))__vf_alloc( sizeof( *it._M_cur ) );
    auto* p = (std::pair<ST, uint32_t>*)it._M_cur->_M_valptr();
    p->first = k;
    p->second = (uint32_t)g::idx[k._bits];
    return it;
  }
  SM::iterator it;
  it._M_cur = nullptr;
  return it;
}
static uint32_t& at_stub( SM*, ST const& k )
{
  vf_assert( !g::wrote && g::found[k._bits] == 0, "map-entry-written-once-for-a-new-key" );
  g::wrote = true;
  g::wkey = k._bits;
  return g::slot;
}
VF_PROOF( cache_insert )
{
  SC* c = (SC*)__vf_alloc( sizeof( SC ) );
  g::n = vf_range( "entries", 0, 1ull << 30 );
  g::data = (ST*)__vf_symarray( "data", 8, ~0ull );
  c->_data._M_impl._M_start = g::data;
  c->_data._M_impl._M_finish = g::data + g::n;
  c->_data._M_impl._M_end_of_storage = (ST*)__vf_inf( g::data );
  g::found = (uint64_t*)__vf_symarray( "found", 8, ~0ull );
  g::idx = (uint64_t*)__vf_symarray( "idx", 8, ~0ull );
  g::wrote = false;
  g::slot = 0;
  ST* data = g::data;
  uint64_t* found = g::found; uint64_t* idx = g::idx;
  uint64_t n = g::n;
  /* every entry is normal and the map sends it to its index */
  vf_assume_forall( 0, n, [=]( uint64_t j ) { return ( data[j]._bits & 1 ) == 0 && found[data[j]._bits] != 0 && idx[data[j]._bits] == j; } );
  vf_contract( "::find(kitty::static_truth_table<6", find_stub );
  vf_contract( "::operator[](kitty::static_truth_table<6", at_stub );
  ST t;
  t._bits = vf_u64( "t" );
  uint64_t j = vf_range( "j", 0, n + 1 );
  uint64_t o = j < n ? data[j]._bits : 0;
  uint32_t l = c->insert( t );
  uint64_t m = c->_data.size();
  vf_assert( m == n || m == n + 1, "at-most-one-new-entry" );
  vf_assert( ( l >> 1 ) < m, "literal-in-range" );
  ST r = ( *c )[l], rc = ( *c )[l ^ 1];
  vf_assert( r._bits == t._bits && rc._bits == ~t._bits, "literal-denotes-the-inserted-function" );
  vf_assert( j >= n || data[j]._bits == o, "earlier-entries-unchanged" );
  if ( j < m )
  {
    vf_assert( ( data[j]._bits & 1 ) == 0, "entries-are-normal" );
    bool inmap = ( g::wrote && g::wkey == data[j]._bits ) ? g::slot == j : ( found[data[j]._bits] != 0 && idx[data[j]._bits] == j );
    vf_assert( inmap, "map-and-entries-agree" );
  }
  vf_cover( "end" );
  if ( m == n ) vf_cover( "hit" ); else vf_cover( "miss" );
}
#endif
