// Native (bounded) helpers: random networks built through the public API, independent reference evaluation.
#pragma once
#ifndef VF_SYMBOLIC
#include "vf.h"
#include <algorithm>
#include <set>
#include <sstream>
#include <unordered_map>
#include <vector>
namespace nat {
inline uint64_t rnd() { return vfrt::rng()(); }
inline uint64_t rnd( uint64_t n ) { return n ? rnd() % n : 0; }

struct shape { uint32_t pis = 0, gates = 0, pos = 0; uint32_t style = 0; };
inline shape pick_shape( uint32_t maxpis = 8, uint32_t maxgates = 60, uint32_t maxpos = 8 )
{
  shape s;
  s.pis = 1 + rnd( maxpis );
  uint64_t k = rnd( 4 );
  s.gates = k == 0 ? rnd( 6 ) : k == 1 ? rnd( 20 ) : rnd( maxgates + 1 );
  s.pos = 1 + rnd( maxpos );
  s.style = rnd( 6 );
  return s;
}

/* random AIG. style 0: uniform, 1: recent-biased (deep), 2: and-trees, 3: reconvergent, with xor/mux macros, 4: many fanouts, 5: wide sums of products */
template<class Aig>
void random_aig( Aig& a, shape s, bool dangling = true )
{
  using sig = typename Aig::signal;
  std::vector<sig> v;
  std::vector<sig> ins;
  for ( uint32_t i = 0; i < s.pis; ++i ) { ins.push_back( a.create_pi() ); v.push_back( ins.back() ); }
  auto pick = [&]() -> sig {
    size_t n = v.size();
    size_t i;
    switch ( s.style )
    {
    case 1: i = n - 1 - rnd( std::min<size_t>( n, 4 ) ); break;
    case 4: i = rnd( std::min<size_t>( n, s.pis + 4 ) ); break;
    default: i = rnd( 3 ) ? n - 1 - rnd( std::min<size_t>( n, 8 ) ) : rnd( n );
    }
    sig x = v[i];
    return rnd( 2 ) ? !x : x;
  };
  uint64_t guard = 0;
  while ( a.num_gates() < s.gates && guard++ < 4 * s.gates + 8 )
  {
    sig r;
    uint64_t k = rnd( 10 );
    if ( s.style == 5 )
    {
      sig acc = a.get_constant( false );
      uint32_t m = 1 + rnd( 4 );
      for ( uint32_t j = 0; j < m; ++j )
      {
        sig c = a.get_constant( true );
        uint32_t w = 1 + rnd( 4 );
        for ( uint32_t q = 0; q < w; ++q ) c = a.create_and( c, pick() );
        acc = a.create_or( acc, c );
      }
      r = acc;
    }
    else if ( s.style == 2 )
    {
      uint32_t w = 2 + rnd( 6 );
      sig c = pick();
      for ( uint32_t q = 0; q < w; ++q ) c = a.create_and( c, pick() );
      r = c;
    }
    else if ( k < 6 || s.style == 1 ) r = a.create_and( pick(), pick() );
    else if ( k == 6 ) r = a.create_xor( pick(), pick() );
    else if ( k == 7 ) r = a.create_ite( pick(), pick(), pick() );
    else if ( k == 8 ) r = a.create_maj( pick(), pick(), pick() );
    else r = a.create_or( pick(), pick() );
    v.push_back( r );
  }
  for ( uint32_t i = 0; i < s.pos; ++i )
  {
    uint64_t k = rnd( 24 );
    sig o = k == 0 ? a.get_constant( rnd( 2 ) ) : k == 1 ? ins[rnd( ins.size() )] : k == 2 ? !ins[rnd( ins.size() )] : rnd( 3 ) ? v[v.size() - 1 - rnd( std::min<size_t>( v.size(), 10 ) )] : pick();
    a.create_po( rnd( 2 ) ? !o : o );
  }
  if ( !dangling )
  {
    /* every fanout-free gate becomes an output */
    std::vector<sig> extra;
    a.foreach_gate( [&]( auto n ) { if ( a.fanout_size( n ) == 0 ) extra.push_back( a.make_signal( n ) ); } );
    for ( auto e : extra ) a.create_po( e );
  }
}

/* independent evaluation by structural recursion over the stored fanins (64 patterns per word) */
template<class Aig>
struct evaluator
{
  Aig const& a;
  std::unordered_map<uint64_t, uint64_t> val;
  std::set<uint64_t> active;
  bool cyclic = false;
  explicit evaluator( Aig const& x ) : a( x ) {}
  uint64_t node( uint64_t n )
  {
    auto it = val.find( n );
    if ( it != val.end() ) return it->second;
    if ( !active.insert( n ).second ) { cyclic = true; return 0; }
    auto const& nd = a._storage->nodes.at( n );
    uint64_t x = node( nd.children[0].index ), y = node( nd.children[1].index );
    if ( nd.children[0].weight ) x = ~x;
    if ( nd.children[1].weight ) y = ~y;
    active.erase( n );
    return val[n] = x & y;
  }
};
/* words of primary input i for pattern block b when all 2^pis patterns are enumerated */
inline uint64_t pi_word( uint32_t i, uint64_t block )
{
  static const uint64_t m[6] = { 0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull };
  if ( i < 6 ) return m[i];
  return ( ( block >> ( i - 6 ) ) & 1 ) ? ~0ull : 0ull;
}
inline uint64_t blocks( uint32_t pis ) { return pis <= 6 ? 1 : ( 1ull << ( pis - 6 ) ); }

/* all output functions, complete over all input patterns (pis <= 14) */
template<class Aig>
std::vector<std::vector<uint64_t>> functions( Aig const& a )
{
  std::vector<std::vector<uint64_t>> r( a._storage->outputs.size() );
  uint64_t nb = blocks( a._storage->inputs.size() );
  for ( uint64_t b = 0; b < nb; ++b )
  {
    evaluator<Aig> e( a );
    e.val[0] = 0;
    for ( uint32_t i = 0; i < a._storage->inputs.size(); ++i ) e.val[a._storage->inputs[i]] = pi_word( i, b );
    uint32_t k = 0;
    for ( auto const& o : a._storage->outputs )
    {
      uint64_t v = e.node( o.index );
      if ( o.weight ) v = ~v;
      r[k++].push_back( v );
      if ( e.cyclic ) { r[k - 1].push_back( 0xdeadull + k ); return r; }
    }
  }
  return r;
}
/* k-LUT network: reference evaluation from the stored fanins and the LUT tables (LSB-first index) */
template<class Klut>
std::vector<std::vector<uint64_t>> klut_functions( Klut const& a )
{
  std::vector<std::vector<uint64_t>> r( a._storage->outputs.size() );
  uint64_t nb = blocks( a._storage->inputs.size() );
  for ( uint64_t b = 0; b < nb; ++b )
  {
    std::unordered_map<uint64_t, uint64_t> val;
    std::set<uint64_t> active;
    bool bad = false;
    val[0] = 0;
    val[1] = ~0ull;
    for ( uint32_t i = 0; i < a._storage->inputs.size(); ++i ) val[a._storage->inputs[i]] = pi_word( i, b );
    std::function<uint64_t( uint64_t )> ev = [&]( uint64_t n ) -> uint64_t {
      auto it = val.find( n );
      if ( it != val.end() ) return it->second;
      if ( !active.insert( n ).second ) { bad = true; return 0; }
      auto const& nd = a._storage->nodes.at( n );
      std::vector<uint64_t> in;
      for ( auto const& c : nd.children ) in.push_back( ev( c.index ) );
      auto tt = a.node_function( n );
      uint64_t out = 0;
      if ( in.size() > (size_t)tt.num_vars() ) { bad = true; return 0; }
      for ( int p = 0; p < 64; ++p )
      {
        uint64_t m = 0;
        for ( size_t i = 0; i < in.size(); ++i ) m |= ( ( in[i] >> p ) & 1 ) << i;
        out |= ( ( tt._bits[m >> 6] >> ( m & 63 ) ) & 1 ) << p;
      }
      active.erase( n );
      return val[n] = out;
    };
    uint32_t k = 0;
    for ( auto const& o : a._storage->outputs ) { r[k++].push_back( ev( o.index ) ); if ( bad ) { r[k - 1].push_back( 0xbad ); return r; } }
  }
  return r;
}
/* representation invariant of an AIG; returns "" or the violated clause */
template<class Aig>
std::string invariant( Aig const& a, bool topological, bool counts, bool strash )
{
  auto const& s = *a._storage;
  uint64_t n = s.nodes.size();
  std::vector<uint64_t> refs( n, 0 );
  std::vector<char> ci( n, 0 );
  ci[0] = 1;
  for ( auto i : s.inputs ) { if ( i >= n || ci[i] ) return "input-list"; ci[i] = 1; }
  std::set<std::pair<uint64_t, uint64_t>> keys;
  for ( uint64_t i = 0; i < n; ++i )
  {
    if ( ci[i] ) { if ( a.is_and( i ) ) return "ci-is-gate"; continue; }
    if ( a.is_dead( i ) ) continue;
    auto const& nd = s.nodes[i];
    if ( nd.children[0].index >= n || nd.children[1].index >= n ) return "fanin-range";
    if ( topological && ( nd.children[0].index >= i || nd.children[1].index >= i ) ) return "fanin-order";
    if ( strash )
    {
      if ( nd.children[0].index == nd.children[1].index ) return "trivial-gate";
      if ( nd.children[0].index == 0 || nd.children[1].index == 0 ) return "constant-fanin";
      if ( nd.children[0].data > nd.children[1].data && nd.children[0].index > nd.children[1].index ) return "fanin-sorted";
      if ( !keys.insert( { nd.children[0].data, nd.children[1].data } ).second ) return "duplicate-gate";
    }
    for ( int k = 0; k < 2; ++k )
    {
      if ( a.is_dead( nd.children[k].index ) ) return "live-gate-with-dead-fanin";
      ++refs[nd.children[k].index];
    }
  }
  for ( auto const& o : s.outputs )
  {
    if ( o.index >= n ) return "output-range";
    if ( a.is_dead( o.index ) ) return "dead-output";
    ++refs[o.index];
  }
  if ( counts )
    for ( uint64_t i = 0; i < n; ++i )
      if ( !a.is_dead( i ) && a.fanout_size( i ) != refs[i] ) return "fanout-count";
  return "";
}
} // namespace nat
#endif
