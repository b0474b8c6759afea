// C05/C06: cuts, cut sets and cut enumeration.
#include "vf.h"
#include <cassert>
#include <memory>
#include <string>
#include <iomanip>
#include <algorithm>
#include "native_aig.hpp"
#include "kitty/kitty.hpp"
#include "database/network/aig_network.hpp"
#include "database/cut/cut.hpp"
#include "database/cut/cut_set.hpp"
#include "database/cut/cut_enumeration.hpp"
#include "database/cut/general_cut_enumeration.hpp"
#include "database/cut/rewrite_cut_enumeration.hpp"
using namespace iFPGA;
typedef cut_type<false, empty_cut_data> C;
typedef cut_type<true, general_cut_data> CT;

/* the set of leaves as a predicate over an arbitrary element */
static inline bool has( uint32_t const* p, unsigned n, uint32_t x )
{
  bool r = false;
  for ( unsigned i = 0; i < n; ++i ) r |= p[i] == x;
  return r;
}
static inline void sorted_leaves( uint32_t* p, unsigned n, const char* nm )
{
  for ( unsigned i = 0; i < n; ++i )
  {
    p[i] = vf_u32( nm );
  }
#ifndef VF_SYMBOLIC
  if ( !vfrt::scripted() )
  {
    /* few distinct values (shared leaves), colliding signature bits */
    std::set<uint32_t> l;
    uint64_t uni = nat::rnd( 3 ) ? 7 : 100, far = nat::rnd( 2 ) ? 1000 : 5;
    while ( l.size() < n ) l.insert( nat::rnd( uni ) + ( nat::rnd( far ) ? 0 : 64 ) );
    std::copy( l.begin(), l.end(), p );
  }
#endif
  for ( unsigned i = 1; i < n; ++i ) vf_assume( p[i - 1] < p[i] );
}
/* leaves, size and signature of a cut are those that were set; a copy is the same cut and does not alias the original */
template<unsigned N>
static void cut_set_leaves()
{
  uint32_t l[N ? N : 1];
  sorted_leaves( l, N, "l" );
  C c;
  c.set_leaves( l, l + N );
  uint64_t sig = 0;
  for ( unsigned i = 0; i < N; ++i ) sig |= 1ull << ( l[i] & 63 );
  vf_assert( c.size() == N && c.end() - c.begin() == N && c.signature() == sig, "size-and-signature" );
  for ( unsigned i = 0; i < N; ++i ) vf_assert( c.begin()[i] == l[i], "leaves" );
  C d( c ), e;
  e = c;
  vf_assert( d.size() == N && d.end() - d.begin() == N && d.signature() == sig && e.size() == N && e.end() - e.begin() == N && e.signature() == sig, "copy-size" );
  uint32_t z = vf_u32( "z" );
  uint32_t zz[1] = { z };
  c.set_leaves( zz, zz + 1 );
  for ( unsigned i = 0; i < N; ++i ) vf_assert( d.begin()[i] == l[i] && e.begin()[i] == l[i], "copy-is-independent" );
  C const& cd = d;
  vf_assert( cd.end() - cd.begin() == N, "const-range" );
  vf_cover( "end" );
}
VF_PROOF( leaves_0 ) { cut_set_leaves<0>(); }
VF_PROOF( leaves_1 ) { cut_set_leaves<1>(); }
VF_PROOF( leaves_4 ) { cut_set_leaves<4>(); }
VF_PROOF( leaves_7 ) { cut_set_leaves<7>(); }

static inline uint32_t pc( uint64_t x ) { return uint32_t( __builtin_popcount( (uint32_t)x ) ) + uint32_t( __builtin_popcount( (uint32_t)( x >> 32 ) ) ); }
/* lemma: the sum of two signatures has at most as many ones as their union (induction over the bit position, ripple carry as ghost state) */
VF_PROOF( signature_sum_lemma )
{
  vf_option( "merge", 0 );
  uint64_t a = vf_u64( "a" ), b = vf_u64( "b" );
  uint64_t s = a + b, u = a | b, g = 0;
  uint8_t ps = 0, pu = 0, c = 0;
  for ( unsigned i = 0; i < 64; ++i )
  {
    uint8_t x = ( a >> i ) & 1, y = ( b >> i ) & 1;
    g |= (uint64_t)( x ^ y ^ c ) << i;
    ps += x ^ y ^ c;
    pu += x | y;
    c = ( x & y ) | ( x & c ) | ( y & c );
    vf_assert( uint8_t( ps + c ) <= pu && pu <= i + 1, "invariant-at-bit" );
  }
  vf_assert( g == s, "ripple-sum-is-the-sum" );
  vf_assert( ps <= pu, "sum-has-no-more-ones" );
  vf_cover( "end" );
}
/* lemma: counting ones by the builtin is counting bits; adding one leaf adds at most one */
VF_PROOF( popcount_lemma )
{
  vf_option( "merge", 0 );
  uint32_t a = vf_u32( "a" );
  uint32_t n = 0;
  for ( unsigned i = 0; i < 32; ++i ) n += ( a >> i ) & 1;
  vf_assert( (uint32_t)__builtin_popcount( a ) == n, "builtin-counts-bits" );
  uint32_t k = vf_range( "bit", 0, 32 ), m = 0;
  for ( unsigned i = 0; i < 32; ++i ) m += ( ( a | ( 1u << k ) ) >> i ) & 1;
  vf_assert( m == n + 1 - ( ( a >> k ) & 1 ), "one-more-bit" );
  vf_cover( "end" );
}
/* representation invariant used by merge: the sum of the signatures of two cuts has at most as many ones as their union has leaves */
template<unsigned N, unsigned M>
static void sig_bound()
{
  vf_option( "merge", 0 );
  vf_option( "ctpop_uf", 1 ); /* popcount is abstract here; the lemmas above are instantiated */
  uint32_t a[N], b[M];
  sorted_leaves( a, N, "a" );
  sorted_leaves( b, M, "b" );
  C ca, cb;
  ca.set_leaves( a, a + N );
  cb.set_leaves( b, b + M );
#ifdef VF_SYMBOLIC
  vf_assume( pc( ca.signature() + cb.signature() ) <= pc( ca.signature() | cb.signature() ) );
  vf_assume( pc( 0 ) == 0 );
#endif
  uint64_t u = 0;
  uint32_t cnt = 0;
  for ( unsigned i = 0; i < N + M; ++i )
  {
    uint32_t e = i < N ? a[i] : b[i - N];
    uint64_t w = u | ( 1ull << ( e & 63 ) );
    cnt += i < N ? 1u : 1u - (uint32_t)has( a, N, e );
#ifdef VF_SYMBOLIC
    vf_assume( pc( w ) == pc( u ) + 1 - (uint32_t)( ( u >> ( e & 63 ) ) & 1 ) );
#endif
    vf_assert( pc( w ) <= cnt, "signature-bits-bounded-by-leaves" );
    u = w;
  }
  vf_assert( u == ( ca.signature() | cb.signature() ), "signature-is-the-union" );
  vf_assert( pc( ca.signature() + cb.signature() ) <= cnt, "sum-of-signatures-bounded-by-the-union" );
  vf_cover( "end" );
}
VF_PROOF( sig_bound_3_3 ) { sig_bound<3, 3>(); }
VF_PROOF( sig_bound_4_4 ) { sig_bound<4, 4>(); }
VF_PROOF( sig_bound_6_6 ) { sig_bound<6, 6>(); }
/* merge: succeeds exactly when the union is small enough, and then gives exactly the sorted union */
template<unsigned N, unsigned M>
static void cut_merge()
{
  vf_option( "merge", 0 );
  vf_option( "ctpop_uf", 1 );
  uint32_t a[N], b[M];
  sorted_leaves( a, N, "a" );
  sorted_leaves( b, M, "b" );
  C ca, cb, r;
  ca.set_leaves( a, a + N );
  cb.set_leaves( b, b + M );
  uint32_t k = vf_range( "k", 1, 8 );
  uint32_t common = 0;
  for ( unsigned i = 0; i < N; ++i ) common += (uint32_t)has( b, M, a[i] );
  uint32_t x = vf_u32( "x" );
#ifdef VF_SYMBOLIC
  /* the signatures are abstracted to the invariant proved by sig_bound */
  ca._signature = vf_u64( "sa" );
  cb._signature = vf_u64( "sb" );
  vf_assume( pc( ca._signature + cb._signature ) <= N + M - common );
#else
  if ( !vfrt::scripted() && nat::rnd( 2 ) ) x = nat::rnd( 2 ) ? a[nat::rnd( N )] : b[nat::rnd( M )];
#endif
  bool ok = ca.merge( cb, r, k );
  vf_assert( ok == ( N + M - common <= k ), "succeeds-exactly-when-the-union-fits" );
  if ( ok )
  {
    bool good = ( r.size() == N + M - common ) & ( (uint32_t)( r.end() - r.begin() ) == r.size() ) & ( r.signature() == ( ca.signature() | cb.signature() ) );
    bool in = false;
    for ( unsigned i = 0; i < N + M && i < 7; ++i ) if ( i < r.size() )
    {
      in |= r.begin()[i] == x;
      if ( i ) good &= r.begin()[i - 1] < r.begin()[i];
    }
    vf_assert( good, "size-signature-and-order-of-the-union" );
    vf_assert( in == ( has( a, N, x ) | has( b, M, x ) ), "leaves-are-the-union" );
    vf_cover( "merged" );
  }
  vf_cover( "end" );
}
VF_PROOF( merge_1_1 ) { cut_merge<1, 1>(); }
VF_PROOF( merge_1_3 ) { cut_merge<1, 3>(); }
VF_PROOF( merge_2_2 ) { cut_merge<2, 2>(); }
VF_PROOF( merge_3_3 ) { cut_merge<3, 3>(); }
VF_PROOF( merge_2_4 ) { cut_merge<2, 4>(); }
VF_PROOF( merge_4_4 ) { cut_merge<4, 4>(); }
VF_PROOF( merge_6_6 ) { cut_merge<6, 6>(); }

/* dominates: exactly the subset relation */
template<unsigned N, unsigned M>
static void cut_dom()
{
  uint32_t a[N ? N : 1], b[M ? M : 1];
  sorted_leaves( a, N, "a" );
  sorted_leaves( b, M, "b" );
#ifndef VF_SYMBOLIC
  if ( !vfrt::scripted() && N <= M && nat::rnd( 2 ) )
  {
    std::vector<uint32_t> s( b, b + M );
    std::shuffle( s.begin(), s.end(), vfrt::rng() );
    std::copy( s.begin(), s.begin() + N, a );
    std::sort( a, a + N );
  }
#endif
  C ca, cb;
  ca.set_leaves( a, a + N );
  cb.set_leaves( b, b + M );
  bool sub = true;
  for ( unsigned i = 0; i < N; ++i ) sub = sub && has( b, M, a[i] );
  vf_assert( ca.dominates( cb ) == sub, "dominates-is-the-subset-relation" );
  vf_cover( "end" );
  if ( sub ) vf_cover( "subset" );
}
VF_PROOF( dom_0_2 ) { cut_dom<0, 2>(); }
VF_PROOF( dom_1_1 ) { cut_dom<1, 1>(); }
VF_PROOF( dom_1_3 ) { cut_dom<1, 3>(); }
VF_PROOF( dom_2_4 ) { cut_dom<2, 4>(); }
VF_PROOF( dom_3_3 ) { cut_dom<3, 3>(); }
VF_PROOF( dom_3_5 ) { cut_dom<3, 5>(); }
VF_PROOF( dom_4_6 ) { cut_dom<4, 6>(); }
VF_PROOF( dom_6_7 ) { cut_dom<6, 7>(); }
/* positions of the leaves of a subset inside the superset */
template<unsigned N, unsigned M>
static void support_pos()
{
  vf_option( "merge", 0 );
  typedef network_cuts<aig_network, true, empty_cut_data> NC;
  uint32_t b[M], a[N];
  sorted_leaves( b, M, "b" );
  uint32_t pos[N];
  for ( unsigned i = 0; i < N; ++i )
  {
    pos[i] = (uint32_t)vf_range( "pos", 0, M );
#ifndef VF_SYMBOLIC
    if ( !vfrt::scripted() ) pos[i] = i + ( i ? std::max( 0, (int)pos[i - 1] - (int)i + 1 ) : 0 ) , pos[i] = std::min<uint32_t>( pos[i] + nat::rnd( 2 ), M - N + i );
#endif
    if ( i ) vf_assume( pos[i - 1] < pos[i] );
    uint32_t v = b[0];
    for ( unsigned q = 1; q < M; ++q ) v = pos[i] == q ? b[q] : v;
    a[i] = v;
  }
  NC::cut_t sub, sup;
  sub.set_leaves( a, a + N );
  sup.set_leaves( b, b + M );
#ifdef VF_SYMBOLIC
  NC* nc = (NC*)__vf_alloc( sizeof( NC ) );
  auto s = nc->compute_truth_table_support( sub, sup );
#else
  static NC nc( 1 );
  auto s = nc.compute_truth_table_support( sub, sup );
#endif
  vf_assert( s.size() == N, "one-position-per-leaf" );
  bool ok = true;
  for ( unsigned i = 0; i < N; ++i ) ok &= s[i] == pos[i];
  vf_assert( ok, "positions-of-the-leaves" );
  vf_cover( "end" );
}
VF_PROOF( support_2_3 ) { support_pos<2, 3>(); }
VF_PROOF( support_3_5 ) { support_pos<3, 5>(); }
VF_PROOF( support_6_6 ) { support_pos<6, 6>(); }

#ifndef VF_SYMBOLIC
typedef std::vector<uint32_t> LV;
template<class X> static LV lv( X const& c ) { return LV( c.begin(), c.end() ); }
static bool subset( LV const& a, LV const& b ) { return std::includes( b.begin(), b.end(), a.begin(), a.end() ); }
template<int MC, class CC>
static void set_history()
{
  cut_set<CC, MC> s;
  std::vector<LV> m;
  auto same = [&]( const char* w ) {
    std::vector<LV> v;
    for ( auto const* c : s ) v.push_back( lv( *c ) );
    vf_assert( v.size() == (size_t)s.size(), "size-agrees-with-range" );
    for ( size_t i = 0; i < v.size(); ++i ) vf_assert( lv( s[i] ) == v[i], "index-access" );
    vf_assert( v == m, w );
  };
  unsigned uni = 3 + nat::rnd( 70 );
  unsigned steps = 1 + nat::rnd( 60 );
  bool sorted = true;
  for ( unsigned st = 0; st < steps; ++st )
  {
    unsigned op = nat::rnd( 12 );
    if ( op < 8 )
    {
      std::set<uint32_t> l;
      unsigned w = 1 + nat::rnd( 6 );
      if ( m.size() && nat::rnd( 3 ) == 0 ) { auto const& o = m[nat::rnd( m.size() )]; for ( auto x : o ) if ( nat::rnd( 4 ) ) l.insert( x ); }
      while ( l.size() < w ) { l.insert( nat::rnd( uni ) + ( nat::rnd( 5 ) ? 0 : 64 ) ); if ( nat::rnd( 9 ) == 0 && l.size() ) break; }
      while ( l.size() > 6 ) l.erase( l.begin() );
      LV v( l.begin(), l.end() );
      CC c;
      c.set_leaves( v );
      bool dom = false;
      for ( auto& o : m ) dom |= subset( o, v );
      vf_assert( s.is_dominated( c ) == dom, "is-dominated" );
      if ( dom || !sorted ) continue;
      std::vector<LV> before = m, keep;
      for ( auto& o : m ) if ( !subset( v, o ) ) keep.push_back( o );
      s.insert( c );
      m.clear();
      for ( auto const* q : s ) m.push_back( lv( *q ) );
      /* result: the kept cuts in their order, with the new one inserted in sorted position; the worst one is dropped when there is no room */
      vf_assert( std::is_sorted( m.begin(), m.end(), []( LV const& a, LV const& b ) { return a.size() < b.size(); } ), "sorted-by-cost" );
      std::multiset<LV> want( keep.begin(), keep.end() ), got( m.begin(), m.end() );
      want.insert( v );
      if ( want.size() <= (size_t)MC ) vf_assert( got == want, "insert-keeps-all-undominated-cuts" );
      else
      {
        vf_assert( got.size() == want.size() - 1, "one-cut-dropped-when-full" );
        LV gone;
        bool sub = true;
        for ( auto& o : want ) if ( got.count( o ) < want.count( o ) ) gone = o;
        for ( auto& o : got ) sub &= want.count( o ) >= got.count( o );
        size_t mx = 0;
        for ( auto& o : want ) mx = std::max( mx, o.size() );
        vf_assert( sub && gone.size() == mx, "the-dropped-cut-is-a-worst-one" );
      }
      if ( lv( s.best() ).size() ) vf_assert( lv( s.best() ) == m[0], "best-is-first" );
    }
    else if ( op == 8 && m.size() )
    {
      uint32_t k = 1 + nat::rnd( MC );
      auto old = m;
      s.limit( k );
      m.clear();
      for ( auto const* q : s ) m.push_back( lv( *q ) );
      vf_assert( m.size() <= k && ( old.size() > k || m.size() == old.size() ), "limit-bounds-the-set" );
      old.resize( m.size() );
      same( "limit" );
      vf_assert( old == m, "limit-keeps-the-best" );
    }
    else if ( op == 9 && m.size() ) { uint32_t i = nat::rnd( m.size() ); s.update_best( i ); LV b = m[i]; m.erase( m.begin() + i ); m.insert( m.begin(), b ); sorted = std::is_sorted( m.begin(), m.end(), []( LV const& a, LV const& b ) { return a.size() < b.size(); } ); }
    else if ( op == 10 && m.size() ) { uint32_t i = nat::rnd( m.size() ); s.remove( i ); m.erase( m.begin() + i ); }
    else if ( op == 11 && nat::rnd( 4 ) == 0 ) { s.clear(); m.clear(); sorted = true; }
    same( "cut-set-contents" );
  }
  vf_cover( "end" );
}
#endif
VF_NATIVE( cut_set_history )
{
#ifndef VF_SYMBOLIC
  switch ( nat::rnd( 3 ) )
  {
  case 0: set_history<4, C>(); break;
  case 1: set_history<9, cut_type<true, empty_cut_data>>(); break;
  case 2: set_history<21, C>(); break;
  }
#endif
}
#ifndef VF_SYMBOLIC
template<bool Truth>
static void enumeration()
{
  aig_network a;
  auto sh = nat::pick_shape( 6, nat::rnd( 3 ) ? 14 : 45, 4 );
  nat::random_aig( a, sh );
  cut_enumeration_params ps;
  ps.cut_size = 2 + nat::rnd( 5 );
  ps.cut_limit = nat::rnd( 2 ) ? 20 : 3 + nat::rnd( 18 );
  ps.minimize_truth_table = Truth && nat::rnd( 3 ) == 0;
  auto cuts = cut_enumeration<aig_network, Truth, empty_cut_data>( a, ps );
  unsigned np = a.num_pis(), nb = np <= 6 ? 1 : 1u << ( np - 6 );
  std::vector<std::vector<uint64_t>> val( nb );
  for ( unsigned b = 0; b < nb; ++b )
  {
    nat::evaluator<aig_network> ev( a );
    ev.val[0] = 0;
    unsigned i = 0;
    a.foreach_pi( [&]( auto n ) { ev.val[n] = nat::pi_word( i++, b ); } );
    val[b].resize( a.size() );
    for ( uint64_t n = 0; n < a.size(); ++n ) val[b][n] = ev.node( n );
  }
  uint64_t mask = np < 6 ? ( 1ull << ( 1u << np ) ) - 1 : ~0ull;
  std::vector<std::set<LV>> full( a.size() );
  bool complete = !ps.minimize_truth_table;
  for ( uint64_t n = 0; n < a.size(); ++n )
  {
    auto const& cs = cuts.cuts( n );
    vf_assert( cs.size() >= 1 && (uint32_t)cs.size() <= std::max( ps.cut_limit, 2u ), "number-of-cuts" );
    std::set<LV> got;
    bool unit = false;
    for ( auto const* c : cs )
    {
      LV l = lv( *c );
      vf_assert( l.size() == (size_t)c->size() && l.size() <= ps.cut_size, "cut-size" );
      for ( size_t i = 0; i < l.size(); ++i ) vf_assert( l[i] < a.size() && l[i] <= n && ( i == 0 || l[i - 1] < l[i] ), "leaves-sorted-in-range" );
      vf_assert( got.insert( l ).second, "no-duplicate-cut" );
      unit |= l == LV{ (uint32_t)n };
      if ( Truth )
      {
        if constexpr ( Truth )
        {
          auto tt = cuts.truth_table( *c );
          vf_assert( tt.num_vars() == l.size(), "table-has-one-variable-per-leaf" );
          for ( unsigned b = 0; b < nb; ++b )
            for ( unsigned m = 0; m < 64; ++m )
              if ( ( mask >> m ) & 1 )
              {
                uint64_t p = 0;
                for ( size_t i = 0; i < l.size(); ++i ) p |= ( ( val[b][l[i]] >> m ) & 1 ) << i;
                vf_assert( (uint64_t)kitty::get_bit( tt, p ) == ( ( val[b][n] >> m ) & 1 ), "table-is-the-function-of-the-node-in-its-leaves" );
              }
        }
      }
      if ( !ps.minimize_truth_table && n && !a.is_ci( n ) && l != LV{ (uint32_t)n } )
      {
        /* every path to the node passes a leaf */
        std::vector<uint64_t> st{ n };
        std::set<uint64_t> seen;
        while ( st.size() )
        {
          uint64_t x = st.back();
          st.pop_back();
          if ( !seen.insert( x ).second || std::binary_search( l.begin(), l.end(), (uint32_t)x ) ) continue;
          vf_assert( x == 0 || !a.is_ci( x ), "leaves-separate-the-node-from-the-inputs" );
          if ( x ) { st.push_back( a.get_child0( x ).index ); st.push_back( a.get_child1( x ).index ); }
        }
      }
    }
    for ( auto& x : got ) for ( auto& y : got ) if ( x != y && !( ps.minimize_truth_table && ( x.empty() || y.empty() || x == LV{ (uint32_t)n } || y == LV{ (uint32_t)n } ) ) ) vf_assert( !subset( x, y ), "no-cut-contains-another" );
    /* completeness while no limit was hit */
    if ( n == 0 ) full[n] = { LV{} };
    else if ( a.is_ci( n ) ) full[n] = { LV{ (uint32_t)n } };
    else
    {
      std::set<LV> f;
      for ( auto& x : full[a.get_child0( n ).index] )
        for ( auto& y : full[a.get_child1( n ).index] )
        {
          LV u;
          std::set_union( x.begin(), x.end(), y.begin(), y.end(), std::back_inserter( u ) );
          if ( u.size() <= ps.cut_size ) f.insert( u );
        }
      std::set<LV> g;
      for ( auto& x : f ) { bool d = false; for ( auto& y : f ) d |= x != y && subset( y, x ); if ( !d ) g.insert( x ); }
      if ( f.size() + 2 > ps.cut_limit || f.size() > 20 ) complete = false;
      bool cover = g.size() > 1 || g.begin()->size() > 1;
      if ( cover ) g.insert( LV{ (uint32_t)n } );
      full[n] = g;
    }
    if ( complete ) { vf_assert( got == full[n], "all-irredundant-cuts-are-found" ); vf_cover( "complete" ); }
    else if ( !ps.minimize_truth_table && n && !a.is_ci( n ) )
    {
      LV d{ (uint32_t)a.get_child0( n ).index, (uint32_t)a.get_child1( n ).index };
      std::sort( d.begin(), d.end() );
      vf_assert( unit, "trivial-cut-present" );
    }
  }
  vf_cover( "end" );
}
#endif
VF_NATIVE( cut_enum )
{
#ifndef VF_SYMBOLIC
  if ( nat::rnd( 3 ) ) enumeration<true>(); else enumeration<false>();
#endif
}
