// C12: sums of products, clause sets and circuits derived from a truth table denote exactly that function.
// vf-native: g++ openmp
#include <memory>
#include <cassert>
#include <string>
#include <algorithm>
#include "vf.h"
#include "kitty/kitty.hpp"
#include "kitty/static_truth_table.hpp"
#include "kitty/dynamic_truth_table.hpp"
#include "kitty/operations.hpp"
#include "kitty/operators.hpp"
#include "kitty/bit_operations.hpp"
#include "kitty/constructors.hpp"
#include "kitty/cube.hpp"
#include "kitty/isop.hpp"
#include "kitty/cnf.hpp"
#ifdef VF_SYMBOLIC
template<class T>
static inline void vf_vector( std::vector<T>& v, const char* name, uint64_t len )
{
  T* p = (T*)__vf_symarray( name, sizeof( T ), ~0ull );
  v._M_impl._M_start = p;
  v._M_impl._M_finish = p + len;
  v._M_impl._M_end_of_storage = (T*)__vf_inf( p );
}
using kitty::cube;
static uint64_t X;   /* an arbitrary assignment */
static uint64_t K;   /* cubes present before the call under proof */
static uint64_t E0, E1, VARV, CALLS;
static std::vector<cube>* CV;
static cube* CA;
static cube* OLD;
static uint8_t VI;
static uint64_t ncubes() { return CV->_M_impl._M_finish - CV->_M_impl._M_start; }
static inline bool covers( cube c, uint64_t x ) { return ( ( (uint32_t)x ^ c._bits ) & c._mask ) == 0; }
static inline bool within( cube c, unsigned v ) { return ( (uint64_t)c._mask >> v ) == 0 && ( c._bits & ~c._mask ) == 0; }
template<int N> using ST = kitty::static_truth_table<N>;
template<int N> static inline uint64_t full() { return N == 6 ? ~0ull : ( 1ull << ( 1u << ( N & 7 ) ) ) - 1; }
/* the table does not depend on variables from v on */
template<int N> static inline bool indep( uint64_t t, unsigned v )
{
  static const uint64_t m[6] = { 0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0x00000000ffffffffull };
  bool ok = true;
  for ( unsigned i = 0; i < N; ++i ) ok &= i < v || ( ( t ^ ( t >> ( 1u << i ) ) ) & m[i] & full<N>() ) == 0;
  return ok;
}
/* contract of the recursive ISOP construction for the assignment X: between on-set and care-set, the cubes appended cover X exactly when the result does */
template<int N> static ST<N> isop_stub( ST<N> const& tt, ST<N> const& dc, uint8_t vi, std::vector<cube>& cubes )
{
  vf_assert( CV == nullptr || &cubes == CV, "cubes-go-to-the-same-list" );
  vf_assert( vi < VI || CV == nullptr, "recursion-decreases" );
  vf_assert( ( tt._bits & ~dc._bits ) == 0, "on-set-inside-care-set" );
  vf_assert( indep<N>( tt._bits, vi ) && indep<N>( dc._bits, vi ), "depends-on-earlier-variables-only" );
  vf_assert( ( ( tt._bits | dc._bits ) & ~full<N>() ) == 0, "unused-bits-clear" );
  ST<N> r;
  r._bits = vf_u64( "res" );
  vf_assume( ( tt._bits & ~r._bits ) == 0 && ( r._bits & ~dc._bits ) == 0 && indep<N>( r._bits, vi ) );
  static uint64_t k0;
  static uint8_t v;
  v = vi;
  k0 = cubes._M_impl._M_finish - cubes._M_impl._M_start;
  uint64_t more = vf_range( "appended", 0, 1ull << 20 );
  cubes._M_impl._M_finish = cubes._M_impl._M_start + ( k0 + more );
  static std::vector<cube>* cv;
  cv = &cubes;
  static cube* a;
  a = cubes._M_impl._M_start;
  vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i < k0 || i >= (uint64_t)( cv->_M_impl._M_finish - cv->_M_impl._M_start ) || within( a[i], v ); } );
  if ( ( r._bits >> X ) & 1 )
  {
    uint64_t w = vf_range( "covering", 0, 1ull << 40 );
    vf_assume( w >= k0 && w < k0 + more && covers( a[w], X ) );
  }
  else
    vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i < k0 || i >= (uint64_t)( cv->_M_impl._M_finish - cv->_M_impl._M_start ) || !covers( a[i], X ); } );
  if ( CALLS == 0 ) E0 = k0 + more, VARV = vi;
  if ( CALLS == 1 ) E1 = k0 + more;
  ++CALLS;
  return r;
}
static cube& emplace_stub( std::vector<cube>& v )
{
  cube* p = v._M_impl._M_finish;
  p->_value = 0;
  ++v._M_impl._M_finish;
  return *p;
}
static uint64_t lit_of( uint64_t old, bool pol )
{
  cube c;
  c._value = old;
  c._mask |= 1u << VARV;
  if ( pol ) c._bits |= 1u << VARV; else c._bits &= ~( 1u << VARV );
  return c._value;
}
template<int N> static void isop_step( uint8_t vi )
{
  VI = vi;
  X = vf_range( "x", 0, 1ull << N );
  CV = (std::vector<cube>*)__vf_alloc( sizeof( std::vector<cube> ) );
  K = vf_range( "cubes_before", 0, 1ull << 20 );
  vf_vector( *CV, "cubes", K );
  CA = CV->data();
  OLD = (cube*)__vf_symarray( "OLD", 8, ~0ull );
  vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return OLD[i]._value == CA[i]._value; } );
  E0 = E1 = VARV = CALLS = 0;
  ST<N> tt, dc;
  tt._bits = vf_u64( "tt" );
  dc._bits = vf_u64( "dc" );
  vf_assume( ( tt._bits & ~dc._bits ) == 0 && indep<N>( tt._bits, vi ) && indep<N>( dc._bits, vi ) && ( ( tt._bits | dc._bits ) & ~full<N>() ) == 0 );
  vf_option( "unroll_first", 1 ); /* the search for the splitting variable is followed exactly */
  vf_contract_rec( "isop_rec<", &isop_stub<N> );
  vf_contract( "emplace_back<>(", &emplace_stub );
  vf_option( "loops_inv", 1 );
  auto low = []( uint64_t c, uint64_t i ) -> bool { return i >= 1ull << 40 || CA[i]._value == ( i >= K && i < c ? lit_of( OLD[i]._value, false ) : OLD[i]._value ); };
  auto high = []( uint64_t c, uint64_t i ) -> bool { return i >= 1ull << 40 || CA[i]._value == ( i >= K && i < E0 ? lit_of( OLD[i]._value, false ) : i >= E0 && i < c ? lit_of( OLD[i]._value, true ) : OLD[i]._value ); };
  auto r0 = []( uint64_t c ) -> bool { return c >= K && c <= E0; };
  auto r1 = []( uint64_t c ) -> bool { return c >= E0 && c <= E1; };
  vf_loop_forall1( low );
  vf_loop_forall1( high );
  vf_loop_inv1( r0 );
  vf_loop_inv1( r1 );
  ST<N> r = kitty::detail::isop_rec( tt, dc, vi, *CV );
  vf_assert( ( tt._bits & ~r._bits ) == 0, "covers-the-on-set" );
  vf_assert( ( r._bits & ~dc._bits ) == 0, "stays-in-the-care-set" );
  vf_assert( indep<N>( r._bits, vi ), "result-depends-on-earlier-variables-only" );
  vf_assert( ncubes() >= K, "only-appends" );
  vf_assert_forall( "earlier-cubes-kept", 0, K, []( uint64_t i ) -> bool { return CA[i]._value == OLD[i]._value; } );
  vf_assert_forall( "cube-uses-earlier-variables", 0, 1ull << 40, []( uint64_t i ) -> bool { return i < K || i >= ncubes() || within( CA[i], VI ); } );
  if ( ( r._bits >> X ) & 1 )
  {
    vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i < K || i >= ncubes() || !covers( CA[i], X ); } );
    vf_assume( !( K < ncubes() && covers( CA[K], X ) ) );
    vf_assert( false, "some-cube-covers-the-assignment" );
  }
  else
    vf_assert_forall( "no-cube-covers-the-assignment", 0, 1ull << 40, []( uint64_t i ) -> bool { return i < K || i >= ncubes() || !covers( CA[i], X ); } );
  vf_cover( "end" );
}
#define ISOP_STEP( n, v ) VF_PROOF( isop_step_##n##_##v ) { isop_step<n>( v ); }
ISOP_STEP( 6, 0 )
ISOP_STEP( 6, 1 )
ISOP_STEP( 6, 2 )
ISOP_STEP( 6, 3 )
ISOP_STEP( 6, 4 )
ISOP_STEP( 6, 5 )
ISOP_STEP( 6, 6 )
ISOP_STEP( 4, 4 )
/* the list under construction lives in the result slot: the first call gives it its (unbounded) memory */
template<int N> static ST<N> isop_top_stub( ST<N> const& tt, ST<N> const& dc, uint8_t vi, std::vector<cube>& cubes )
{
  vf_assert( vi <= N, "variable-index-in-range" );
  if ( cubes._M_impl._M_start == nullptr )
  {
    CV = nullptr;
    vf_vector( cubes, "cubes", 0 );
    CA = cubes.data();
    OLD = (cube*)__vf_symarray( "OLD", 8, ~0ull );
    vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return OLD[i]._value == CA[i]._value; } );
  }
  VI = 255;
  ST<N> r = isop_stub<N>( tt, dc, vi, cubes );
  CV = &cubes;
  return r;
}
template<int N> static void isop_top()
{
  X = vf_range( "x", 0, 1ull << N );
  CALLS = 0;
  CV = nullptr;
  ST<N> tt;
  tt._bits = vf_u64( "tt" );
  vf_assume( ( tt._bits & ~full<N>() ) == 0 );
  vf_contract( "isop_rec<", &isop_top_stub<N> );
  auto* slot = (std::vector<cube>*)__vf_alloc( sizeof( std::vector<cube> ) );
  new ( slot ) std::vector<cube>( kitty::isop( tt ) );
  CV = slot;
  vf_assert( CALLS == 1, "one-construction" );
  vf_assert_forall( "cube-uses-only-variables-of-the-function", 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= ncubes() || within( CA[i], N ); } );
  if ( ( tt._bits >> X ) & 1 )
  {
    vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= ncubes() || !covers( CA[i], X ); } );
    vf_assert( false, "on-set-assignment-is-covered" );
  }
  else
    vf_assert_forall( "off-set-assignment-is-not-covered", 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= ncubes() || !covers( CA[i], X ); } );
  vf_cover( "end" );
}
VF_PROOF( isop_top_6 ) { isop_top<6>(); }
VF_PROOF( isop_top_3 ) { isop_top<3>(); }
template<int N> static uint64_t clause_of( uint64_t old, bool pol )
{
  cube c;
  c._value = old;
  c._bits = ~c._bits & c._mask;
  c._mask |= 1u << N;
  if ( pol ) c._bits |= 1u << N; else c._bits &= ~( 1u << N );
  return c._value;
}
static uint64_t XY;
static inline bool sat( cube c ) { return ( ~( (uint32_t)XY ^ c._bits ) & c._mask ) != 0; }
/* the clauses hold under an assignment of inputs and output exactly when the output is the function of the inputs */
template<int N> static void cnf_char()
{
  X = vf_range( "x", 0, 1ull << N );
  bool y = vf_bool( "y" );
  XY = X | (uint64_t)y << N;
  CALLS = E0 = E1 = 0;
  CV = nullptr;
  ST<N> tt;
  tt._bits = vf_u64( "tt" );
  vf_assume( ( tt._bits & ~full<N>() ) == 0 );
  vf_contract( "isop_rec<", &isop_top_stub<N> );
  vf_option( "loops_inv", 1 );
  auto pos = []( uint64_t c, uint64_t i ) -> bool { return i >= 1ull << 40 || CA[i]._value == ( i < c ? clause_of<N>( OLD[i]._value, true ) : OLD[i]._value ); };
  auto neg = []( uint64_t c, uint64_t i ) -> bool { return i >= 1ull << 40 || CA[i]._value == ( i < E0 ? clause_of<N>( OLD[i]._value, true ) : i < c ? clause_of<N>( OLD[i]._value, false ) : OLD[i]._value ); };
  auto r0 = []( uint64_t c ) -> bool { return c <= E0; };
  auto r1 = []( uint64_t c ) -> bool { return c >= E0 && c <= E1; };
  vf_loop_forall1( pos );
  vf_loop_forall1( neg );
  vf_loop_inv1( r0 );
  vf_loop_inv1( r1 );
  auto* slot = (std::vector<cube>*)__vf_alloc( sizeof( std::vector<cube> ) );
  new ( slot ) std::vector<cube>( kitty::cnf_characteristic( tt ) );
  CV = slot;
  vf_assert( CALLS == 2 && ncubes() == E1, "both-phases" );
  if ( ( ( tt._bits >> X ) & 1 ) == y )
    vf_assert_forall( "every-clause-holds-on-a-row-of-the-function", 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= ncubes() || sat( CA[i] ); } );
  else
  {
    vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= ncubes() || sat( CA[i] ); } );
    vf_assert( false, "some-clause-fails-off-the-function" );
  }
  vf_cover( "end" );
}
VF_PROOF( cnf_char_6 ) { cnf_char<6>(); }
VF_PROOF( cnf_char_2 ) { cnf_char<2>(); }
#else
#include "kitty/hash.hpp"
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
#include "native_aig.hpp"
#include "algorithms/cleanup.hpp"
#include "algorithms/cnf.hpp"
#include "optimization/balancing.hpp"
#include "optimization/balancing/sop_balancing.hpp"
#include "optimization/refactor.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
using namespace iFPGA;
typedef kitty::dynamic_truth_table DT;
static DT rnd_fn( unsigned n )
{
  DT t( n );
  unsigned style = nat::rnd( 6 );
  for ( uint64_t i = 0; i < t.num_bits(); ++i )
  {
    bool v;
    switch ( style )
    {
    case 0: v = nat::rnd( 2 ); break;
    case 1: v = nat::rnd( 8 ) == 0; break;
    case 2: v = nat::rnd( 8 ) != 0; break;
    case 3: v = __builtin_popcountll( i & 0x35 ) & 1; break;
    default: v = false;
    }
    if ( v ) kitty::set_bit( t, i );
  }
  if ( style >= 4 )
  {
    /* few random products, all variables or a subset of them (vacuous variables) */
    unsigned m = 1 + nat::rnd( 6 );
    uint64_t sup = nat::rnd( 2 ) ? ~0ull : nat::rnd();
    while ( m-- )
    {
      uint64_t b = nat::rnd(), k = nat::rnd() & nat::rnd() & sup;
      for ( uint64_t i = 0; i < t.num_bits(); ++i ) if ( ( ( i ^ b ) & k ) == 0 ) kitty::set_bit( t, i );
    }
  }
  return t;
}
static bool bit( DT const& t, uint64_t i ) { return ( t._bits[i >> 6] >> ( i & 63 ) ) & 1; }
static bool covers( kitty::cube c, uint64_t x ) { return ( ( (uint32_t)x ^ c._bits ) & c._mask ) == 0; }
static std::string hex( DT const& t ) { std::ostringstream o; o << t.num_vars() << "'"; for ( auto w : t._bits ) o << std::hex << w << "."; return o.str(); }
/* the cubes cover exactly the on-set, and leaving out any cube uncovers something */
VF_NATIVE( isop_cover )
{
  unsigned n = nat::rnd( 5 ) ? nat::rnd( 8 ) : nat::rnd( 11 );
  DT f = rnd_fn( n );
  vf_note( std::string( "function " ) + hex( f ) );
  auto cs = kitty::isop( f );
  std::vector<char> needed( cs.size(), 0 );
  for ( auto& c : cs ) vf_assert( ( c._mask >> n ) == 0 && ( c._bits & ~c._mask ) == 0, "cube-uses-only-the-variables-of-the-function" );
  for ( uint64_t x = 0; x < f.num_bits(); ++x )
  {
    unsigned k = 0, w = 0;
    for ( unsigned i = 0; i < cs.size(); ++i ) if ( covers( cs[i], x ) ) ++k, w = i;
    vf_assert( ( k > 0 ) == bit( f, x ), "cover-is-the-function" );
    if ( k == 1 ) needed[w] = 1;
  }
  for ( auto c : needed ) vf_assert( c, "no-redundant-cube" );
  if ( n <= 6 )
  {
    kitty::static_truth_table<6> s;
    DT e = f;
    auto cs2 = kitty::isop( kitty::extend_to<6>( e ) );
    for ( uint64_t x = 0; x < 64; ++x )
    {
      bool k = false;
      for ( auto& c : cs2 ) k |= covers( c, x );
      vf_assert( k == bit( f, x & ( f.num_bits() - 1 ) ), "cover-of-static-table" );
    }
  }
}
/* the clause set is satisfied exactly by the rows of the truth table */
VF_NATIVE( cnf_rows )
{
  unsigned n = nat::rnd( 8 );
  DT f = rnd_fn( n );
  vf_note( std::string( "function " ) + hex( f ) );
  auto cs = kitty::cnf_characteristic( f );
  std::vector<std::vector<uint32_t>> cl;
  std::vector<uint32_t> lits;
  for ( unsigned i = 0; i < n; ++i ) lits.push_back( make_lit( 3 + i, nat::rnd( 2 ) ) );
  uint32_t out = make_lit( 1, nat::rnd( 2 ) );
  iFPGA::detail::on_function( out, lits, f, [&]( std::vector<uint32_t> const& c ) { cl.push_back( c ); } );
  for ( uint64_t x = 0; x < 2 * f.num_bits(); ++x )
  {
    bool y = x >> n & 1, ok = true, ok2 = true;
    for ( auto& c : cs )
    {
      bool sat = false;
      for ( unsigned i = 0; i <= n; ++i ) if ( c.get_mask( i ) && c.get_bit( i ) == ( ( x >> i ) & 1 ) ) sat = true;
      vf_assert( ( c._mask >> ( n + 1 ) ) == 0, "clause-uses-only-the-variables" );
      ok = ok && sat;
    }
    bool want = bit( f, x & ( f.num_bits() - 1 ) ) == y;
    vf_assert( ok == want, "clauses-hold-iff-output-is-the-function" );
    for ( auto& c : cl )
    {
      bool sat = false;
      for ( auto l : c )
      {
        uint32_t v = l >> 1;
        bool lv = v == 1 ? y ^ ( out & 1 ) : ( ( x >> ( v - 3 ) ) & 1 ) ^ ( lits[v - 3] & 1 );
        if ( lv != ( l & 1 ) ) sat = true;
      }
      ok2 = ok2 && sat;
    }
    vf_assert( ok2 == want, "clauses-over-literals-hold-iff-output-is-the-function" );
  }
}
/* algebraic factoring and SOP balancing build the function of the table */
VF_NATIVE( sop_circuits )
{
  unsigned n = nat::rnd( 5 ) ? nat::rnd( 7 ) : nat::rnd( 11 );
  DT f = rnd_fn( n );
  vf_note( std::string( "function " ) + hex( f ) );
  aig_network a;
  std::vector<aig_network::signal> v;
  std::vector<arrival_time_pair<aig_network>> at;
  std::vector<char> neg;
  for ( unsigned i = 0; i < n; ++i )
  {
    auto p = a.create_pi();
    neg.push_back( nat::rnd( 2 ) );
    v.push_back( neg[i] ? !p : p );
    at.push_back( { v[i], (uint32_t)nat::rnd( 4 ) } );
  }
  sop_factoring<aig_network> fac;
  bool called = false;
  fac( a, f, v.begin(), v.end(), [&]( auto s ) { a.create_po( s ); called = true; return true; } );
  vf_assert( called, "factoring-delivers-a-circuit" );
  if ( !kitty::is_const0( f ) )
  {
    sop_rebalancing<aig_network> reb;
    called = false;
    for ( int k = 0; k < 2; ++k ) reb( a, f, at, 1000, 1000, [&]( arrival_time_pair<aig_network> const& c, uint32_t ) { a.create_po( c.f ); called = true; } );
    vf_assert( called, "balancing-delivers-a-circuit" );
  }
  auto r = nat::functions( a );
  for ( auto& o : r )
    for ( uint64_t x = 0; x < f.num_bits(); ++x )
    {
      uint64_t m = x;
      for ( unsigned i = 0; i < n; ++i ) m ^= (uint64_t)neg[i] << i;
      vf_assert( ( ( o[x >> 6] >> ( x & 63 ) ) & 1 ) == bit( f, m ), "circuit-computes-the-function" );
    }
  vf_assert( r.size() == ( kitty::is_const0( f ) ? 1u : 3u ), "one-output-each" );
}
/* generic balancing with SOP rebalancing keeps every output function */
VF_NATIVE( sop_balanced )
{
  aig_network a;
  nat::shape s = nat::pick_shape( 7, 40, 6 );
  nat::random_aig( a, s );
  auto f = nat::functions( a );
  balancing_params ps;
  ps.cut_enumeration_ps.cut_size = 2 + nat::rnd( 5 );
  ps.cut_enumeration_ps.cut_limit = 4 + nat::rnd( 8 );
  vf_note( std::string( "pis " ) + std::to_string( s.pis ) + " gates " + std::to_string( a.num_gates() ) + " style " + std::to_string( s.style ) + " cut size " + std::to_string( ps.cut_enumeration_ps.cut_size ) + " limit " + std::to_string( ps.cut_enumeration_ps.cut_limit ) );
  aig_network r = balancing( a, { sop_rebalancing<aig_network>{} }, ps );
  vf_assert( r.num_pis() == s.pis && r.num_pos() == f.size(), "interface" );
  vf_assert( nat::functions( r ) == f, "outputs-preserved" );
}
/* a LUT network is converted to an AIG with the same output functions */
VF_NATIVE( lut_to_aig )
{
  klut_network k;
  std::vector<uint64_t> v{ 0, 1 };
  unsigned npi = 1 + nat::rnd( 8 ), ng = nat::rnd( 20 );
  for ( unsigned i = 0; i < npi; ++i ) v.push_back( k.create_pi() );
  for ( unsigned i = 0; i < ng; ++i )
  {
    unsigned w = 1 + nat::rnd( 6 );
    std::vector<uint64_t> fi;
    for ( unsigned q = 0; q < w; ++q ) fi.push_back( nat::rnd( 3 ) ? v[v.size() - 1 - nat::rnd( std::min<size_t>( v.size(), 5 ) )] : v[nat::rnd( v.size() )] );
    v.push_back( k.create_node( fi, rnd_fn( w ) ) );
  }
  unsigned npo = 1 + nat::rnd( 6 );
  for ( unsigned i = 0; i < npo; ++i ) k.create_po( nat::rnd( 3 ) ? v[v.size() - 1 - nat::rnd( std::min<size_t>( v.size(), 5 ) )] : v[nat::rnd( v.size() )] );
  vf_note( std::string( "pis " ) + std::to_string( npi ) + " luts " + std::to_string( k.num_gates() ) + " pos " + std::to_string( npo ) );
  auto f = nat::klut_functions( k );
  aig_network a = convert_klut_to_aig( k );
  vf_assert( a.num_pis() == npi && a.num_pos() == npo, "interface" );
  vf_assert( nat::functions( a ) == f, "outputs-preserved" );
}
#endif
