// Contracts over the truth-table operations, for every function of the stated number of variables (all 2^2^n tables symbolically).
#include "vf.h"
#include "kitty/kitty.hpp"
#include "kitty/static_truth_table.hpp"
#include "kitty/dynamic_truth_table.hpp"
#include "kitty/operations.hpp"
#include "kitty/operators.hpp"
#include "kitty/bit_operations.hpp"
#include "kitty/constructors.hpp"
#include "kitty/hash.hpp"
#include "kitty/implicant.hpp"
using kitty::dynamic_truth_table;

template<class TT, int N> struct mk { static TT make() { return TT( N ); } };
template<int M, bool S, int N> struct mk<kitty::static_truth_table<M, S>, N> { static kitty::static_truth_table<M, S> make() { return {}; } };
template<class TT> static inline uint64_t* words( TT& t ) { return (uint64_t*)&*t.begin(); }
template<class TT> static inline bool at( TT const& t, uint64_t m )
{
  auto b = t.begin();
  return ( ( *( b + ( m >> 6 ) ) ) >> ( m & 63 ) ) & 1;
}
/* an arbitrary table; unused bits of tables below 6 variables are zero (the type's invariant) */
template<class TT, int N> static TT any( const char* n )
{
  TT t = mk<TT, N>::make();
  uint64_t mask = N >= 6 ? ~0ull : ( 1ull << ( 1u << N ) ) - 1;
  for ( auto it = t.begin(); it != t.end(); ++it ) *it = vf_u64( n ) & mask;
  return t;
}
template<class TT, int N> static bool clean( TT const& t )
{
  return N >= 6 || ( *t.begin() >> ( 1u << ( N >= 6 ? 0 : N ) ) ) == 0;
}
static inline uint64_t setbit( uint64_t m, uint64_t i, bool v ) { return ( m & ~( 1ull << i ) ) | ( (uint64_t)v << i ); }

template<class TT, int N> static void boolean_ops()
{
  TT x = any<TT, N>( "x" ), y = any<TT, N>( "y" ), z = any<TT, N>( "z" );
  uint64_t m = vf_range( "m", 0, 1ull << N );
  bool X = at( x, m ), Y = at( y, m ), Z = at( z, m );
  bool c = vf_bool( "c" );
  TT r = kitty::unary_not( x );
  vf_assert( at( r, m ) == !X && ( clean<TT, N>( r ) ), "not" );
  r = kitty::unary_not_if( x, c );
  vf_assert( at( r, m ) == ( X != c ) && ( clean<TT, N>( r ) ), "not-if" );
  r = kitty::binary_and( x, y );
  vf_assert( at( r, m ) == ( X && Y ), "and" );
  r = kitty::binary_or( x, y );
  vf_assert( at( r, m ) == ( X || Y ), "or" );
  r = kitty::binary_xor( x, y );
  vf_assert( at( r, m ) == ( X != Y ), "xor" );
  r = kitty::ternary_majority( x, y, z );
  vf_assert( at( r, m ) == ( ( X && Y ) || ( X && Z ) || ( Y && Z ) ), "majority" );
  r = kitty::ternary_ite( x, y, z );
  vf_assert( at( r, m ) == ( X ? Y : Z ), "if-then-else" );
  r = x & y;
  vf_assert( at( r, m ) == ( X && Y ), "operator-and" );
  r = x | y;
  vf_assert( at( r, m ) == ( X || Y ), "operator-or" );
  r = x ^ y;
  vf_assert( at( r, m ) == ( X != Y ), "operator-xor" );
  r = ~x;
  vf_assert( at( r, m ) == !X && ( clean<TT, N>( r ) ), "operator-not" );
  r = x;
  r &= y;
  vf_assert( at( r, m ) == ( X && Y ), "and-assign" );
  r = x;
  r |= y;
  vf_assert( at( r, m ) == ( X || Y ), "or-assign" );
  r = x;
  r ^= y;
  vf_assert( at( r, m ) == ( X != Y ), "xor-assign" );
  vf_cover( "end" );
}
/* predicates, both directions by a witness minterm */
template<class TT, int N> static void predicates()
{
  TT x = any<TT, N>( "x" ), y = any<TT, N>( "y" );
  uint64_t m = vf_range( "m", 0, 1ull << N );
  vf_assert( ( x < y ) == kitty::less_than( x, y ), "order-operator" );
  bool eq = kitty::equal( x, y ), z = kitty::is_const0( x ), im = kitty::implies( x, y );
  vf_assert( ( x == y ) == eq && ( x != y ) == !eq, "operators-agree" );
  vf_assert( !eq || at( x, m ) == at( y, m ), "equal-tables-agree-everywhere" );
  vf_assert( !z || !at( x, m ), "constant-zero-is-false-everywhere" );
  vf_assert( !im || !at( x, m ) || at( y, m ), "implication-holds-everywhere" );
  bool dx = false, dz = false, di = false;
  auto px = x.begin(), py = y.begin();
  for ( ; px != x.end(); ++px, ++py ) { dx |= *px != *py; dz |= *px != 0; di |= ( *px & ~*py ) != 0; }
  vf_assert( eq == !dx && z == !dz && im == !di, "predicates-are-complete" );
  bool lt = kitty::less_than( x, y ), gt = kitty::less_than( y, x );
  vf_assert( !( lt && gt ) && ( lt || gt || eq ) && !( lt && eq ), "order-is-total-and-strict" );
  bool num = false; /* tables are ordered as numbers, the largest minterm is the most significant */
  for ( px = x.begin(), py = y.begin(); px != x.end(); ++px, ++py ) num = *px < *py || ( *px == *py && num );
  vf_assert( lt == num, "order-is-numeric" );
  vf_cover( "end" );
}
template<class TT, int N, int V> static void one_var()
{
  TT x = any<TT, N>( "x" ), y = any<TT, N>( "y" );
  uint64_t m = vf_range( "m", 0, 1ull << N );
  bool b = ( m >> V ) & 1;
  TT r = kitty::cofactor0( x, V );
  vf_assert( at( r, m ) == at( x, setbit( m, V, 0 ) ) && ( clean<TT, N>( r ) ), "negative-cofactor" );
  r = kitty::cofactor1( x, V );
  vf_assert( at( r, m ) == at( x, setbit( m, V, 1 ) ) && ( clean<TT, N>( r ) ), "positive-cofactor" );
  r = kitty::flip( x, V );
  vf_assert( at( r, m ) == at( x, setbit( m, V, !b ) ) && ( clean<TT, N>( r ) ), "input-negation" );
  r = kitty::mux_var( V, x, y );
  vf_assert( at( r, m ) == ( b ? at( x, m ) : at( y, m ) ), "mux-on-a-variable" );
  r = mk<TT, N>::make();
  kitty::create_nth_var( r, V );
  vf_assert( at( r, m ) == b && ( clean<TT, N>( r ) ), "projection" );
  r = mk<TT, N>::make();
  kitty::create_nth_var( r, V, true );
  vf_assert( at( r, m ) == !b && ( clean<TT, N>( r ) ), "complemented-projection" );
  bool h = kitty::has_var( x, V );
  vf_assert( h || at( x, m ) == at( x, setbit( m, V, !b ) ), "independent-of-an-absent-variable" );
  bool d = !( kitty::cofactor0( x, V ) == kitty::cofactor1( x, V ) );
  vf_assert( h == d, "variable-is-present-iff-the-cofactors-differ" );
  vf_cover( "end" );
}
template<class TT, int N, int V, int W> static void two_vars()
{
  TT x = any<TT, N>( "x" );
  uint64_t m = vf_range( "m", 0, 1ull << N );
  bool b = ( m >> V ) & 1, c = ( m >> W ) & 1;
  TT r = kitty::swap( x, V, W );
  vf_assert( at( r, m ) == at( x, setbit( setbit( m, V, c ), W, b ) ) && ( clean<TT, N>( r ) ), "variable-swap" );
  vf_cover( "end" );
}
template<class TT, int N, int V> static void swap_adj()
{
  TT x = any<TT, N>( "x" );
  uint64_t m = vf_range( "m", 0, 1ull << N );
  bool b = ( m >> V ) & 1, c = ( m >> ( V + 1 ) ) & 1;
  TT r = kitty::swap_adjacent( x, V );
  vf_assert( at( r, m ) == at( x, setbit( setbit( m, V, c ), V + 1, b ) ) && ( clean<TT, N>( r ) ), "adjacent-swap" );
  vf_cover( "end" );
}
template<class TT, int N> static void bits()
{
  TT x = any<TT, N>( "x" );
  uint64_t m = vf_range( "m", 0, 1ull << N ), k = vf_range( "k", 0, 1ull << N );
  vf_assert( (bool)kitty::get_bit( x, k ) == at( x, k ), "get-bit" );
  TT r = x;
  kitty::set_bit( r, k );
  vf_assert( at( r, m ) == ( m == k ? true : at( x, m ) ), "set-bit" );
  r = x;
  kitty::clear_bit( r, k );
  vf_assert( at( r, m ) == ( m == k ? false : at( x, m ) ), "clear-bit" );
  r = x;
  kitty::flip_bit( r, k );
  vf_assert( at( r, m ) == ( m == k ? !at( x, m ) : at( x, m ) ), "flip-bit" );
  r = x;
  kitty::clear( r );
  vf_assert( !at( r, m ), "clear" );
  uint64_t n = 0;
  for ( auto it = x.begin(); it != x.end(); ++it ) n += __builtin_popcountll( *it );
  if ( N < 6 || vf_native() ) vf_assert( kitty::count_ones( x ) == n && kitty::count_zeros( x ) == ( 1ull << N ) - n, "counting" );
  vf_cover( "end" );
}
#define STT( N ) kitty::static_truth_table<N>
#define GEN( name, TT, N ) \
  VF_PROOF( bool_##name ) { boolean_ops<TT, N>(); } \
  VF_PROOF( pred_##name ) { predicates<TT, N>(); } \
  VF_PROOF( bits_##name ) { bits<TT, N>(); }
GEN( s3, STT( 3 ), 3 )
GEN( s4, STT( 4 ), 4 )
GEN( s6, STT( 6 ), 6 )
GEN( s8, STT( 8 ), 8 )
GEN( d2, dynamic_truth_table, 2 )
GEN( d4, dynamic_truth_table, 4 )
GEN( d6, dynamic_truth_table, 6 )
GEN( d8, dynamic_truth_table, 8 )
VF_PROOF( var_s4 ) { one_var<STT( 4 ), 4, 0>(); one_var<STT( 4 ), 4, 1>(); one_var<STT( 4 ), 4, 2>(); one_var<STT( 4 ), 4, 3>(); }
VF_PROOF( var_s6 ) { one_var<STT( 6 ), 6, 0>(); one_var<STT( 6 ), 6, 1>(); one_var<STT( 6 ), 6, 2>(); one_var<STT( 6 ), 6, 3>(); one_var<STT( 6 ), 6, 4>(); one_var<STT( 6 ), 6, 5>(); }
VF_PROOF( var_s8 ) { one_var<STT( 8 ), 8, 0>(); one_var<STT( 8 ), 8, 1>(); one_var<STT( 8 ), 8, 2>(); one_var<STT( 8 ), 8, 3>(); one_var<STT( 8 ), 8, 4>(); one_var<STT( 8 ), 8, 5>(); one_var<STT( 8 ), 8, 6>(); one_var<STT( 8 ), 8, 7>(); }
VF_PROOF( var_d4 ) { one_var<dynamic_truth_table, 4, 0>(); one_var<dynamic_truth_table, 4, 1>(); one_var<dynamic_truth_table, 4, 2>(); one_var<dynamic_truth_table, 4, 3>(); }
VF_PROOF( var_d6 ) { one_var<dynamic_truth_table, 6, 0>(); one_var<dynamic_truth_table, 6, 1>(); one_var<dynamic_truth_table, 6, 2>(); one_var<dynamic_truth_table, 6, 3>(); one_var<dynamic_truth_table, 6, 4>(); one_var<dynamic_truth_table, 6, 5>(); }
VF_PROOF( var_d8 ) { one_var<dynamic_truth_table, 8, 0>(); one_var<dynamic_truth_table, 8, 1>(); one_var<dynamic_truth_table, 8, 2>(); one_var<dynamic_truth_table, 8, 3>(); one_var<dynamic_truth_table, 8, 4>(); one_var<dynamic_truth_table, 8, 5>(); one_var<dynamic_truth_table, 8, 6>(); one_var<dynamic_truth_table, 8, 7>(); }
VF_PROOF( swap_s4 ) { two_vars<STT( 4 ), 4, 0, 0>(); two_vars<STT( 4 ), 4, 0, 1>(); two_vars<STT( 4 ), 4, 0, 2>(); two_vars<STT( 4 ), 4, 3, 0>(); two_vars<STT( 4 ), 4, 1, 1>(); two_vars<STT( 4 ), 4, 2, 1>(); two_vars<STT( 4 ), 4, 1, 3>(); two_vars<STT( 4 ), 4, 2, 2>(); two_vars<STT( 4 ), 4, 2, 3>(); two_vars<STT( 4 ), 4, 3, 3>(); swap_adj<STT( 4 ), 4, 0>(); swap_adj<STT( 4 ), 4, 1>(); swap_adj<STT( 4 ), 4, 2>(); }
VF_PROOF( swap_s6 ) { two_vars<STT( 6 ), 6, 0, 0>(); two_vars<STT( 6 ), 6, 0, 1>(); two_vars<STT( 6 ), 6, 0, 2>(); two_vars<STT( 6 ), 6, 3, 0>(); two_vars<STT( 6 ), 6, 0, 4>(); two_vars<STT( 6 ), 6, 0, 5>(); two_vars<STT( 6 ), 6, 1, 1>(); two_vars<STT( 6 ), 6, 2, 1>(); two_vars<STT( 6 ), 6, 1, 3>(); two_vars<STT( 6 ), 6, 1, 4>(); two_vars<STT( 6 ), 6, 5, 1>(); two_vars<STT( 6 ), 6, 2, 2>(); two_vars<STT( 6 ), 6, 2, 3>(); two_vars<STT( 6 ), 6, 4, 2>(); two_vars<STT( 6 ), 6, 2, 5>(); two_vars<STT( 6 ), 6, 3, 3>(); two_vars<STT( 6 ), 6, 3, 4>(); two_vars<STT( 6 ), 6, 3, 5>(); two_vars<STT( 6 ), 6, 4, 4>(); two_vars<STT( 6 ), 6, 5, 4>(); two_vars<STT( 6 ), 6, 5, 5>(); swap_adj<STT( 6 ), 6, 0>(); swap_adj<STT( 6 ), 6, 1>(); swap_adj<STT( 6 ), 6, 2>(); swap_adj<STT( 6 ), 6, 3>(); swap_adj<STT( 6 ), 6, 4>(); }
VF_PROOF( swap_d3 ) { two_vars<dynamic_truth_table, 3, 0, 0>(); two_vars<dynamic_truth_table, 3, 0, 1>(); two_vars<dynamic_truth_table, 3, 0, 2>(); two_vars<dynamic_truth_table, 3, 1, 1>(); two_vars<dynamic_truth_table, 3, 1, 2>(); two_vars<dynamic_truth_table, 3, 2, 2>(); swap_adj<dynamic_truth_table, 3, 0>(); swap_adj<dynamic_truth_table, 3, 1>(); one_var<dynamic_truth_table, 3, 0>(); one_var<dynamic_truth_table, 3, 1>(); one_var<dynamic_truth_table, 3, 2>(); }
VF_PROOF( swap_d5 ) { two_vars<dynamic_truth_table, 5, 0, 0>(); two_vars<dynamic_truth_table, 5, 0, 1>(); two_vars<dynamic_truth_table, 5, 0, 2>(); two_vars<dynamic_truth_table, 5, 3, 0>(); two_vars<dynamic_truth_table, 5, 0, 4>(); two_vars<dynamic_truth_table, 5, 1, 1>(); two_vars<dynamic_truth_table, 5, 2, 1>(); two_vars<dynamic_truth_table, 5, 1, 3>(); two_vars<dynamic_truth_table, 5, 1, 4>(); two_vars<dynamic_truth_table, 5, 2, 2>(); two_vars<dynamic_truth_table, 5, 2, 3>(); two_vars<dynamic_truth_table, 5, 4, 2>(); two_vars<dynamic_truth_table, 5, 3, 3>(); two_vars<dynamic_truth_table, 5, 3, 4>(); two_vars<dynamic_truth_table, 5, 4, 4>(); swap_adj<dynamic_truth_table, 5, 0>(); swap_adj<dynamic_truth_table, 5, 1>(); swap_adj<dynamic_truth_table, 5, 2>(); swap_adj<dynamic_truth_table, 5, 3>(); one_var<dynamic_truth_table, 5, 0>(); one_var<dynamic_truth_table, 5, 1>(); one_var<dynamic_truth_table, 5, 2>(); one_var<dynamic_truth_table, 5, 3>(); one_var<dynamic_truth_table, 5, 4>(); }
VF_PROOF( swap_d6 ) { two_vars<dynamic_truth_table, 6, 0, 0>(); two_vars<dynamic_truth_table, 6, 0, 1>(); two_vars<dynamic_truth_table, 6, 0, 2>(); two_vars<dynamic_truth_table, 6, 3, 0>(); two_vars<dynamic_truth_table, 6, 0, 4>(); two_vars<dynamic_truth_table, 6, 0, 5>(); two_vars<dynamic_truth_table, 6, 1, 1>(); two_vars<dynamic_truth_table, 6, 2, 1>(); two_vars<dynamic_truth_table, 6, 1, 3>(); two_vars<dynamic_truth_table, 6, 1, 4>(); two_vars<dynamic_truth_table, 6, 5, 1>(); two_vars<dynamic_truth_table, 6, 2, 2>(); two_vars<dynamic_truth_table, 6, 2, 3>(); two_vars<dynamic_truth_table, 6, 4, 2>(); two_vars<dynamic_truth_table, 6, 2, 5>(); two_vars<dynamic_truth_table, 6, 3, 3>(); two_vars<dynamic_truth_table, 6, 3, 4>(); two_vars<dynamic_truth_table, 6, 3, 5>(); two_vars<dynamic_truth_table, 6, 4, 4>(); two_vars<dynamic_truth_table, 6, 5, 4>(); two_vars<dynamic_truth_table, 6, 5, 5>(); swap_adj<dynamic_truth_table, 6, 0>(); swap_adj<dynamic_truth_table, 6, 1>(); swap_adj<dynamic_truth_table, 6, 2>(); swap_adj<dynamic_truth_table, 6, 3>(); swap_adj<dynamic_truth_table, 6, 4>(); }
VF_PROOF( swap_s8 ) { two_vars<STT( 8 ), 8, 0, 7>(); two_vars<STT( 8 ), 8, 2, 3>(); two_vars<STT( 8 ), 8, 6, 5>(); two_vars<STT( 8 ), 8, 4, 6>(); two_vars<STT( 8 ), 8, 6, 7>(); two_vars<STT( 8 ), 8, 5, 7>(); two_vars<STT( 8 ), 8, 1, 6>(); swap_adj<STT( 8 ), 8, 0>(); swap_adj<STT( 8 ), 8, 1>(); swap_adj<STT( 8 ), 8, 2>(); swap_adj<STT( 8 ), 8, 3>(); swap_adj<STT( 8 ), 8, 4>(); swap_adj<STT( 8 ), 8, 5>(); swap_adj<STT( 8 ), 8, 6>(); }
VF_PROOF( swap_d8 ) { two_vars<dynamic_truth_table, 8, 0, 6>(); two_vars<dynamic_truth_table, 8, 2, 7>(); two_vars<dynamic_truth_table, 8, 5, 6>(); two_vars<dynamic_truth_table, 8, 6, 7>(); two_vars<dynamic_truth_table, 8, 1, 5>(); two_vars<dynamic_truth_table, 8, 7, 3>(); two_vars<dynamic_truth_table, 8, 4, 6>(); two_vars<dynamic_truth_table, 8, 2, 4>(); swap_adj<dynamic_truth_table, 8, 0>(); swap_adj<dynamic_truth_table, 8, 1>(); swap_adj<dynamic_truth_table, 8, 2>(); swap_adj<dynamic_truth_table, 8, 3>(); swap_adj<dynamic_truth_table, 8, 4>(); swap_adj<dynamic_truth_table, 8, 5>(); swap_adj<dynamic_truth_table, 8, 6>(); }
VF_PROOF( swap_d9 ) { two_vars<dynamic_truth_table, 9, 6, 7>(); two_vars<dynamic_truth_table, 9, 6, 8>(); two_vars<dynamic_truth_table, 9, 7, 8>(); two_vars<dynamic_truth_table, 9, 8, 5>(); two_vars<dynamic_truth_table, 9, 3, 8>(); swap_adj<dynamic_truth_table, 9, 5>(); swap_adj<dynamic_truth_table, 9, 6>(); swap_adj<dynamic_truth_table, 9, 7>(); }
VF_PROOF( var_d9 ) { one_var<dynamic_truth_table, 9, 5>(); one_var<dynamic_truth_table, 9, 6>(); one_var<dynamic_truth_table, 9, 7>(); one_var<dynamic_truth_table, 9, 8>(); }
/* extension to more variables keeps the function and ignores the new variables */
template<int N, int M> static void extend()
{
  dynamic_truth_table x = any<dynamic_truth_table, N>( "x" );
  uint64_t m = vf_range( "m", 0, 1ull << M );
  dynamic_truth_table r = kitty::extend_to( x, M );
  vf_assert( r.num_vars() == M && at( r, m ) == at( x, m & ( ( 1ull << N ) - 1 ) ) && ( clean<dynamic_truth_table, M>( r ) ), "extension" );
  dynamic_truth_table s = kitty::shrink_to( r, N );
  uint64_t k = vf_range( "k", 0, 1ull << N );
  vf_assert( s.num_vars() == N && at( s, k ) == at( x, k ) && ( clean<dynamic_truth_table, N>( s ) ), "shrink-inverts-extension" );
  vf_cover( "end" );
}
VF_PROOF( extend_small ) { extend<2, 4>(); extend<3, 6>(); extend<0, 3>(); extend<4, 4>(); extend<5, 6>(); extend<1, 6>(); }
VF_PROOF( extend_large ) { extend<3, 7>(); extend<6, 8>(); extend<7, 8>(); extend<4, 8>(); }
/* minimum base: the returned support lists the essential variables in order, and expansion restores the function */
template<int N> static void minbase()
{
  dynamic_truth_table x = any<dynamic_truth_table, N>( "x" );
  dynamic_truth_table r = x;
  auto sup = kitty::min_base_inplace( r );
  uint64_t m = vf_range( "m", 0, 1ull << N );
  uint64_t e = 0;
  uint64_t k = 0;
  for ( int v = 0; v < N; ++v )
    if ( kitty::has_var( x, v ) )
    {
      vf_assert( k < sup.size() && sup[k] == v, "support-lists-the-essential-variables" );
      e |= ( ( m >> v ) & 1 ) << k;
      ++k;
    }
  vf_assert( sup.size() == k, "support-size" );
  vf_assert( at( r, e ) == at( x, m ), "compressed-function" );
  kitty::expand_inplace( r, sup );
  vf_assert( at( r, m ) == at( x, m ), "expansion-restores-the-function" );
  vf_cover( "end" );
}
VF_PROOF( min_base_2 ) { vf_option( "merge", 0 ); minbase<2>(); }
VF_PROOF( min_base_3 ) { vf_option( "merge", 0 ); minbase<3>(); }
VF_PROOF( min_base_4 ) { vf_option( "merge", 0 ); minbase<4>(); }
VF_PROOF( min_base_6 ) { vf_option( "merge", 0 ); minbase<6>(); }

#ifndef VF_SYMBOLIC
#include "native_aig.hpp"
/* tables of up to 12 variables against a table of minterms */
template<class TT> static void large_table( TT proto, TT proto2 )
{
  uint32_t n = proto.num_vars();
  uint64_t len = 1ull << n;
  auto rand_tt = [&]( TT t ) {
    uint64_t k = nat::rnd( 4 ), dep = nat::rnd();
    for ( uint64_t m = 0; m < len; ++m )
    {
      uint64_t h = ( m & dep ) * 0x9e3779b97f4a7c15ull;
      bool b = k == 0 ? nat::rnd( 2 ) : k == 1 ? ( ( h ^ dep ) >> 37 ) & 1 : k == 2 ? nat::rnd( len ) == 0 : nat::rnd( len ) != 0;
      if ( b ) t._bits[m >> 6] |= 1ull << ( m & 63 );
    }
    return t;
  };
  TT x = rand_tt( proto ), y = nat::rnd( 4 ) ? rand_tt( proto2 ) : x;
  if ( nat::rnd( 3 ) == 0 ) kitty::flip_bit( y, nat::rnd( len ) );
  auto val = []( TT const& t, uint64_t m ) { return bool( ( t._bits[m >> 6] >> ( m & 63 ) ) & 1 ); };
  auto same = [&]( TT const& t, auto f, const char* what ) {
    for ( uint64_t m = 0; m < len; ++m ) vf_assert( val( t, m ) == f( m ), what );
    for ( uint64_t m = len; m < 64; ++m ) vf_assert( !( ( t._bits[0] >> m ) & 1 ), "unused-bits-stay-zero" );
  };
  uint64_t ones = 0;
  int64_t top = -1;
  bool imp = true;
  for ( uint64_t m = 0; m < len; ++m ) { ones += val( x, m ); if ( val( x, m ) != val( y, m ) ) top = m; imp &= !val( x, m ) || val( y, m ); }
  vf_assert( kitty::count_ones( x ) == ones && kitty::count_zeros( x ) == len - ones, "counting" );
  vf_assert( ( x == y ) == ( top < 0 ) && ( x != y ) == ( top >= 0 ) && kitty::equal( x, y ) == ( top < 0 ), "equality" );
  vf_assert( ( x < y ) == ( top >= 0 && val( y, top ) ), "order" );
  vf_assert( kitty::is_const0( x ) == ( ones == 0 ) && kitty::implies( x, y ) == imp, "constant-and-implication" );
  if ( top < 0 ) vf_assert( kitty::hash<TT>()( x ) == kitty::hash<TT>()( y ), "equal-tables-hash-equally" );
  same( ~x, [&]( uint64_t m ) { return !val( x, m ); }, "not" );
  same( x & y, [&]( uint64_t m ) { return val( x, m ) && val( y, m ); }, "and" );
  same( x | y, [&]( uint64_t m ) { return val( x, m ) || val( y, m ); }, "or" );
  same( x ^ y, [&]( uint64_t m ) { return val( x, m ) != val( y, m ); }, "xor" );
  same( kitty::ternary_majority( x, y, ~x ), [&]( uint64_t m ) { return val( y, m ); }, "majority" );
  same( kitty::ternary_ite( x, y, ~y ), [&]( uint64_t m ) { return val( x, m ) == val( y, m ); }, "if-then-else" );
  auto with = []( uint64_t m, uint32_t i, bool v ) { return ( m & ~( 1ull << i ) ) | ( uint64_t( v ) << i ); };
  if ( n > 0 )
  {
    uint32_t v = nat::rnd( n ), w = nat::rnd( n );
    same( kitty::cofactor0( x, v ), [&]( uint64_t m ) { return val( x, with( m, v, 0 ) ); }, "negative-cofactor" );
    same( kitty::cofactor1( x, v ), [&]( uint64_t m ) { return val( x, with( m, v, 1 ) ); }, "positive-cofactor" );
    same( kitty::flip( x, v ), [&]( uint64_t m ) { return val( x, m ^ ( 1ull << v ) ); }, "input-negation" );
    same( kitty::mux_var( v, x, y ), [&]( uint64_t m ) { return ( m >> v ) & 1 ? val( x, m ) : val( y, m ); }, "mux-on-a-variable" );
    same( kitty::swap( x, v, w ), [&]( uint64_t m ) { return val( x, with( with( m, v, ( m >> w ) & 1 ), w, ( m >> v ) & 1 ) ); }, "variable-swap" );
    if ( v + 1 < n ) same( kitty::swap_adjacent( x, v ), [&]( uint64_t m ) { return val( x, with( with( m, v, ( m >> ( v + 1 ) ) & 1 ), v + 1, ( m >> v ) & 1 ) ); }, "adjacent-swap" );
    TT p = proto;
    bool c = nat::rnd( 2 );
    kitty::create_nth_var( p, v, c );
    same( p, [&]( uint64_t m ) { return ( ( m >> v ) & 1 ) != c; }, "projection" );
    bool dep = false;
    for ( uint64_t m = 0; m < len; ++m ) dep |= val( x, m ) != val( x, m ^ ( 1ull << v ) );
    vf_assert( kitty::has_var( x, v ) == dep, "support-test" );
  }
  TT r = x;
  auto sup = kitty::min_base_inplace( r );
  for ( size_t i = 0; i + 1 < sup.size(); ++i ) vf_assert( sup[i] < sup[i + 1], "support-is-sorted" );
  for ( uint32_t v = 0; v < n; ++v ) vf_assert( ( std::find( sup.begin(), sup.end(), v ) != sup.end() ) == kitty::has_var( x, v ), "support-lists-the-essential-variables" );
  same( r, [&]( uint64_t m ) { uint64_t e = 0; for ( size_t i = 0; i < sup.size(); ++i ) e = with( e, sup[i], ( m >> i ) & 1 ); return val( x, e ); }, "compressed-function" );
  auto s = kitty::shrink_to( r, (unsigned)sup.size() );
  for ( uint64_t m = 0; m < ( 1ull << sup.size() ); ++m ) vf_assert( kitty::get_bit( s, m ) == val( r, m ), "shrinking" );
  auto e = kitty::extend_to( s, n + 1 );
  for ( uint64_t m = 0; m < 2 * len; ++m ) vf_assert( kitty::get_bit( e, m ) == val( r, m & ( len - 1 ) ), "extension" );
  kitty::expand_inplace( r, sup );
  same( r, [&]( uint64_t m ) { return val( x, m ); }, "expansion-restores-the-function" );
  r = x;
  uint64_t k = nat::rnd( len );
  kitty::flip_bit( r, k );
  same( r, [&]( uint64_t m ) { return val( x, m ) != ( m == k ); }, "flip-bit" );
  kitty::set_bit( r, k );
  same( r, [&]( uint64_t m ) { return val( x, m ) || m == k; }, "set-bit" );
  kitty::clear_bit( r, k );
  same( r, [&]( uint64_t m ) { return val( x, m ) && m != k; }, "clear-bit" );
}
VF_NATIVE( large_tables )
{
  switch ( nat::rnd( 8 ) )
  {
  case 0: large_table( kitty::static_truth_table<9>(), kitty::static_truth_table<9>() ); break;
  case 1: large_table( kitty::static_truth_table<7>(), kitty::static_truth_table<7>() ); break;
  case 2: large_table( kitty::static_truth_table<10>(), kitty::static_truth_table<10>() ); break;
  default: { uint32_t n = nat::rnd( 13 ); large_table( dynamic_truth_table( n ), dynamic_truth_table( n ) ); }
  }
}
#endif
