// Contract language used by the drivers in /verif/drivers.
//  * VF_SYMBOLIC: every vf_* call is an intrinsic of engine/symex.py (deductive verifier over LLVM IR)
//  * otherwise:   the same contract text is executed natively (replay of counterexamples, bounded contract execution)
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <type_traits>

#ifdef VF_SYMBOLIC
extern "C" {
uint64_t __vf_in( const char* name, int bits );
void __vf_assume( bool );
void __vf_assert( bool, const char* );
void __vf_cover( const char* );
void __vf_forall( int kind, const char* name, uint64_t lo, uint64_t hi, bool ( *fn )( void*, uint64_t ), void* ctx );
void* __vf_symarray( const char* name, uint64_t stride, uint64_t len );
void* __vf_alloc( uint64_t size );
void* __vf_inf( void* );
void __vf_loop_inv( int arity, void* fn, void* ctx );
void __vf_loop_over( const char* region ); /* the candidates that follow are only about loop variables pointing into arrays of this name ("" = all) */
void __vf_contract( const char* pat, void* fn, int rec );
void __vf_option( const char* name, uint64_t v );
uint32_t __vf_call( const char* pattern, ... ); /* the only function of the module whose demangled name contains the pattern */
void __vf_havoc_array( void* );
void __vf_havoc_field( void*, uint64_t offset ); /* forget one word of every element */
void __vf_assign( void* dst, const void* src );
}
#define VF_PROOF( name ) extern "C" __attribute__( ( used, noinline ) ) void vfp_##name()
#define VF_NATIVE( name ) [[maybe_unused]] static void vfn_##name()
static inline bool vf_native() { return false; }
#else
#include <chrono>
#include <cstdio>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
namespace vfrt {
struct skip {};
struct fail { std::string name; };
struct test { const char* name; void ( *fn )(); bool native; };
inline std::vector<test>& tests() { static std::vector<test> t; return t; }
inline std::mt19937_64& rng() { static std::mt19937_64 r( 1 ); return r; }
inline std::vector<std::pair<std::string, uint64_t>>& log() { static std::vector<std::pair<std::string, uint64_t>> l; return l; }
inline std::map<std::string, std::vector<uint64_t>>& script() { static std::map<std::string, std::vector<uint64_t>> s; return s; }
inline std::map<std::string, size_t>& scriptpos() { static std::map<std::string, size_t> s; return s; }
inline bool& scripted() { static bool b = false; return b; }
inline uint64_t& covers() { static uint64_t c = 0; return c; }
inline uint64_t& checks() { static uint64_t c = 0; return c; }
inline std::string& note() { static std::string s; return s; }
inline std::chrono::steady_clock::time_point& deadline() { static std::chrono::steady_clock::time_point d; return d; }
inline uint64_t& iter() { static uint64_t i = 0; return i; }
inline uint64_t pick( int bits )
{
  auto& r = rng();
  uint64_t m = bits >= 64 ? ~0ull : ( ( 1ull << bits ) - 1 );
  uint64_t v = r();
  switch ( r() % 8 )
  {
  case 0: v = v % 4; break;
  case 1: v = v % 16; break;
  case 2: v = v % 80; break;
  case 3: v = m - ( v % 4 ); break;
  case 4: v = 1ull << ( v % bits ); break;
  case 5: v = ( 1ull << ( v % bits ) ) - 1; break;
  default: break;
  }
  return v & m;
}
struct reg { reg( const char* n, void ( *f )(), bool nat ) { tests().push_back( { n, f, nat } ); } };
} // namespace vfrt
inline uint64_t __vf_in( const char* name, int bits )
{
  uint64_t v;
  auto& sc = vfrt::script();
  auto it = sc.find( name );
  if ( vfrt::scripted() && it != sc.end() && vfrt::scriptpos()[name] < it->second.size() )
    v = it->second[vfrt::scriptpos()[name]++];
  else
    v = vfrt::pick( bits );
  vfrt::log().emplace_back( name, v );
  return v;
}
inline void __vf_assume( bool b ) { if ( !b ) throw vfrt::skip{}; }
inline void __vf_assert( bool b, const char* n ) { ++vfrt::checks(); if ( !b ) throw vfrt::fail{ n }; }
inline void __vf_cover( const char* ) { ++vfrt::covers(); }
#define VF_PROOF( name ) static void vfp_##name(); static vfrt::reg vfr_##name( #name, vfp_##name, false ); static void vfp_##name()
#define VF_NATIVE( name ) static void vfn_##name(); static vfrt::reg vfr_n_##name( #name, vfn_##name, true ); static void vfn_##name()
static inline bool vf_native() { return true; }
inline bool vf_time_left() { return std::chrono::steady_clock::now() < vfrt::deadline(); }
inline void vf_note( std::string const& s ) { vfrt::note() = s; }
#endif

static inline uint64_t vf_u64( const char* n ) { return __vf_in( n, 64 ); }
static inline uint32_t vf_u32( const char* n ) { return (uint32_t)__vf_in( n, 32 ); }
static inline uint16_t vf_u16( const char* n ) { return (uint16_t)__vf_in( n, 16 ); }
static inline uint8_t vf_u8( const char* n ) { return (uint8_t)__vf_in( n, 8 ); }
static inline bool vf_bool( const char* n ) { return __vf_in( n, 8 ) & 1; }
static inline void vf_assume( bool b ) { __vf_assume( b ); }
static inline void vf_assert( bool b, const char* n ) { __vf_assert( b, n ); }
static inline void vf_cover( const char* n ) { __vf_cover( n ); }
/* value in [lo,hi): natively reduced modulo, so that native runs are not all skipped */
static inline uint64_t vf_range( const char* n, uint64_t lo, uint64_t hi )
{
  uint64_t v = __vf_in( n, 64 );
#ifdef VF_SYMBOLIC
  __vf_assume( v >= lo && v < hi );
  return v;
#else
  if ( v >= lo && v < hi ) return v;
  return lo + v % ( hi - lo );
#endif
}

#ifdef VF_SYMBOLIC
template<class F> bool vf_thunk1( void* c, uint64_t i ) { return ( *(F*)c )( i ); }
template<class F> bool vf_thunk0( void* c ) { return ( *(F*)c )(); }
template<class F> bool vf_thunk2( void* c, uint64_t i, uint64_t j ) { return ( *(F*)c )( i, j ); }
template<class F> void vf_assume_forall( uint64_t lo, uint64_t hi, F&& f ) { __vf_forall( 0, "", lo, hi, &vf_thunk1<std::remove_reference_t<F>>, (void*)&f ); }
template<class F> void vf_assert_forall( const char* n, uint64_t lo, uint64_t hi, F&& f ) { __vf_forall( 1, n, lo, hi, &vf_thunk1<std::remove_reference_t<F>>, (void*)&f ); }
/* candidate loop invariants (kept only when inductive); f must be an lvalue that outlives the call under proof */
template<class F> void vf_loop_inv0( F& f ) { __vf_loop_inv( 0, (void*)&vf_thunk0<F>, (void*)&f ); }
template<class F> void vf_loop_inv1( F& f ) { __vf_loop_inv( 1, (void*)&vf_thunk1<F>, (void*)&f ); }
template<class F> void vf_loop_inv2( F& f ) { __vf_loop_inv( 2, (void*)&vf_thunk2<F>, (void*)&f ); }
/* quantified candidates: for all i f(i), for all i f(loop variable, i) */
template<class F> void vf_loop_forall0( F& f ) { __vf_loop_inv( 10, (void*)&vf_thunk1<F>, (void*)&f ); }
template<class F> void vf_loop_forall1( F& f ) { __vf_loop_inv( 11, (void*)&vf_thunk2<F>, (void*)&f ); }
template<class F> void vf_contract( const char* pat, F* fn ) { __vf_contract( pat, (void*)fn, 0 ); }
template<class F> void vf_contract_rec( const char* pat, F* fn ) { __vf_contract( pat, (void*)fn, 1 ); }
static inline void vf_option( const char* n, uint64_t v ) { __vf_option( n, v ); }
#else
template<class F> void vf_assume_forall( uint64_t lo, uint64_t hi, F&& f ) { for ( uint64_t i = lo; i < hi; ++i ) if ( !f( i ) ) throw vfrt::skip{}; }
template<class F> void vf_assert_forall( const char* n, uint64_t lo, uint64_t hi, F&& f ) { ++vfrt::checks(); for ( uint64_t i = lo; i < hi; ++i ) if ( !f( i ) ) throw vfrt::fail{ n }; }
template<class F> void vf_loop_inv0( F& ) {}
template<class F> void vf_loop_inv1( F& ) {}
template<class F> void vf_loop_inv2( F& ) {}
template<class F> void vf_loop_forall0( F& ) {}
template<class F> void vf_loop_forall1( F& ) {}
template<class F> void vf_contract( const char*, F* ) {}
template<class F> void vf_contract_rec( const char*, F* ) {}
static inline void vf_option( const char*, uint64_t ) {}

namespace vfrt {
inline const char*& outpath() { static const char* p = nullptr; return p; }
inline const char*& current() { static const char* p = ""; return p; }
inline uint64_t& curseed() { static uint64_t s = 0; return s; }
inline void dump( const char* what )
{
  if ( !outpath() ) return;
  FILE* f = fopen( outpath(), "w" );
  if ( !f ) return;
  fprintf( f, "# proof %s\n# failed %s\n# iteration-seed %llu\n", current(), what, (unsigned long long)curseed() );
  if ( !note().empty() ) fprintf( f, "# case %s\n", note().c_str() );
  for ( auto& [n, v] : log() ) fprintf( f, "%s %llu\n", n.c_str(), (unsigned long long)v );
  fclose( f );
}
inline void onsig( int s )
{
  char b[64];
  snprintf( b, sizeof b, "crash-signal-%d", s );
  dump( b );
  printf( "FAIL %s %s\n", current(), b );
  fflush( stdout );
  _exit( 3 );
}
inline int main_( int argc, char** argv )
{
  std::string mode, name, file;
  uint64_t seed = 1, ms = 1000, maxit = ~0ull;
  for ( int i = 1; i < argc; ++i )
  {
    std::string a = argv[i];
    if ( a == "--list" ) { for ( auto& t : tests() ) printf( "%s %s\n", t.native ? "native" : "proof", t.name ); return 0; }
    else if ( a == "--run" ) { mode = "run"; name = argv[++i]; }
    else if ( a == "--replay" ) { mode = "replay"; name = argv[++i]; file = argv[++i]; }
    else if ( a == "--seed" ) seed = strtoull( argv[++i], 0, 10 );
    else if ( a == "--ms" ) ms = strtoull( argv[++i], 0, 10 );
    else if ( a == "--iters" ) maxit = strtoull( argv[++i], 0, 10 );
    else if ( a == "--out" ) outpath() = argv[++i];
  }
  signal( SIGPROF, []( int ) { dump( "does-not-terminate" ); printf( "FAIL %s does-not-terminate (one case used 90 s of processor time)\n", current() ); fflush( stdout ); _exit( 3 ); } );
  for ( int s : { SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS } ) signal( s, onsig );
  for ( auto& t : tests() )
  {
    if ( name != t.name ) continue;
    current() = t.name;
    deadline() = std::chrono::steady_clock::now() + std::chrono::milliseconds( ms );
    uint64_t runs = 0, skips = 0;
    uint64_t single = 0;
    bool has_single = false;
    if ( mode == "replay" )
    {
      FILE* f = fopen( file.c_str(), "r" );
      if ( !f ) { printf( "cannot open %s\n", file.c_str() ); return 2; }
      char line[512], nm[256];
      unsigned long long v;
      while ( fgets( line, sizeof line, f ) )
      {
        if ( line[0] == '#' ) { if ( sscanf( line, "# iteration-seed %llu", &v ) == 1 ) { single = v; has_single = true; } continue; }
        if ( sscanf( line, "%255s %llu", nm, &v ) == 2 ) script()[nm].push_back( v );
      }
      fclose( f );
      scripted() = true;
      maxit = 1;
    }
    while ( runs < maxit && vf_time_left() )
    {
      uint64_t is = has_single ? single : seed * 1000003ull + runs;
      rng().seed( is );
      curseed() = is;
      iter() = has_single ? single % 1000003ull : runs;
      log().clear();
      scriptpos().clear();
      note().clear();
      ++runs;
      struct itimerval guard = { { 0, 0 }, { 90, 0 } };
      setitimer( ITIMER_PROF, &guard, nullptr );
      try { t.fn(); }
      catch ( skip& ) { ++skips; }
      catch ( fail& f )
      {
        dump( f.name.c_str() );
        printf( "FAIL %s %s runs=%llu\n", t.name, f.name.c_str(), (unsigned long long)runs );
        return 3;
      }
      catch ( std::exception& e )
      {
        dump( e.what() );
        printf( "FAIL %s exception:%s runs=%llu\n", t.name, e.what(), (unsigned long long)runs );
        return 3;
      }
      if ( t.native && mode != "replay" && maxit == 1 ) break;
      if ( runs == 100 && !t.native && checks() + skips + covers() == 0 ) { runs = 0; break; } /* a contract over ghost state only: nothing to execute */
    }
    printf( "OK %s runs=%llu skips=%llu checks=%llu covers=%llu\n", t.name, (unsigned long long)runs, (unsigned long long)skips, (unsigned long long)checks(), (unsigned long long)covers() );
    return 0;
  }
  printf( "no such proof %s\n", name.c_str() );
  return 2;
}
} // namespace vfrt
int main( int argc, char** argv ) { return vfrt::main_( argc, argv ); }
#endif
