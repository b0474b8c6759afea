// C25: simulation gives every node and output the value of its function.
// vf-native: g++ openmp
#include <memory>
#include <cassert>
#include <string>
#include <algorithm>
#include "aig_sym.hpp"
#include "kitty/kitty.hpp"
#include "algorithms/simulation.hpp"
typedef kitty::static_truth_table<6> TT6;
#ifdef VF_SYMBOLIC
static aig_network* A;
static anode* ND;
static uint64_t NN, NI, G, P;
static uint64_t* PIV; /* the values of the inputs, by position */
static TT6* VAL;      /* the values of the nodes */
static uint64_t C0;
struct any_simulator
{
  TT6 compute_constant( bool v ) const { TT6 t; t._bits = v ? ~C0 : C0; return t; }
  TT6 compute_pi( uint32_t i ) const { vf_assert( i < A->_storage->data.num_pis, "input-position-in-range" ); TT6 t; t._bits = PIV[i]; return t; }
  TT6 compute_not( TT6 const& v ) const { TT6 t; t._bits = ~v._bits; return t; }
};
typedef node_map<TT6, aig_network> map_t;
struct raw_map { aig_network const* ntk; std::vector<TT6>* data; void* rc; };
static_assert( sizeof( raw_map ) == sizeof( map_t ) );
static void new_map( raw_map* self, aig_network const* n )
{
  vf_assert( n == A, "map-of-this-network" );
  auto* v = (std::vector<TT6>*)__vf_alloc( sizeof( std::vector<TT6> ) );
  vf_vector( *v, "values", NN );
  VAL = v->data();
  self->ntk = n;
  self->data = v;
  self->rc = nullptr;
}
static bool live_gate( uint64_t i ) { return is_gate( ND, i ) && !( ND[i].data[0].h1 >> 31 ); }
static uint64_t edge( aptr p ) { return p.weight ? ~VAL[p.index]._bits : VAL[p.index]._bits; }
static bool agrees( uint64_t i ) { return VAL[i]._bits == ( edge( ND[i].children[0] ) & edge( ND[i].children[1] ) ); }
static uint64_t input( uint64_t i ) { return A->_storage->inputs.data()[i]; }
static bool is_input_node( uint64_t n, uint64_t i ) { return n != 0 && n < NN && ND[n].children[0].data == i && ND[n].children[1].data == i; }
static void mk()
{
  A = &mk_aig( NN );
  ND = A->_storage->nodes.data();
  NI = A->_storage->inputs.size();
  PIV = (uint64_t*)__vf_symarray( "PIV", 8, ~0ull );
  /* the network is stored in topological order, input nodes know their position */
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !live_gate( i ) || ( ND[i].children[0].index < i && ND[i].children[1].index < i ); } );
  vf_assume_forall( 0, NI, []( uint64_t i ) -> bool { return is_input_node( input( i ), i ); } );
  C0 = vf_u64( "constant" );
}
/* after simulation every gate has the value of its fanins, inputs and the constant have the values of the simulator: all values are the functions of the nodes */
VF_PROOF( node_values )
{
  mk();
  G = vf_range( "gate", 0, NN );
  P = vf_range( "position", 0, 1ull << 32 );
  vf_contract( "::node_map(iFPGA::aig_network const&)", &new_map );
  vf_option( "loops_inv", 1 );
  auto gates = []( uint64_t i ) -> bool { return G >= i || !live_gate( G ) || agrees( G ); };
  auto some = []( uint64_t i ) -> bool { return P >= i || P >= A->_storage->data.num_pis || VAL[input( P )]._bits == PIV[P]; };
  auto all = []() -> bool { return P >= A->_storage->data.num_pis || VAL[input( P )]._bits == PIV[P]; };
  auto zero = []() -> bool { return VAL[0]._bits == C0; };
  vf_loop_inv1( gates );
  vf_loop_inv1( some );
  vf_loop_inv0( all );
  vf_loop_inv0( zero );
  map_t m = simulate_nodes<TT6, aig_network, any_simulator>( *A, any_simulator() );
  vf_assert( ( (raw_map&)m ).data->data() == VAL && ( (raw_map&)m ).ntk == A, "returns-the-map" );
  vf_assert( !live_gate( G ) || agrees( G ), "every-gate-has-the-value-of-its-fanins" );
  vf_assert( P >= A->_storage->data.num_pis || VAL[input( P )]._bits == PIV[P], "inputs-have-their-values" );
  vf_assert( VAL[0]._bits == C0, "constant-value" );
  vf_cover( "end" );
}
static TT6* OUT;
static void nodes_simulated( raw_map* self, aig_network const* n, any_simulator const* ) { new_map( self, n ); }
static void new_outputs( std::vector<TT6>* self, unsigned long n, void* )
{
  vf_assert( n == A->_storage->data.num_pos, "one-value-per-output" );
  vf_vector( *self, "outputs", n );
  OUT = self->data();
}
static bool output_value( uint64_t i ) { return OUT[i]._bits == edge( A->_storage->outputs.data()[i] ); }
/* every output has the value of its driver, complemented when the output is */
VF_PROOF( output_values )
{
  mk();
  P = vf_range( "position", 0, 1ull << 32 );
  vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= A->_storage->data.num_pos || A->_storage->outputs.data()[i].index < NN; } );
  vf_contract( "simulate_nodes<", &nodes_simulated );
  vf_contract( "::vector(unsigned long, std::allocator<kitty::static_truth_table<6u", &new_outputs );
  vf_option( "loops_inv", 1 );
  auto some = []( uint64_t i ) -> bool { return P >= i || P >= A->_storage->data.num_pos || output_value( P ); };
  vf_loop_inv1( some );
  std::vector<TT6> r = simulate<TT6, aig_network, any_simulator>( *A, any_simulator() );
  vf_assert( r.size() == A->_storage->data.num_pos && r.data() == OUT, "one-value-per-output" );
  vf_assert( P >= A->_storage->data.num_pos || output_value( P ), "output-has-the-value-of-its-driver" );
  vf_cover( "end" );
}
#else
#include "network/klut_network.hpp"
using namespace iFPGA;
/* values of all nodes for one input assignment, computed from the structure */
static std::vector<char> evaluate( aig_network const& a, std::vector<bool> const& in )
{
  std::vector<char> v( a.size(), 0 );
  for ( uint32_t i = 0; i < in.size(); ++i ) v[a._storage->inputs[i]] = in[i];
  for ( uint64_t n = 1; n < a.size(); ++n )
  {
    if ( a.is_ci( n ) || a.is_dead( n ) ) continue;
    auto const& c = a._storage->nodes[n].children;
    v[n] = ( v[c[0].index] != c[0].weight ) && ( v[c[1].index] != c[1].weight );
  }
  return v;
}
static std::vector<char> evaluate( klut_network const& k, std::vector<bool> const& in )
{
  std::vector<char> v( k.size(), 0 );
  v[1] = 1;
  for ( uint32_t i = 0; i < in.size(); ++i ) v[k._storage->inputs[i]] = in[i];
  k.foreach_gate( [&]( auto const& n ) {
    uint32_t index = 0, i = 0;
    for ( auto const& c : k._storage->nodes[n].children ) index |= (uint32_t)v[c.index] << i++;
    v[n] = kitty::get_bit( k.node_function( n ), index );
  } );
  return v;
}
static std::vector<bool> minterm( uint32_t pis, uint64_t m )
{
  std::vector<bool> in;
  for ( uint32_t i = 0; i < pis; ++i ) in.push_back( ( m >> i ) & 1 );
  return in;
}
template<class N> static bool output_of( N const& n, std::vector<char> const& v, uint32_t k )
{
  auto const& o = n._storage->outputs[k];
  if constexpr ( std::is_same_v<N, aig_network> ) return v[o.index] != o.weight;
  return v[o.index];
}
template<class N> static void check_tables( N const& n, uint32_t pis )
{
  std::vector<std::vector<char>> ref;
  for ( uint64_t m = 0; m < ( 1ull << pis ); ++m ) ref.push_back( evaluate( n, minterm( pis, m ) ) );
  default_simulator<kitty::dynamic_truth_table> ds( pis );
  auto dn = simulate_nodes<kitty::dynamic_truth_table>( n, ds );
  auto dout = simulate<kitty::dynamic_truth_table>( n, ds );
  auto sn = simulate_nodes<TT6>( n );
  auto sout = simulate<TT6>( n );
  vf_assert( dout.size() == n.num_pos() && sout.size() == n.num_pos(), "one-value-per-output" );
  std::vector<uint64_t> nodes;
  for ( uint32_t i = 0; i < pis; ++i ) nodes.push_back( n._storage->inputs[i] );
  n.foreach_gate( [&]( auto const& g ) { nodes.push_back( g ); } );
  nodes.push_back( 0 );
  if constexpr ( !std::is_same_v<N, aig_network> ) nodes.push_back( 1 );
  for ( uint64_t m = 0; m < 64; ++m )
  {
    auto const& v = ref[m & ( ( 1ull << pis ) - 1 )];
    for ( auto g : nodes )
    {
      vf_assert( kitty::get_bit( sn[g], m ) == (bool)v[g], "static-table-of-node" );
      if ( m < ref.size() ) vf_assert( kitty::get_bit( dn[g], m ) == (bool)v[g], "dynamic-table-of-node" );
    }
    for ( uint32_t k = 0; k < n.num_pos(); ++k )
    {
      vf_assert( kitty::get_bit( sout[k], m ) == output_of( n, v, k ), "static-table-of-output" );
      if ( m < ref.size() ) vf_assert( kitty::get_bit( dout[k], m ) == output_of( n, v, k ), "dynamic-table-of-output" );
    }
  }
  for ( int t = 0; t < 4; ++t )
  {
    uint64_t m = nat::rnd( ref.size() );
    auto b = simulate<bool>( n, default_simulator<bool>( minterm( pis, m ) ) );
    auto w = simulate<bool>( n, input_word_simulator( m ) );
    auto bn = simulate_nodes<bool>( n, default_simulator<bool>( minterm( pis, m ) ) );
    for ( uint32_t k = 0; k < n.num_pos(); ++k ) vf_assert( b[k] == output_of( n, ref[m], k ) && w[k] == b[k], "single-assignment" );
    for ( auto g : nodes ) vf_assert( bn[g] == (bool)ref[m][g], "single-assignment-of-node" );
  }
}
VF_NATIVE( simulate_aig )
{
  aig_network a;
  nat::shape s = nat::pick_shape( 6, 30, 5 );
  nat::random_aig( a, s );
  vf_note( "pis " + std::to_string( s.pis ) + " gates " + std::to_string( a.num_gates() ) );
  check_tables( a, s.pis );
}
VF_NATIVE( simulate_lut )
{
  klut_network k;
  uint32_t pis = 1 + nat::rnd( 6 ), gates = nat::rnd( 15 );
  std::vector<klut_network::signal> v{k.get_constant( false ), k.get_constant( true )};
  for ( uint32_t i = 0; i < pis; ++i ) v.push_back( k.create_pi() );
  for ( uint32_t i = 0; i < gates; ++i )
  {
    uint32_t w = 1 + nat::rnd( 5 );
    std::vector<klut_network::signal> ch;
    for ( uint32_t j = 0; j < w; ++j ) ch.push_back( v[nat::rnd( v.size() )] );
    kitty::dynamic_truth_table t( w );
    kitty::create_random( t, nat::rnd() );
    v.push_back( k.create_node( ch, t ) );
  }
  for ( uint32_t i = 0; i < 1 + nat::rnd( 4 ); ++i ) k.create_po( v[nat::rnd( v.size() )] );
  vf_note( "pis " + std::to_string( pis ) + " luts " + std::to_string( k.num_gates() ) );
  check_tables( k, pis );
}
/* tables over explicit patterns: all at once, and brought up to date block by block after patterns were added */
VF_NATIVE( simulate_patterns )
{
  aig_network a;
  nat::shape s = nat::pick_shape( 6, 25, 4 );
  nat::random_aig( a, s );
  std::vector<std::vector<bool>> pats;
  uint32_t n0 = 1 + nat::rnd( 150 );
  std::vector<kitty::partial_truth_table> init( s.pis, kitty::partial_truth_table( n0 ) );
  for ( uint32_t j = 0; j < n0; ++j )
  {
    pats.push_back( minterm( s.pis, nat::rnd() ) );
    for ( uint32_t i = 0; i < s.pis; ++i ) if ( pats[j][i] ) kitty::set_bit( init[i], j );
  }
  partial_simulator sim( init );
  unordered_node_map<kitty::partial_truth_table, aig_network> val( a );
  simulate_nodes( a, val, sim, true );
  std::vector<uint64_t> nodes{0};
  for ( uint32_t i = 0; i < s.pis; ++i ) nodes.push_back( a._storage->inputs[i] );
  a.foreach_gate( [&]( auto const& g ) { nodes.push_back( g ); } );
  auto check = [&]( uint64_t g ) {
    vf_assert( val[g].num_bits() == (int)pats.size(), "one-bit-per-pattern" );
    for ( uint32_t j = 0; j < pats.size(); ++j ) vf_assert( kitty::get_bit( val[g], j ) == (bool)evaluate( a, pats[j] )[g], "pattern-value-of-node" );
  };
  for ( auto g : nodes ) check( g );
  uint32_t rounds = nat::rnd( 4 );
  vf_note( "pis " + std::to_string( s.pis ) + " gates " + std::to_string( a.num_gates() ) + " patterns " + std::to_string( n0 ) + " rounds " + std::to_string( rounds ) );
  for ( uint32_t r = 0; r < rounds; ++r )
  {
    uint32_t room = 64 - ( pats.size() & 63 ), add = 1 + nat::rnd( room );
    if ( nat::rnd( 2 ) ) add = room; /* up to the end of the block */
    for ( uint32_t j = 0; j < add; ++j )
    {
      pats.push_back( minterm( s.pis, nat::rnd() ) );
      sim.add_pattern( pats.back() );
    }
    if ( nat::rnd( 2 ) && nodes.size() > s.pis + 1 )
    {
      uint64_t g = nodes[s.pis + 1 + nat::rnd( nodes.size() - s.pis - 1 )];
      simulate_node( a, g, val, sim );
      check( g );
    }
    simulate_nodes( a, val, sim, false );
    for ( auto g : nodes ) check( g );
  }
}
#endif
