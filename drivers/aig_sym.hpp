// Symbolic AIG: an arbitrary network of arbitrary size over raw storage (deductive mode), or a random one built by the public API (native mode).
#pragma once
#include "vf.h"
#include "native_aig.hpp"
#include "database/network/aig_network.hpp"
using namespace iFPGA;
typedef aig_network::signal sig;
typedef aig_storage::node_type anode;
typedef aig_storage::node_type::pointer_type aptr;

#ifdef VF_SYMBOLIC
template<class T>
static inline void vf_vector( std::vector<T>& v, const char* name, uint64_t len, uint64_t stride = sizeof( T ) )
{
  T* p = (T*)__vf_symarray( name, stride, ~0ull );
  v._M_impl._M_start = p;
  v._M_impl._M_finish = p + len;
  v._M_impl._M_end_of_storage = (T*)__vf_inf( p );
}
/* an AIG object whose storage holds N arbitrary nodes, B buckets, arbitrary inputs / outputs */
static inline aig_network& mk_aig( uint64_t& N )
{
  aig_network* a = (aig_network*)__vf_alloc( sizeof( aig_network ) );
  aig_storage* s = (aig_storage*)__vf_alloc( sizeof( aig_storage ) );
  auto* ev = (network_events<aig_network>*)__vf_alloc( sizeof( network_events<aig_network> ) );
  a->_storage._M_ptr = s;
  a->_storage._M_refcount._M_pi = nullptr;
  a->_events._M_ptr = ev;
  a->_events._M_refcount._M_pi = nullptr;
  for ( auto* v : { (std::vector<int>*)&ev->on_add, (std::vector<int>*)&ev->on_modified, (std::vector<int>*)&ev->on_delete } )
  {
    v->_M_impl._M_start = nullptr;
    v->_M_impl._M_finish = nullptr;
    v->_M_impl._M_end_of_storage = nullptr;
  }
  N = vf_range( "num_nodes", 1, 1ull << 31 );
  vf_vector( s->nodes, "nodes", N );
  uint64_t I = vf_range( "num_inputs", 0, 1ull << 31 );
  vf_vector( s->inputs, "inputs", I );
  uint64_t O = vf_range( "num_outputs", 0, 1ull << 31 );
  vf_vector( s->outputs, "outputs", O );
  uint64_t B = vf_range( "num_buckets", 1, 1ull << 31 );
  vf_vector( s->hash, "hash", B );
  s->num_entries = vf_range( "num_entries", 0, N );
  s->data.num_pis = vf_range( "num_pis", 0, I + 1 );
  s->data.num_pos = vf_range( "num_pos", 0, O + 1 );
  s->data.trav_id = vf_u32( "trav_id" );
  vf_vector( s->data.latches, "latches", vf_range( "num_latches", 0, 1ull << 31 ) );
  return *a;
}
/* ghost: a network value */
#else
static inline aig_network& mk_aig( uint64_t& N )
{
  static aig_network* keep = nullptr;
  delete keep;
  keep = new aig_network();
  auto s = nat::pick_shape( 8, 40, 5 );
  nat::random_aig( *keep, s );
  N = keep->size();
  return *keep;
}
#endif
static inline bool is_gate( anode const* nd, uint64_t i ) { return i != 0 && nd[i].children[0].data != nd[i].children[1].data; }
