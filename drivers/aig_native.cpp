// Bounded native contracts over the AIG container (executed on the real code through its public API).
#include "vf.h"
#include "native_aig.hpp"
#include "database/network/aig_network.hpp"
#include "operations/algorithms/ref_deref.hpp"
#include "utils/cost_functions.hpp"
#include <list>
using namespace iFPGA;
using namespace nat;
typedef aig_network::signal sig;

static const int W = 7;
/* C01: every constructor returns a literal whose function is the named function; existing nodes keep theirs */
VF_NATIVE( ctor_semantics )
{
  aig_network a;
  shape s = pick_shape( 8, 30, 3 );
  random_aig( a, s );
  auto ops = 4 + rnd( 12 );
  for ( uint64_t i = 0; i < ops; ++i )
  {
    uint64_t n0 = a.size();
    auto sp = [&]() { return sig( rnd( 4 ) ? rnd( n0 ) : rnd( std::min<uint64_t>( n0, 3 ) ), rnd( 2 ) ); };
    sig x = sp(), y = sp(), z = sp();
    if ( rnd( 6 ) == 0 ) y = x;
    if ( rnd( 6 ) == 0 ) y = !x;
    if ( rnd( 6 ) == 0 ) z = rnd( 2 ) ? y : !x;
    std::vector<sig> fs;
    uint64_t w = rnd( 9 );
    for ( uint64_t q = 0; q < w; ++q ) fs.push_back( sp() );
    uint64_t k = rnd( 18 );
    auto snapshot = a._storage->nodes;
    auto gates0 = a.num_gates();
    sig r = x;
    switch ( k )
    {
    case 0: r = a.create_and( x, y ); break;
    case 1: r = a.create_nand( x, y ); break;
    case 2: r = a.create_or( x, y ); break;
    case 3: r = a.create_nor( x, y ); break;
    case 4: r = a.create_lt( x, y ); break;
    case 5: r = a.create_le( x, y ); break;
    case 6: r = a.create_xor( x, y ); break;
    case 7: r = a.create_xnor( x, y ); break;
    case 8: r = a.create_ite( x, y, z ); break;
    case 9: r = a.create_maj( x, y, z ); break;
    case 10: r = a.create_xor3( x, y, z ); break;
    case 11: r = a.create_nary_and( fs ); break;
    case 12: r = a.create_nary_or( fs ); break;
    case 13: r = a.create_nary_xor( fs ); break;
    case 14: r = a.create_not( x ); break;
    case 15: r = a.create_buf( x ); break;
    case 16: r = a.clone_node( a, 0, { x, y } ); break;
    case 17: r = a.get_constant( y.complement ); break;
    }
    vf_note( "op " + std::to_string( k ) );
    for ( uint64_t n = 0; n < snapshot.size(); ++n )
      vf_assert( a._storage->nodes[n].children == snapshot[n].children, "existing-node-unchanged" );
    vf_assert( r.index < a.size(), "literal-in-range" );
    vf_assert( a.num_gates() - gates0 == a.size() - snapshot.size(), "gate-count-tracks-new-nodes" );
    auto inv = invariant( a, true, true, true );
    vf_note( "op " + std::to_string( k ) + " " + inv );
    vf_assert( inv.empty(), "representation-invariant" );
    for ( uint64_t b = 0; b < blocks( s.pis ); ++b )
    {
      evaluator<aig_network> e( a );
      e.val[0] = 0;
      for ( uint32_t j = 0; j < s.pis; ++j ) e.val[a._storage->inputs[j]] = pi_word( j, b );
      auto v = [&]( sig q ) { uint64_t t = e.node( q.index ); return q.complement ? ~t : t; };
      uint64_t X = v( x ), Y = v( y ), Z = v( z ), E = 0;
      switch ( k )
      {
      case 0: case 16: E = X & Y; break;
      case 1: E = ~( X & Y ); break;
      case 2: E = X | Y; break;
      case 3: E = ~( X | Y ); break;
      case 4: E = ~X & Y; break;
      case 5: E = ~( X & ~Y ); break;
      case 6: E = X ^ Y; break;
      case 7: E = ~( X ^ Y ); break;
      case 8: E = ( X & Y ) | ( ~X & Z ); break;
      case 9: E = ( X & Y ) | ( X & Z ) | ( Y & Z ); break;
      case 10: E = X ^ Y ^ Z; break;
      case 11: E = ~0ull; for ( auto f : fs ) E &= v( f ); break;
      case 12: for ( auto f : fs ) E |= v( f ); break;
      case 13: for ( auto f : fs ) E ^= v( f ); break;
      case 14: E = ~X; break;
      case 15: E = X; break;
      case 17: E = y.complement ? ~0ull : 0; break;
      }
      vf_assert( v( r ) == E, "constructed-function" );
    }
  }
}
/* C02: a gate requested again is found, not duplicated, through growth and rehashing of the table */
VF_NATIVE( strash_large )
{
  aig_network a;
  uint32_t pis = 3 + rnd( 300 );
  std::vector<sig> in;
  for ( uint32_t i = 0; i < pis; ++i ) in.push_back( a.create_pi() );
  std::map<std::pair<uint64_t, uint64_t>, sig> model;
  uint64_t target = rnd( 3 ) ? 200 + rnd( 3000 ) : 21000 + rnd( 9000 );
  uint64_t ops = 0;
  while ( model.size() < target && ++ops < 3 * target )
  {
    sig x( rnd( a.size() ), rnd( 2 ) ), y( rnd( a.size() ), rnd( 2 ) );
    if ( x.index == y.index || !x.index || !y.index ) continue;
    if ( x.index > y.index ) std::swap( x, y );
    auto key = std::make_pair( x.data, y.data );
    auto it = model.find( key );
    bool found = rnd( 2 ) ? a.find_and( x, y ) : a.find_and( y, x );
    vf_assert( found == ( it != model.end() ), "find-and-iff-created" );
    uint64_t n0 = a.size();
    sig r = rnd( 2 ) ? a.create_and( x, y ) : a.create_and( y, x );
    if ( it != model.end() )
    {
      vf_assert( r == it->second, "same-literal-for-same-gate" );
      vf_assert( a.size() == n0, "no-duplicate-node" );
    }
    else
    {
      vf_assert( a.size() == n0 + 1 && r == sig( n0, 0 ), "fresh-node" );
      model[key] = r;
    }
  }
  vf_assert( a.num_gates() == model.size(), "gate-count" );
  for ( auto& m : model )
    vf_assert( a.create_and( sig( m.first.first ), sig( m.first.second ) ) == m.second, "still-found" );
  vf_assert( a.num_gates() == model.size() && a._storage->hash_size() == model.size(), "gate-count-end" );
}
/* C02: the hash chain as a set under arbitrary insert / erase / reserve histories */
VF_NATIVE( hash_history )
{
  aig_storage st;
  if ( rnd( 2 ) ) st.hash.assign( 1 + rnd( 7 ), 0 );
  std::set<uint64_t> in;
  uint64_t n = 2 + rnd( 60 );
  std::set<std::pair<uint64_t, uint64_t>> keys;
  for ( uint64_t i = 1; i <= n; ++i )
  {
    aig_storage::node_type x{};
    do
    {
      x.children[0].data = rnd( 12 ); x.children[1].data = 12 + rnd( 14 );
    } while ( !keys.insert( { x.children[0].data, x.children[1].data } ).second && keys.size() < 160 );
    st.nodes.push_back( x );
  }
  uint64_t ops = rnd( 200 );
  for ( uint64_t o = 0; o < ops; ++o )
  {
    uint64_t i = 1 + rnd( n );
    uint64_t k = rnd( 10 );
    if ( k < 5 ) { if ( !in.count( i ) ) { st.hash_insert( st.nodes[i], i ); in.insert( i ); } }
    else if ( k < 9 ) { if ( in.count( i ) ) { st.hash_erase( st.nodes[i], i ); in.erase( i ); } }
    else st.hash_reserve( 1 + rnd( 40 ) );
    vf_assert( st.hash_size() == in.size(), "entry-count" );
    for ( uint64_t j = 1; j <= n; ++j )
      vf_assert( st.hash_find( st.nodes[j] ) == ( in.count( j ) ? j : 0 ), "find-iff-member" );
  }
}
/* C03: invariant after arbitrary construction histories, CI / PO bookkeeping */
VF_NATIVE( construction_history )
{
  aig_network a;
  std::vector<sig> pis, ros, pos;
  std::vector<uint64_t> pidx;
  uint64_t ops = 1 + rnd( 60 );
  std::vector<uint64_t> adds;
  a._events->on_add.push_back( [&]( auto const& n ) { adds.push_back( n ); } );
  uint64_t expect_adds = 0;
  for ( uint64_t o = 0; o < ops; ++o )
  {
    uint64_t n0 = a.size();
    auto sp = [&]() { return sig( rnd( n0 ), rnd( 2 ) ); };
    switch ( rnd( 4 ) )
    {
    case 0:
    {
      sig p = a.create_pi();
      vf_assert( p == sig( n0, 0 ) && a.size() == n0 + 1, "pi-fresh" );
      pis.push_back( p );
      break;
    }
    case 1:
    {
      sig f = sp();
      auto i = a.create_po( f );
      vf_assert( i == pos.size(), "po-index" );
      pos.push_back( f );
      break;
    }
    default: { auto g = a.num_gates(); a.create_and( sp(), sp() ); expect_adds += a.num_gates() - g; }
    }
    vf_assert( a.num_pis() == pis.size() && a.num_cis() == pis.size() && a.num_pos() == pos.size() && a.num_cos() == pos.size(), "io-counts" );
    vf_assert( adds.size() == expect_adds, "add-events" );
    auto inv = invariant( a, true, true, true );
    vf_note( inv );
    vf_assert( inv.empty(), "representation-invariant" );
  }
  uint32_t gates = 0, nodes = 0;
  std::vector<uint64_t> order;
  a.foreach_gate( [&]( auto n ) { ++gates; order.push_back( n ); vf_assert( !a.is_pi( n ) && !a.is_ci( n ) && a.is_and( n ) && a.fanin_size( n ) == 2, "gate-kind" ); } );
  a.foreach_node( [&]( auto n ) { ++nodes; } );
  vf_assert( gates == a.num_gates() && nodes == a.size() && nodes == 1 + pis.size() + gates, "iteration-counts" );
  vf_assert( std::is_sorted( order.begin(), order.end() ), "gate-iteration-order" );
  uint32_t k = 0;
  a.foreach_pi( [&]( auto n, auto i ) { vf_assert( i == k && n == pis[k].index && a.pi_at( i ) == n && a.pi_index( n ) == i && a.is_pi( n ) && a.fanin_size( n ) == 0, "pi-iteration" ); ++k; } );
  vf_assert( k == pis.size(), "pi-iteration-count" );
  k = 0;
  a.foreach_po( [&]( auto f, auto i ) { vf_assert( i == k && f == pos[k] && a.po_at( i ) == f, "po-iteration" ); ++k; } );
  vf_assert( k == pos.size(), "po-iteration-count" );
  k = 0;
  a.foreach_ci( [&]( auto n, auto i ) { vf_assert( n == pis[k].index && a.ci_at( i ) == n && a.ci_index( n ) == i, "ci-iteration" ); ++k; } );
  for ( auto n : order )
  {
    std::vector<sig> f;
    a.foreach_fanin( n, [&]( sig const& s ) { f.push_back( s ); } );
    vf_assert( f.size() == 2 && f[0] == a.get_child0( n ) && f[1] == a.get_child1( n ), "fanin-iteration" );
    uint32_t c = 0;
    a.foreach_fanin( n, [&]( sig const& s, uint32_t i ) { vf_assert( i == c && s == f[i], "fanin-index" ); ++c; return true; } );
    vf_assert( c == 2, "fanin-index-count" );
    uint32_t stop = 0;
    a.foreach_fanin( n, [&]( sig const& s ) { ++stop; return false; } );
    vf_assert( stop == 1, "fanin-early-stop" );
  }
}
/* C03: registers next to primary inputs/outputs */
VF_NATIVE( registers )
{
  aig_network a;
  uint32_t np = 1 + rnd( 5 ), nl = rnd( 5 ), no = 1 + rnd( 5 );
  std::vector<sig> cis;
  for ( uint32_t i = 0; i < np; ++i ) cis.push_back( a.create_pi() );
  for ( uint32_t i = 0; i < nl; ++i ) cis.push_back( a.create_ro() );
  for ( uint32_t i = 0; i < 6; ++i ) { auto sp = [&]() { return sig( rnd( a.size() ), rnd( 2 ) ); }; a.create_and( sp(), sp() ); }
  std::vector<sig> cos;
  std::vector<int8_t> rst;
  for ( uint32_t i = 0; i < no; ++i ) { cos.push_back( sig( rnd( a.size() ), rnd( 2 ) ) ); a.create_po( cos.back() ); }
  for ( uint32_t i = 0; i < nl; ++i ) { cos.push_back( sig( rnd( a.size() ), rnd( 2 ) ) ); rst.push_back( (int8_t)rnd( 3 ) - 1 ); a.create_ri( cos.back(), rst.back() ); }
  vf_assert( a.num_pis() == np && a.num_pos() == no && a.num_cis() == np + nl && a.num_cos() == no + nl && a.num_registers() == nl && a.num_latches() == nl, "register-counts" );
  vf_assert( a.is_combinational() == ( nl == 0 ), "combinational" );
  vf_assert( invariant( a, true, true, true ).empty(), "representation-invariant" );
  for ( uint32_t i = 0; i < nl; ++i )
  {
    vf_assert( a.ro_at( i ) == cis[np + i].index && a.is_ro( a.ro_at( i ) ) && !a.is_pi( a.ro_at( i ) ) && a.ro_index( a.ro_at( i ) ) == i, "ro" );
    vf_assert( a.ri_at( i ) == cos[no + i] && a.ro_to_ri( cis[np + i] ) == cos[no + i] && a.latch_reset( i ) == rst[i], "ri" );
  }
  for ( uint32_t i = 0; i < np; ++i ) vf_assert( a.is_pi( cis[i].index ) && !a.is_ro( cis[i].index ), "pi-not-ro" );
  uint32_t k = 0;
  a.foreach_ro( [&]( auto n, auto i ) { vf_assert( n == cis[np + i].index, "ro-iteration" ); ++k; } );
  a.foreach_ri( [&]( auto f, auto i ) { vf_assert( f == cos[no + i], "ri-iteration" ); ++k; } );
  a.foreach_co( [&]( auto f, auto i ) { vf_assert( f == cos[i] && a.co_at( i ) == f, "co-iteration" ); ++k; } );
  vf_assert( k == 2 * nl + no + nl, "register-iteration-count" );
}
/* C24: per-node application data are independent fields */
VF_NATIVE( node_fields )
{
  aig_network a;
  shape s = pick_shape( 5, 20, 4 );
  random_aig( a, s );
  struct F { uint32_t value = 0, visited = 0; bool p, ma = 0, mb = 0; uint32_t fan; bool dead; };
  std::vector<F> m( a.size() );
  a.clear_values();
  a.clear_visited();
  for ( uint64_t n = 0; n < a.size(); ++n ) { m[n].p = a.phase( n ); m[n].ma = a.mark_a( n ); m[n].mb = a.mark_b( n ); m[n].fan = a.fanout_size( n ); }
  uint32_t trav = a.trav_id();
  for ( int o = 0; o < 60; ++o )
  {
    uint64_t n = rnd( a.size() );
    uint32_t v = vfrt::pick( 32 );
    uint64_t k = rnd( 12 );
    vf_note( "op " + std::to_string( k ) );
    switch ( k )
    {
    case 0: a.set_value( n, v ); m[n].value = v; break;
    case 1: vf_assert( a.incr_value( n ) == m[n].value, "incr-returns-old" ); ++m[n].value; break;
    case 2: --m[n].value; vf_assert( uint32_t( a.decr_value( n ) ) == m[n].value, "decr-returns-new" ); break;
    case 3: a.set_visited( n, v ); m[n].visited = v; break;
    case 4: a.phase( n, v & 1 ); m[n].p = v & 1; break;
    case 5: a.mark_a( n, v & 1 ); m[n].ma = v & 1; break;
    case 6: a.mark_b( n, v & 1 ); m[n].mb = v & 1; break;
    case 7: vf_assert( a.incr_fanout_size( n ) == m[n].fan, "incr-fanout-returns-old" ); ++m[n].fan; break;
    case 8: if ( m[n].fan ) { --m[n].fan; vf_assert( a.decr_fanout_size( n ) == m[n].fan, "decr-fanout-returns-new" ); } break;
    case 9: a.clear_values(); for ( auto& x : m ) x.value = 0; break;
    case 10: a.clear_visited(); for ( auto& x : m ) x.visited = 0; break;
    case 11: a.incr_trav_id(); ++trav; break;
    }
    for ( uint64_t j = 0; j < a.size(); ++j )
    {
      vf_assert( a.value( j ) == m[j].value && a.visited( j ) == m[j].visited && a.phase( j ) == m[j].p && a.mark_a( j ) == m[j].ma && a.mark_b( j ) == m[j].mb && a.fanout_size( j ) == m[j].fan && !a.is_dead( j ), "field-independence" );
    }
    vf_assert( a.trav_id() == trav, "trav-id" );
  }
}
/* C24: the stored phase of a gate is its value under the all-zero input assignment */
VF_NATIVE( node_phase )
{
  aig_network a;
  shape s = pick_shape( 6, 60, 3 );
  random_aig( a, s );
  evaluator<aig_network> e( a );
  e.val[0] = 0;
  for ( auto i : a._storage->inputs ) e.val[i] = 0;
  a.foreach_gate( [&]( auto n ) { vf_assert( a.phase( n ) == ( e.node( n ) & 1 ), "phase-is-value-at-zero" ); } );
}
/* C04: substitution of a node by an equivalent-free arbitrary literal has the functional effect of a cofactor-style replacement */
VF_NATIVE( substitute )
{
  aig_network a;
  shape s = pick_shape( 6, 30, 6 );
  random_aig( a, s, rnd( 2 ) );
  std::vector<uint64_t> gates;
  a.foreach_gate( [&]( auto n ) { gates.push_back( n ); } );
  if ( gates.empty() ) return;
  uint64_t rounds = 1 + rnd( 3 );
  for ( uint64_t r = 0; r < rounds; ++r )
  {
    gates.clear();
    a.foreach_gate( [&]( auto n ) { gates.push_back( n ); } );
    if ( gates.empty() ) return;
    uint64_t old = gates[rnd( gates.size() )];
    /* candidates that do not have old in their transitive fanin */
    std::vector<uint64_t> cand;
    std::function<bool( uint64_t, std::map<uint64_t, bool>& )> tfi = [&]( uint64_t n, std::map<uint64_t, bool>& memo ) -> bool {
      if ( n == old ) return true;
      if ( n == 0 || a.is_ci( n ) ) return false;
      auto it = memo.find( n );
      if ( it != memo.end() ) return it->second;
      bool v = tfi( a.get_child0( n ).index, memo ) || tfi( a.get_child1( n ).index, memo );
      return memo[n] = v;
    };
    std::map<uint64_t, bool> memo;
    for ( uint64_t n = 0; n < a.size(); ++n ) if ( !a.is_dead( n ) && !tfi( n, memo ) ) cand.push_back( n );
    sig nw( cand[rnd( cand.size() )], rnd( 2 ) );
    /* reference: evaluate outputs with old's value forced to nw's value */
    std::vector<std::vector<uint64_t>> ref( a.num_pos() );
    for ( uint64_t b = 0; b < blocks( s.pis ); ++b )
    {
      evaluator<aig_network> e0( a );
      e0.val[0] = 0;
      for ( uint32_t j = 0; j < s.pis; ++j ) e0.val[a._storage->inputs[j]] = pi_word( j, b );
      uint64_t nv = e0.node( nw.index ) ^ ( nw.complement ? ~0ull : 0 );
      evaluator<aig_network> e( a );
      e.val[0] = 0;
      for ( uint32_t j = 0; j < s.pis; ++j ) e.val[a._storage->inputs[j]] = pi_word( j, b );
      e.val[old] = nv;
      for ( uint32_t k = 0; k < a.num_pos(); ++k ) { auto o = a.po_at( k ); ref[k].push_back( e.node( o.index ) ^ ( o.complement ? ~0ull : 0 ) ); }
    }
    uint32_t gates_before = a.num_gates();
    bool multi = rnd( 4 ) == 0;
    if ( getenv( "VF_DUMP" ) )
    {
      printf( "round %d multi %d old %d new %d%s\n", (int)r, multi, (int)old, (int)nw.index, nw.complement ? "'" : "" );
      for ( uint64_t n = 1; n < a.size(); ++n ) if ( !a.is_ci( n ) ) printf( " %d%s = %d%s %d%s  fan %d\n", (int)n, a.is_dead( n ) ? "(dead)" : "", (int)a.get_child0( n ).index, a.get_child0( n ).complement ? "'" : "", (int)a.get_child1( n ).index, a.get_child1( n ).complement ? "'" : "", a.fanout_size( n ) );
      a.foreach_po( [&]( sig f ) { printf( " po %d%s\n", (int)f.index, f.complement ? "'" : "" ); } );
    }
    if ( multi ) a.substitute_nodes( std::list<std::pair<uint64_t, sig>>{ { old, nw } } );
    else a.substitute_node( old, nw );
    if ( getenv( "VF_DUMP" ) )
    {
      printf( "after\n" );
      for ( uint64_t n = 1; n < a.size(); ++n ) if ( !a.is_ci( n ) ) printf( " %d%s = %d%s %d%s  fan %d\n", (int)n, a.is_dead( n ) ? "(dead)" : "", (int)a.get_child0( n ).index, a.get_child0( n ).complement ? "'" : "", (int)a.get_child1( n ).index, a.get_child1( n ).complement ? "'" : "", a.fanout_size( n ) );
      a.foreach_po( [&]( sig f ) { printf( " po %d%s\n", (int)f.index, f.complement ? "'" : "" ); } );
    }
    vf_assert( a.is_dead( old ), "old-node-dead" );
    auto f = functions( a );
    vf_assert( f == ref, "outputs-follow-replacement" );
    auto inv = invariant( a, false, false, true );
    vf_note( inv );
    vf_assert( inv.empty(), "invariant-after-substitution" );
    auto inv2 = invariant( a, false, true, true );
    vf_note( inv2 );
    vf_assert( inv2.empty(), "fanout-counts-after-substitution" );
    vf_assert( a.num_gates() < gates_before + 1, "gate-count-does-not-grow" );
    uint32_t live = 0;
    a.foreach_gate( [&]( auto n ) {
      ++live;
      auto c0 = a.get_child0( n ), c1 = a.get_child1( n );
      uint64_t sz = a.size();
      vf_assert( a.create_and( c0, c1 ) == sig( n, 0 ) && a.size() == sz, "live-gate-still-hashed" );
    } );
    vf_assert( live == a.num_gates(), "gate-count" );
  }
}
/* C21: dereferencing a cone and referencing it again restores all counts and returns the same size = MFFC size */
VF_NATIVE( deref_ref )
{
  aig_network a;
  shape s = pick_shape( 7, 60, 6 );
  random_aig( a, s, rnd( 2 ) );
  std::vector<uint64_t> gates;
  a.foreach_gate( [&]( auto n ) { gates.push_back( n ); } ); /* also roots that nothing uses, such as a candidate structure just built */
  if ( gates.empty() ) return;
  std::vector<uint32_t> before;
  for ( uint64_t n = 0; n < a.size(); ++n ) { a.set_value( n, a.fanout_size( n ) ); before.push_back( a.fanout_size( n ) ); }
  uint64_t root = gates[rnd( gates.size() )];
  /* reference MFFC: nodes of the cone all of whose fanouts are inside */
  std::set<uint64_t> mffc{ root };
  std::map<uint64_t, std::vector<uint64_t>> fo;
  a.foreach_gate( [&]( auto n ) { fo[a.get_child0( n ).index].push_back( n ); fo[a.get_child1( n ).index].push_back( n ); } );
  std::set<uint64_t> pod;
  a.foreach_po( [&]( auto f ) { pod.insert( f.index ); } );
  for ( uint64_t n = root; n-- > 1; )
  {
    if ( a.is_ci( n ) || pod.count( n ) || fo[n].empty() ) continue;
    bool all = true;
    for ( auto x : fo[n] ) all &= mffc.count( x ) > 0;
    if ( all ) mffc.insert( n );
  }
  uint32_t d = deref_node_recursive( a, root );
  vf_assert( d == mffc.size(), "deref-size-is-mffc" );
  uint32_t r = ref_node_recursive( a, root );
  vf_assert( r == d, "ref-equals-deref" );
  for ( uint64_t n = 0; n < a.size(); ++n ) vf_assert( a.value( n ) == before[n], "counts-restored" );
  vf_assert( derefed_size( a, root ) == d, "derefed-size" );
  for ( uint64_t n = 0; n < a.size(); ++n ) vf_assert( a.value( n ) == before[n], "counts-restored-2" );
}
