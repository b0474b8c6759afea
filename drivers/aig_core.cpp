// Contracts over the AIG container: literals, node fields, structural hashing, constructors.
#include "aig_sym.hpp"

/* C01/C24: literal algebra */
VF_PROOF( literal_ops )
{
  sig x( vf_u64( "x" ) ), y( vf_u64( "y" ) );
  bool c = vf_bool( "c" );
  vf_assert( ( !x ).index == x.index && ( !x ).complement == 1 - x.complement, "not-flips-only-the-complement" );
  vf_assert( ( +x ).index == x.index && ( +x ).complement == 0, "plus-is-regular" );
  vf_assert( ( -x ).index == x.index && ( -x ).complement == 1, "minus-is-complemented" );
  vf_assert( ( x ^ c ).index == x.index && ( x ^ c ).complement == ( x.complement ^ (uint64_t)c ), "xor-with-bool" );
  vf_assert( ( x == y ) == ( x.index == y.index && x.complement == y.complement ), "equality" );
  vf_assert( ( x != y ) == !( x == y ), "inequality" );
  vf_assert( ( x < y ) == ( x.index < y.index || ( x.index == y.index && x.complement < y.complement ) ), "order" );
  aptr p = x;
  vf_assert( p.index == x.index && p.weight == x.complement && sig( p ) == x, "edge-conversion-round-trip" );
  vf_assert( sig( x.index, x.complement ) == x, "parts-round-trip" );
  aig_network* a = nullptr;
  vf_cover( "end" );
}
/* C24: operations on one per-node field change that field of that node only */
VF_PROOF( field_independence )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  auto* nd = a._storage->nodes.data();
  uint64_t n = vf_range( "n", 0, N ), j = vf_range( "j", 0, N );
  uint32_t v = vf_u32( "v" );
  bool b = vf_bool( "b" );
  auto o = nd[j];
  uint64_t value = o.data[0].h2, visited = o.data[1].h1, fan = o.data[0].h1, flags = o.data[1].h2;
  uint64_t k = vf_range( "op", 0, 9 );
  if ( k == 7 ) vf_assume( ( nd[n].data[0].h1 & 0x7fffffff ) != 0x7fffffff );
  if ( k == 8 ) vf_assume( ( nd[n].data[0].h1 & 0x7fffffff ) != 0 );
  uint64_t ret = 0, oldval = nd[n].data[0].h2, oldfan = nd[n].data[0].h1;
  switch ( k )
  {
  case 0: a.set_value( n, v ); if ( n == j ) value = v; break;
  case 1: ret = a.incr_value( n ); vf_assert( ret == oldval, "incr-value-returns-old" ); if ( n == j ) value = uint32_t( value + 1 ); break;
  case 2: ret = a.decr_value( n ); vf_assert( uint32_t( ret ) == uint32_t( oldval - 1 ), "decr-value-returns-new" ); if ( n == j ) value = uint32_t( value - 1 ); break;
  case 3: a.set_visited( n, v ); if ( n == j ) visited = v; break;
  case 4: a.phase( n, b ); if ( n == j ) flags = b ? flags | 1 : flags & ~1ull; break;
  case 5: a.mark_a( n, b ); if ( n == j ) flags = b ? flags | 2 : flags & ~2ull; break;
  case 6: a.mark_b( n, b ); if ( n == j ) flags = b ? flags | 4 : flags & ~4ull; break;
  case 7: ret = a.incr_fanout_size( n ); vf_assert( ret == ( oldfan & 0x7fffffff ), "incr-fanout-returns-old" ); if ( n == j ) fan = fan + 1; break;
  case 8: ret = a.decr_fanout_size( n ); vf_assert( ret == ( oldfan & 0x7fffffff ) - 1, "decr-fanout-returns-new" ); if ( n == j ) fan = fan - 1; break;
  }
  vf_assert( a.value( j ) == value, "value" );
  vf_assert( a.visited( j ) == visited, "visited" );
  vf_assert( a.fanout_size( j ) == ( fan & 0x7fffffff ), "fanout" );
  vf_assert( a.is_dead( j ) == ( ( fan >> 31 ) & 1 ), "dead-flag" );
  vf_assert( a.phase( j ) == ( flags & 1 ) && a.mark_a( j ) == ( ( flags >> 1 ) & 1 ) && a.mark_b( j ) == ( ( flags >> 2 ) & 1 ), "flags" );
  vf_assert( nd[j].children[0] == o.children[0] && nd[j].children[1] == o.children[1] && nd[j].next == o.next, "structure-unchanged" );
  vf_cover( "end" );
}
/* C24: trav id */
VF_PROOF( trav_id_step )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  uint32_t t = a.trav_id();
  a.incr_trav_id();
  vf_assert( a.trav_id() == uint32_t( t + 1 ), "trav-id" );
  vf_cover( "end" );
}
/* C24: bulk clears, any number of nodes */
VF_PROOF( clear_values_all )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  auto* nd = a._storage->nodes.data();
  uint64_t j = vf_range( "j", 0, N );
  bool vis = vf_bool( "which" );
  auto o = nd[j];
  vf_option( "loops_inv", 1 );
  auto done = [&]( uint64_t i ) -> bool { return i <= j || ( vis ? nd[j].data[1].h1 == 0 : nd[j].data[0].h2 == 0 ); };
  auto frame = [&]() -> bool { return nd[j].data[0].h1 == o.data[0].h1 && nd[j].data[1].h2 == o.data[1].h2 && nd[j].children[0] == o.children[0] && nd[j].children[1] == o.children[1] && nd[j].next == o.next && ( vis ? nd[j].data[0].h2 == o.data[0].h2 : nd[j].data[1].h1 == o.data[1].h1 ); };
  vf_loop_inv1( done );
  vf_loop_inv0( frame );
  if ( vis ) a.clear_visited(); else a.clear_values();
  vf_assert( vis ? a.visited( j ) == 0 : a.value( j ) == 0, "cleared" );
  vf_assert( frame(), "other-fields-unchanged" );
  vf_cover( "end" );
}
/* ---------------------------------------------------------------- structural hashing */
static inline bool same_key( anode const& x, anode const& y ) { return x.children[0].data == y.children[0].data && x.children[1].data == y.children[1].data; }
#ifdef VF_SYMBOLIC
/* ghost view of one bucket chain: seq[0..L) are the members in chain order, pos their positions */
struct chain
{
  uint64_t* seq;
  uint64_t* pos;
  uint64_t L;
};
static chain mk_chain( aig_storage* s, uint64_t K )
{
  uint64_t N = s->nodes.size();
  anode* nd = s->nodes.data();
  chain c;
  c.seq = (uint64_t*)__vf_symarray( "seq", 8, ~0ull );
  c.pos = (uint64_t*)__vf_symarray( "pos", 8, ~0ull );
  c.L = vf_range( "chain_length", 0, N );
  uint64_t *seq = c.seq, *pos = c.pos, L = c.L;
  vf_assume( s->hash[K] == ( L ? seq[0] : 0 ) );
  vf_assume_forall( 0, L, [=]( uint64_t p ) { return seq[p] > 0 && seq[p] < N && pos[seq[p]] == p && nd[seq[p]].next == ( p + 1 < L ? seq[p + 1] : 0 ); } );
  return c;
}
/* hash_find: returns a member of the chain with equal fanins whenever there is one, otherwise 0 */
VF_PROOF( hash_find )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  aig_storage* s = a._storage.get();
  anode* nd = s->nodes.data();
  anode q;
  q.children[0].data = vf_u64( "c0" );
  q.children[1].data = vf_u64( "c1" );
  uint64_t K = s->abc_hash( q, s->hash.size() );
  vf_assert( K < s->hash.size(), "bucket-in-range" );
  chain c = mk_chain( s, K );
  uint64_t w = vf_range( "witness", 0, N );          /* an arbitrary position of the chain */
  bool member = w < c.L && same_key( nd[c.seq[w]], q );
  vf_option( "loops_inv", 1 );
  uint64_t *seq = c.seq, *pos = c.pos, L = c.L;
  auto inv = [&]( uint64_t cur ) -> bool { return cur == 0 || ( cur < N && pos[cur] < L && seq[pos[cur]] == cur ); };
  auto before = [&]( uint64_t cur ) -> bool { return cur == 0 || !member || pos[cur] <= w; };
  auto nz = [&]( uint64_t cur ) -> bool { return !member || cur != 0; };
  /* for a search that keeps its result in a variable */
  auto hit = [&]( uint64_t r ) -> bool { return r == 0 || same_key( nd[r], q ); };
  auto open = [&]( uint64_t r, uint64_t cur ) -> bool { return r != 0 || !member || ( cur != 0 && pos[cur] <= w ); };
  vf_loop_inv1( inv );
  vf_loop_inv1( before );
  vf_loop_inv1( nz );
  vf_loop_inv1( hit );
  vf_loop_inv2( open );
  uint64_t r = s->hash_find( q );
  vf_assert( r == 0 || ( r < N && pos[r] < L && seq[pos[r]] == r && same_key( nd[r], q ) ), "found-node-is-a-member-with-equal-fanins" );
  vf_assert( !member || r != 0, "member-is-found" );
  vf_cover( "end" );
  if ( r ) vf_cover( "found" ); else vf_cover( "absent" );
}
/* hash_insert: the node becomes the head of its bucket, everything else keeps its place */
VF_PROOF( hash_insert )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  aig_storage* s = a._storage.get();
  anode* nd = s->nodes.data();
  uint64_t x = vf_range( "index", 1, N ), j = vf_range( "j", 0, N ), b = vf_range( "b", 0, s->hash.size() );
  uint64_t K = s->abc_hash( nd[x], s->hash.size() );
  vf_assume( s->num_entries <= 2 * s->hash.size() );
  uint64_t head = s->hash[K], hb = s->hash[b], ne = s->num_entries;
  anode oj = nd[j];
  s->hash_insert( nd[x], x );
  vf_assert( s->hash[K] == x && nd[x].next == head, "node-is-the-new-head" );
  vf_assert( b == K || s->hash[b] == hb, "other-buckets-unchanged" );
  vf_assert( nd[j].children[0].data == oj.children[0].data && nd[j].children[1].data == oj.children[1].data && nd[j].data[0].n == oj.data[0].n && nd[j].data[1].n == oj.data[1].n && ( j == x || nd[j].next == oj.next ), "nodes-unchanged" );
  vf_assert( s->num_entries == ne + 1 && s->nodes.size() == N, "entry-count" );
  vf_cover( "end" );
}
/* hash_erase: exactly the requested node leaves its chain */
VF_PROOF( hash_erase )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  aig_storage* s = a._storage.get();
  anode* nd = s->nodes.data();
  uint64_t x = vf_range( "index", 1, N ), j = vf_range( "j", 0, N ), b = vf_range( "b", 0, s->hash.size() );
  uint64_t K = s->abc_hash( nd[x], s->hash.size() );
  chain c = mk_chain( s, K );
  uint64_t *seq = c.seq, *pos = c.pos, L = c.L;
  uint64_t w = vf_range( "position", 0, N );
  vf_assume( w < L && seq[w] == x );
  vf_assume( s->num_entries >= 1 );
  uint64_t hb = s->hash[b], ne = s->num_entries, nx = nd[x].next;
  uint64_t prev = w ? seq[w - 1] : 0;
  anode oj = nd[j];
  vf_option( "loops_inv", 1 );
  auto inv = [&]( uint64_t cur, uint64_t pre ) -> bool { return cur != 0 && cur < N && pos[cur] <= w && seq[pos[cur]] == cur && pre == ( pos[cur] ? seq[pos[cur] - 1] : cur ); };
  auto on = [&]( uint64_t cur ) -> bool { return cur != 0 && cur < N && pos[cur] <= w && seq[pos[cur]] == cur; };
  auto behind = [&]( uint64_t cur, uint64_t pre ) -> bool { return pre == ( pos[cur] ? seq[pos[cur] - 1] : 0 ); };
  vf_loop_inv1( on );
  vf_loop_inv2( inv );
  vf_loop_inv2( behind );
  s->hash_erase( nd[x], x );
  vf_assert( w != 0 || s->hash[K] == nx, "head-removed" );
  vf_assert( w == 0 || nd[prev].next == nx, "predecessor-bypasses-the-node" );
  vf_assert( ( b == K && w == 0 ) || s->hash[b] == hb, "other-buckets-unchanged" );
  vf_assert( nd[j].children[0].data == oj.children[0].data && nd[j].children[1].data == oj.children[1].data && nd[j].data[0].n == oj.data[0].n && nd[j].data[1].n == oj.data[1].n && ( ( w != 0 && j == prev ) || nd[j].next == oj.next ), "nodes-unchanged" );
  vf_assert( s->num_entries == ne - 1, "entry-count" );
  vf_cover( "end" );
  if ( w ) vf_cover( "inner" ); else vf_cover( "head" );
}
/* ---- contracts used by the callers of the hash table */
static uint64_t g_N, g_find, g_inserted, g_ninsert;
static uint64_t* g_live;      /* ghost: node is in the table */
static uint64_t c_hash_find( aig_storage* s, anode const& n )
{
  anode* nd = s->nodes.data();
  uint64_t N = s->nodes.size();
  uint64_t r = vf_range( "found", 0, N );
  vf_assume( r == 0 || ( g_live[r] == 1 && same_key( nd[r], n ) ) );
  uint64_t k0 = n.children[0].data, k1 = n.children[1].data;
  uint64_t* live = g_live;
  if ( r == 0 ) vf_assume_forall( 1, N, [=]( uint64_t i ) { return !( live[i] == 1 && nd[i].children[0].data == k0 && nd[i].children[1].data == k1 ); } );
  g_find = r;
  return r;
}
static void c_hash_insert( aig_storage* s, anode n, uint64_t index )
{
  vf_assert( index < s->nodes.size() && index > 0, "hash-insert-index-in-range" );
  vf_assert( same_key( s->nodes.data()[index], n ), "hash-insert-key-is-the-nodes-key" );
  vf_assert( g_live[index] != 1, "hash-insert-node-not-yet-in-table" );
  g_live[index] = 1;
  s->nodes.data()[index].next = vf_u64( "next" );
  ++s->num_entries;
  g_inserted = index;
  ++g_ninsert;
}
static void c_hash_erase( aig_storage* s, anode n, uint64_t index )
{
  vf_assert( g_live[index] == 1, "hash-erase-node-is-in-table" );
  vf_assert( same_key( s->nodes.data()[index], n ), "hash-erase-key-is-the-nodes-key" );
  g_live[index] = 0;
  --s->num_entries;
}
static void c_reserve( std::vector<anode>*, uint64_t ) {}
static uint64_t lit( uint64_t* val, sig x ) { return x.complement ? ~val[x.index] : val[x.index]; }
/* representation invariant of an arbitrary network, as universal facts; val is an arbitrary (one-bit) valuation of the inputs extended to all nodes */
static void inv_assume( aig_network& a, uint64_t N, uint64_t* live, uint64_t* val )
{
  anode* nd = a._storage->nodes.data();
  vf_assume( live[0] == 0 && val[0] == 0 );
  vf_assume( nd[0].children[0].data == 0 && nd[0].children[1].data == 0 );
  vf_assume_forall( 1, N, [=]( uint64_t i ) {
    uint64_t i0 = nd[i].children[0].index, i1 = nd[i].children[1].index;
    return live[i] != 1 || ( i0 > 0 && i0 < i1 && i1 < N && val[i] == ( ( ( val[i0] ^ nd[i].children[0].weight ) & ( val[i1] ^ nd[i].children[1].weight ) ) & 1 ) && !( ( nd[i].data[0].h1 >> 31 ) & 1 ) );
  } );
  vf_assume_forall( 0, ~0ull, [=]( uint64_t i ) { return i < N || live[i] == 0; } );
}
/* create_and: the returned literal is the conjunction; a gate is created at most once; counts and structure are maintained */
VF_PROOF( create_and )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  aig_storage* s = a._storage.get();
  anode* nd = s->nodes.data();
  uint64_t* live = g_live = (uint64_t*)__vf_symarray( "live", 8, ~0ull );
  uint64_t* val = (uint64_t*)__vf_symarray( "val", 8, ~0ull );
  inv_assume( a, N, live, val );
  g_find = ~0ull;
  g_ninsert = 0;
  g_inserted = 0;
  vf_contract( "::hash_find(", &c_hash_find );
  vf_contract( "::hash_insert(", &c_hash_insert );
  vf_contract( "::reserve(", &c_reserve );
  sig x( vf_u64( "x" ) ), y( vf_u64( "y" ) );
  vf_assume( x.index < N && y.index < N );
  vf_assume( ( nd[x.index].data[0].h1 & 0x7fffffff ) < 0x7ffffff0 && ( nd[y.index].data[0].h1 & 0x7fffffff ) < 0x7ffffff0 );
  uint64_t j = vf_range( "j", 0, N );
  anode oj = nd[j];
  uint64_t ne = s->num_entries, px = a.phase( x.index ), py = a.phase( y.index );
  auto conj = [=]( sig q ) -> bool { return ( ( val[q.index] ^ q.complement ) & 1 ) == ( ( val[x.index] ^ x.complement ) & ( val[y.index] ^ y.complement ) & 1 ); };
  sig r = a.create_and( x, y );
  uint64_t M = s->nodes.size();
  vf_assert( r.index < M, "literal-in-range" );
  vf_assert( M == N || M == N + 1, "at-most-one-node-added" );
  anode nw = nd[N];
  if ( M == N + 1 )
  {
    uint64_t i0 = nw.children[0].index, i1 = nw.children[1].index;
    vf_assert( i0 > 0 && i0 < i1 && i1 < N, "new-node-is-sorted-and-nontrivial" );
    vf_assert( r == sig( N, 0 ), "new-node-returned" );
    vf_assume( val[N] == ( ( ( val[i0] ^ nw.children[0].weight ) & ( val[i1] ^ nw.children[1].weight ) ) & 1 ) );
    vf_assert( conj( r ), "literal-is-the-conjunction" );
    vf_assert( g_ninsert == 1 && g_inserted == N && s->num_entries == ne + 1, "new-node-registered-once" );
    vf_assert( nw.data[0].n == 0 && nw.data[1].h1 == 0, "new-node-fields-clear" );
    vf_assert( a.phase( N ) == ( ( px ^ x.complement ) & ( py ^ y.complement ) ), "new-node-phase" );
    vf_assert( !a.is_ci( N ) && a.is_and( N ) && !a.is_dead( N ), "new-node-is-a-gate" );
    uint64_t i = vf_range( "i", 1, N );
    vf_assert( !( live[i] == 1 && same_key( nd[i], nw ) ), "no-duplicate-gate" );
    vf_cover( "new" );
  }
  else
  {
    vf_assert( g_ninsert == 0 && s->num_entries == ne, "nothing-registered" );
    vf_assert( r.index == 0 || r == x || r == y || ( r.complement == 0 && live[r.index] == 1 ), "existing-literal" );
    vf_assert( conj( r ), "literal-is-the-conjunction" );
    vf_cover( "old" );
  }
  vf_assert( nd[j].children[0].data == oj.children[0].data && nd[j].children[1].data == oj.children[1].data && nd[j].next == oj.next && nd[j].data[1].n == oj.data[1].n && nd[j].data[0].h2 == oj.data[0].h2, "existing-nodes-unchanged" );
  uint64_t inc = M == N ? 0 : ( j == x.index ) + ( j == y.index );
  vf_assert( nd[j].data[0].h1 == oj.data[0].h1 + inc, "fanout-counts" );
  vf_cover( "end" );
}
/* find_and answers whether the conjunction already exists */
VF_PROOF( find_and )
{
  uint64_t N;
  aig_network& a = mk_aig( N );
  anode* nd = a._storage->nodes.data();
  uint64_t* live = g_live = (uint64_t*)__vf_symarray( "live", 8, ~0ull );
  uint64_t* val = (uint64_t*)__vf_symarray( "val", 8, ~0ull );
  inv_assume( a, N, live, val );
  vf_contract( "::hash_find(", &c_hash_find );
  sig x( vf_u64( "x" ) ), y( vf_u64( "y" ) );
  vf_assume( x.index < N && y.index < N );
  uint64_t i = vf_range( "i", 1, N );
  bool f = a.find_and( x, y );
  sig lo = x.index < y.index ? x : y, hi = x.index < y.index ? y : x;
  bool trivial = x.index == y.index || x.index == 0 || y.index == 0;
  vf_assert( !trivial || f, "trivial-conjunction-exists" );
  vf_assert( f || !( live[i] == 1 && nd[i].children[0].data == lo.data && nd[i].children[1].data == hi.data ), "existing-gate-is-reported" );
  vf_assert( trivial || !f || ( g_find != 0 && live[g_find] == 1 && nd[g_find].children[0].data == lo.data && nd[g_find].children[1].data == hi.data ), "reported-gate-exists" );
  vf_cover( "end" );
}
/* ---- every other constructor over the contract of create_and */
static uint64_t* g_val;
static uint64_t g_size;
static sig c_create_and( aig_network* a, sig x, sig y )
{
  vf_assert( x.index < g_size && y.index < g_size, "create-and-operands-exist" );
  sig r( vf_u64( "r" ) );
  g_size += vf_bool( "grow" );
  vf_assume( r.index < g_size );
  vf_assume( lit( g_val, r ) == ( lit( g_val, x ) & lit( g_val, y ) ) );
  return r;
}
static sig rnd_lit( const char* n )
{
  sig x( vf_u64( n ) );
  vf_assume( x.index < g_size );
  return x;
}
static void ctor_world()
{
  g_val = (uint64_t*)__vf_symarray( "val", 8, ~0ull );
  g_size = vf_range( "size", 1, 1ull << 31 );
  vf_assume( g_val[0] == 0 );
  vf_contract( "aig_network::create_and(", &c_create_and );
}
VF_PROOF( constructors )
{
  ctor_world();
  aig_network& a = *(aig_network*)__vf_alloc( sizeof( aig_network ) );
  sig x = rnd_lit( "x" ), y = rnd_lit( "y" ), z = rnd_lit( "z" );
  uint64_t X = lit( g_val, x ), Y = lit( g_val, y ), Z = lit( g_val, z );
  vf_assert( lit( g_val, a.create_and( x, y ) ) == ( X & Y ), "and" );
  vf_assert( lit( g_val, a.create_nand( x, y ) ) == ~( X & Y ), "nand" );
  vf_assert( lit( g_val, a.create_or( x, y ) ) == ( X | Y ), "or" );
  vf_assert( lit( g_val, a.create_nor( x, y ) ) == ~( X | Y ), "nor" );
  vf_assert( lit( g_val, a.create_lt( x, y ) ) == ( ~X & Y ), "less-than" );
  vf_assert( lit( g_val, a.create_le( x, y ) ) == ( ~X | Y ), "less-or-equal" );
  vf_assert( lit( g_val, a.create_not( x ) ) == ~X && lit( g_val, a.create_buf( x ) ) == X, "not-and-buffer" );
  vf_assert( lit( g_val, a.get_constant( false ) ) == 0 && lit( g_val, a.get_constant( true ) ) == ~0ull, "constants" );
  vf_cover( "end" );
}
VF_PROOF( create_xor )
{
  ctor_world();
  aig_network& a = *(aig_network*)__vf_alloc( sizeof( aig_network ) );
  sig x = rnd_lit( "x" ), y = rnd_lit( "y" );
  uint64_t X = lit( g_val, x ), Y = lit( g_val, y );
  vf_assert( lit( g_val, a.create_xor( x, y ) ) == ( X ^ Y ), "xor" );
  vf_assert( lit( g_val, a.create_xnor( x, y ) ) == ~( X ^ Y ), "xnor" );
  vf_cover( "end" );
}
VF_PROOF( create_ternary )
{
  ctor_world();
  aig_network& a = *(aig_network*)__vf_alloc( sizeof( aig_network ) );
  sig x = rnd_lit( "x" ), y = rnd_lit( "y" ), z = rnd_lit( "z" );
  uint64_t X = lit( g_val, x ), Y = lit( g_val, y ), Z = lit( g_val, z );
  vf_assert( lit( g_val, a.create_ite( x, y, z ) ) == ( ( X & Y ) | ( ~X & Z ) ), "if-then-else" );
  vf_assert( lit( g_val, a.create_maj( x, y, z ) ) == ( ( X & Y ) | ( X & Z ) | ( Y & Z ) ), "majority" );
  vf_assert( lit( g_val, a.create_xor3( x, y, z ) ) == ( X ^ Y ^ Z ), "three-input-xor" );
  vf_cover( "end" );
}
/* n-ary constructors, any number of operands: the recursive split is checked against its own contract.
   ghost: zero[i] = number of operands before i that are false, par[i] = their parity, one[i] = number that are true (bit 0 of the valuation) */
static uint64_t *g_cnt, *g_par;
static sig* g_fs;
static uint64_t g_kind;
static bool seg( uint64_t lo, uint64_t hi )
{
  if ( g_kind == 0 ) return g_cnt[hi] == g_cnt[lo];      /* AND: no false operand in between */
  if ( g_kind == 1 ) return g_cnt[hi] != g_cnt[lo];      /* OR : a true operand in between */
  return ( g_par[hi] ^ g_par[lo] ) & 1;
}
static uint64_t bitv( sig x ) { return ( g_val[x.index] ^ x.complement ) & 1; }
static sig fresh_lit( uint64_t v )
{
  sig r( vf_u64( "r" ) );
  g_size += vf_range( "grow", 0, 8 );
  vf_assume( r.index < g_size );
  vf_assume( bitv( r ) == v );
  return r;
}
static void operands( sig x, sig y ) { vf_assert( x.index < g_size && y.index < g_size, "operands-exist" ); }
/* the contracts proved by create_and / constructors / create_xor, for one bit of the valuation */
static sig c_and1( aig_network*, sig x, sig y ) { operands( x, y ); return fresh_lit( bitv( x ) & bitv( y ) ); }
static sig c_or1( aig_network*, sig const& x, sig const& y ) { operands( x, y ); return fresh_lit( bitv( x ) | bitv( y ) ); }
static sig c_xor1( aig_network*, sig const& x, sig const& y ) { operands( x, y ); return fresh_lit( bitv( x ) ^ bitv( y ) ); }
static sig c_reduce( sig* first, sig* last, sig const& init, void* )
{
  uint64_t lo = first - g_fs, hi = last - g_fs;
  vf_assert( lo <= hi, "segment-ordered" );
  sig r( vf_u64( "segment" ) );
  g_size += vf_range( "grow", 0, 1ull << 31 );
  vf_assume( r.index < g_size );
  vf_assume( bitv( r ) == ( lo == hi ? bitv( init ) : (uint64_t)seg( lo, hi ) ) );
  vf_assume( g_cnt[lo] <= g_cnt[hi] );
  return r;
}
static void nary( uint64_t kind )
{
  g_val = (uint64_t*)__vf_symarray( "val", 8, ~0ull );
  g_size = vf_range( "size", 1, 1ull << 31 );
  vf_assume( g_val[0] == 0 );
  vf_contract( "aig_network::create_and(", &c_and1 );
  vf_contract( "aig_network::create_or(", &c_or1 );
  vf_contract( "aig_network::create_xor(", &c_xor1 );
  g_kind = kind;
  aig_network& a = *(aig_network*)__vf_alloc( sizeof( aig_network ) );
  std::vector<sig>& fs = *(std::vector<sig>*)__vf_alloc( sizeof( std::vector<sig> ) );
  uint64_t n = vf_range( "count", 0, 1ull << 31 );
  vf_vector( fs, "fs", n );
  g_fs = fs.data();
  g_cnt = (uint64_t*)__vf_symarray( "cnt", 8, ~0ull );
  g_par = (uint64_t*)__vf_symarray( "par", 8, ~0ull );
  uint64_t *cnt = g_cnt, *par = g_par, *val = g_val, sz = g_size;
  sig* f = g_fs;
  vf_assume_forall( 0, n, [=]( uint64_t i ) {
    uint64_t v = ( val[f[i].index] ^ f[i].complement ) & 1;
    return f[i].index < sz && cnt[i + 1] == cnt[i] + ( kind == 0 ? 1 - v : v ) && par[i + 1] == ( ( par[i] ^ v ) & 1 );
  } );
  vf_assume_forall( 0, n + 1, [=]( uint64_t i ) { return cnt[i] <= i && par[i] <= 1; } );
  vf_assume( cnt[0] == 0 && par[0] == 0 && cnt[0] <= cnt[n] );
  vf_contract_rec( "tree_reduce<", &c_reduce );
  sig r = kind == 0 ? a.create_nary_and( fs ) : kind == 1 ? a.create_nary_or( fs ) : a.create_nary_xor( fs );
  bool v = bitv( r );
  vf_assert( v == seg( 0, n ), kind == 0 ? "true-iff-no-operand-is-false" : kind == 1 ? "true-iff-some-operand-is-true" : "parity-of-the-operands" );
  vf_cover( "end" );
}
VF_PROOF( nary_and ) { nary( 0 ); }
VF_PROOF( nary_or ) { nary( 1 ); }
VF_PROOF( nary_xor ) { nary( 2 ); }
#endif
