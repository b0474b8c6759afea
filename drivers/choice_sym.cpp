// C27: choices. The clauses given to the SAT solver describe the network, what the prover proves equivalent is equivalent, choice classes stay acyclic: for every network of every size.
#include "aig_sym.hpp"
#include <memory>
#include <cassert>
#include <string>
#include <algorithm>
#include <iostream>
#include <kitty/kitty.hpp>
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
#include "algorithms/aig_with_choice.hpp"
#include "algorithms/choice_computation.hpp"
#ifdef VF_SYMBOLIC
static aig_with_choice* CH;
static anode* ND;
static uint64_t NN;
static uint64_t *EQ, *RP;
/* ghost: the values of all nodes under an arbitrary input assignment (one byte each, bit 0) */
static uint8_t* V;
static bool val( sig s ) { return ( V[s.index] & 1 ) ^ s.complement; }
static bool pval( aptr p ) { return ( V[p.index] & 1 ) ^ (bool)p.weight; }
/* a node consistent with its fanins */
static bool consistent( uint64_t i )
{
  if ( i == 0 ) return !( V[0] & 1 ) && ND[0].children[0].data == ND[0].children[1].data;
  if ( !is_gate( ND, i ) ) return true;
  auto a = ND[i].children[0], b = ND[i].children[1];
  return a.index < NN && b.index < NN && ( V[i] & 1 ) == ( pval( a ) && pval( b ) );
}
static aig_with_choice& mk_choice()
{
  aig_network& a = mk_aig( NN );
  auto* c = (aig_with_choice*)__vf_alloc( sizeof( aig_with_choice ) );
  __builtin_memcpy( (void*)c, (void*)&a, sizeof( aig_network ) );
  vf_vector( c->_equivs, "equivs", NN );
  vf_vector( c->_reprs, "reprs", NN );
  CH = c;
  ND = c->_storage->nodes.data();
  EQ = c->_equivs.data();
  RP = c->_reprs.data();
  V = (uint8_t*)__vf_symarray( "V", 1, ~0ull );
  return *c;
}
static uint64_t gate_arg( const char* n )
{
  uint64_t g = vf_range( n, 1, NN );
  vf_assume( is_gate( ND, g ) );
  return g;
}
/* the prover; ghost INV is the node a SAT variable stands for, so that a valuation of the nodes is an assignment of the variables */
static sat_prover* SP;
static uint32_t* VM;
static uint32_t* INV;
static bool flipped( uint64_t x ) { return SP->_params.polar_flip && ( ND[x].data[1].h2 & aig_network::F_PHASE ); }
static bool var_true( uint32_t v ) { return ( V[INV[v]] & 1 ) != flipped( INV[v] ); }
static bool lit_true( uint32_t l ) { return var_true( l >> 1 ) != ( l & 1 ); }
static bool mapped( uint64_t x ) { return VM[x] == 0 || ( VM[x] < SP->_sat_vars && INV[VM[x]] == x ); }
static sat_prover& mk_prover()
{
  auto& c = mk_choice();
  auto* p = (sat_prover*)__vf_alloc( sizeof( sat_prover ) );
  p->_params.polar_flip = vf_bool( "polar_flip" );
  p->_params.nwords = 8;
  p->_params.BT_limit = vf_u32( "BT_limit" );
  p->_params.max_sat_var = vf_u32( "max_sat_var" );
  p->_params.calls_recycle = vf_u32( "calls_recycle" );
  *(aig_with_choice**)( (char*)&p->_solver - sizeof( void* ) ) = &c; /* the reference member */
  p->_sat_vars = vf_range( "sat_vars", 1, 1u << 30 );
  vf_vector( p->_sat_vars_map, "sat_vars_map", NN );
  vf_vector( p->_used_nodes, "used_nodes", vf_range( "num_used", 0, 1u << 30 ) );
  SP = p;
  VM = p->_sat_vars_map.data();
  INV = (uint32_t*)__vf_symarray( "INV", 4, ~0ull );
  vf_assume_forall( 0, NN, mapped );
  vf_assume( NN < 1u << 30 && VM[0] != 0 );
  return *p;
}
static uint64_t CLAUSES;
static int *CB;
/* soundness: every clause holds under every valuation of the network */
static int clause_holds( void*, int* begin, int* end )
{
  ++CLAUSES;
  uint64_t n = end - begin;
  if ( n <= 3 )
  {
    bool any = false;
    for ( uint64_t i = 0; i < 3; ++i ) any = any || ( i < n && lit_true( begin[i] ) );
    vf_assert( any, "clause-holds" );
    return 1;
  }
  if ( vf_bool( "examine" ) )
  {
    CB = begin;
    vf_assume_forall( 0, end - begin, []( uint64_t i ) -> bool { return !lit_true( CB[i] ); } );
    vf_assert( false, "clause-holds" );
    vf_assume( false );
  }
  return 1;
}
/* completeness: what satisfies all clauses is a valuation of the gate */
static int clause_assumed( void*, int* begin, int* end )
{
  ++CLAUSES;
  uint64_t w = vf_range( "true_literal", 0, end - begin );
  vf_assume( lit_true( begin[w] ) );
  return 1;
}
#endif
/* a node recognised as a multiplexer is one: n = i ? t : e under every assignment, i is not complemented */
VF_PROOF( mux_recognized )
{
#ifdef VF_SYMBOLIC
  auto& c = mk_choice();
  vf_assume_forall( 0, NN, consistent );
  uint64_t n = vf_range( "n", 0, NN );
  if ( !c.is_mux( n ) ) return;
  sig i, t, e;
  vf_assert( is_gate( ND, n ), "a-multiplexer-is-a-gate" );
  c.recognize_mux( n, i, t, e );
  vf_assert( !i.complement, "control-not-complemented" );
  vf_assert( i.index < NN && t.index < NN && e.index < NN, "inputs-in-range" );
  vf_assert( ( V[n] & 1 ) == ( val( i ) ? val( t ) : val( e ) ), "if-then-else" );
  auto g = [&]( uint64_t x ) {
    for ( int k = 0; k < 2; ++k ) { auto ch = ND[n].children[k].index; if ( ND[ch].children[0].index == x || ND[ch].children[1].index == x ) return true; }
    return false;
  };
  vf_assert( g( i.index ) && g( t.index ) && g( e.index ), "inputs-are-grandchildren" );
  vf_cover( "end" );
#endif
}

#ifdef VF_SYMBOLIC
/* vectors start out empty with room for everything */
static std::vector<uint32_t>* LITS;
static void vec_u32_init( std::vector<uint32_t>* v )
{
  LITS = v;
  v->_M_impl._M_start = v->_M_impl._M_finish = (uint32_t*)__vf_symarray( "vec", 4, ~0ull );
  v->_M_impl._M_end_of_storage = (uint32_t*)__vf_inf( v->_M_impl._M_start );
}
static void mux_setup( sat_prover& p, uint64_t n )
{
  vf_assume( VM[n] != 0 );
  for ( int k = 0; k < 2; ++k )
  {
    uint64_t ch = ND[n].children[k].index;
    vf_assume( ch < NN );
    for ( int j = 0; j < 2; ++j ) vf_assume( ND[ch].children[j].index < NN && VM[ND[ch].children[j].index] != 0 );
  }
  vf_assume( CH->is_mux( n ) );
}
#endif
VF_PROOF( mux_clauses_sound )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  uint64_t n = vf_range( "n", 1, NN );
  vf_assume_forall( 0, NN, consistent );
  mux_setup( p, n );
  vf_contract( "sat_solver_addclause(", &clause_holds );
  p.add_clauses_mux( n );
  vf_cover( "end" );
#endif
}
VF_PROOF( mux_clauses_complete )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  uint64_t n = vf_range( "n", 1, NN );
  mux_setup( p, n );
  uint64_t c0 = ND[n].children[0].index, c1 = ND[n].children[1].index;
  vf_assume( c0 != n && c1 != n && consistent( c0 ) && consistent( c1 ) );
  vf_contract( "sat_solver_addclause(", &clause_assumed );
  p.add_clauses_mux( n );
  vf_assert( consistent( n ), "gate-function" );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static sig* FA;
static uint64_t K;
static uint64_t ROOT;
static void super_loops( uint64_t n, bool complete )
{
  vf_contract( "_Vector_base<unsigned int, std::allocator<unsigned int> >::_Vector_impl_data::_Vector_impl_data()", &vec_u32_init );
  vf_option( "loops_inv", 1 );
  vf_option( "forget_pointers", 1 );
  LITS = nullptr;
  ROOT = n;
  static auto one_each = []( uint64_t p ) -> bool { return LITS && LITS->size() == p && p <= K; };
  static auto literals = []( uint64_t p, uint64_t j ) -> bool {
    if ( !LITS ) return false;
    return j >= p || j >= K || lit_true( LITS->_M_impl._M_start[j] ) == !val( FA[j] );
  };
  vf_loop_inv1( one_each );
  vf_loop_forall1( literals );
  static auto implied = []( uint64_t p, uint64_t j ) -> bool { return j >= p || j >= K || !( V[ROOT] & 1 ) || val( FA[j] ); };
  if ( complete ) vf_loop_forall1( implied );
}
static std::vector<sig>& mk_fanins()
{
  auto* f = (std::vector<sig>*)__vf_alloc( sizeof( std::vector<sig> ) );
  K = vf_range( "num_fanins", 1, 1u << 28 );
  vf_vector( *f, "fanins", K );
  FA = f->data();
  vf_assume_forall( 0, K, []( uint64_t i ) -> bool { return FA[i].index < NN && VM[FA[i].index] != 0; } );
  return *f;
}
#endif
/* n is the conjunction of its super gate */
VF_PROOF( and_clauses_sound )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  uint64_t n = gate_arg( "n" );
  vf_assume( VM[n] != 0 );
  auto& f = mk_fanins();
  static uint64_t W;
  W = vf_range( "false_input", 0, K );
  if ( V[n] & 1 ) vf_assume_forall( 0, K, []( uint64_t i ) -> bool { return val( FA[i] ); } );
  else vf_assume( !val( FA[W] ) );
  vf_contract( "sat_solver_addclause(", &clause_holds );
  super_loops( n, false );
  p.add_clauses_super( n, f );
  vf_cover( "end" );
#endif
}
VF_PROOF( and_clauses_complete )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  uint64_t n = gate_arg( "n" );
  vf_assume( VM[n] != 0 );
  auto& f = mk_fanins();
  vf_contract( "sat_solver_addclause(", &clause_assumed );
  super_loops( n, true );
  p.add_clauses_super( n, f );
  if ( V[n] & 1 ) vf_assert( val( FA[vf_range( "input", 0, K )] ), "inputs-of-a-true-gate" );
  else
  {
    vf_assume_forall( 0, K, []( uint64_t i ) -> bool { return val( FA[i] ); } );
    vf_assert( false, "output-of-true-inputs" );
  }
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
/* ---- choice classes: lists of nodes linked by _equivs, acyclic together with the fanins. Ghost L is a level function over fanin edges and class edges of gates. */
static const uint64_t NONE = aig_network::AIG_NULL;
static uint32_t* L;
static uint8_t *IP, *CM; /* nodes callers are working on; members of the class of the representative */
static uint32_t *POS, *AT, *PRED;
static uint64_t CUR, REP, NEW, M0, LEN;
static bool in_progress( uint64_t i ) { return IP[i] || i == CUR; }
static bool visited_now( uint64_t i ) { return ND[i].data[1].h1 == CH->_storage->data.trav_id; }
static bool done( uint64_t i ) { return i == NONE || !is_gate( ND, i ) || visited_now( i ); }
static bool edges_ok( uint64_t i )
{
  if ( EQ[i] != NONE && EQ[i] >= NN ) return false;
  if ( !is_gate( ND, i ) ) return true;
  uint64_t a = ND[i].children[0].index, b = ND[i].children[1].index;
  return a < NN && b < NN && L[a] < L[i] && L[b] < L[i] && ( EQ[i] == NONE || L[EQ[i]] < L[i] ) && L[i] < ( 1u << 30 );
}
/* visited nodes that nobody is working on are gates outside the class whose successors are visited */
static bool closed( uint64_t i )
{
  if ( !visited_now( i ) ) return !in_progress( i );
  if ( ND[i].data[0].h2 == 1 || !is_gate( ND, i ) ) return false;
  return in_progress( i ) || ( done( ND[i].children[0].index ) && done( ND[i].children[1].index ) && done( EQ[i] ) );
}
static void mk_classes( bool structure = true )
{
  mk_choice();
  L = (uint32_t*)__vf_symarray( "L", 4, ~0ull );
  IP = (uint8_t*)__vf_symarray( "IP", 1, ~0ull );
  CUR = REP = NEW = ~0ull;
  vf_assume( NN < 1ull << 30 && ND[0].children[0].data == ND[0].children[1].data );
  if ( structure ) vf_assume_forall( 0, NN, edges_ok );
}
static uint64_t TR[4];
static bool tfi_rec_stub( aig_with_choice* c, uint64_t const& n )
{
  uint64_t m = n;
  if ( m == NONE ) return false;
  vf_assert( c == CH && m < NN, "argument-in-range" );
  static uint32_t lm;
  lm = L[m];
  vf_assert( CUR == ~0ull || lm < L[CUR], "recursion-decreases" );
  vf_assert_forall( "callers-are-above", 0, NN, []( uint64_t i ) -> bool { return !in_progress( i ) || L[i] > lm; } );
  vf_assert_forall( "visited-part-is-closed", 0, NN, closed );
  bool was[4];
  for ( int k = 0; k < 4; ++k ) was[k] = done( TR[k] );
  __vf_havoc_field( ND, 24 );
  if ( vf_bool( "found" ) ) return true;
  vf_assume_forall( 0, NN, closed );
  vf_assume( done( m ) );
  for ( int k = 0; k < 4; ++k ) vf_assume( !was[k] || done( TR[k] ) );
  return false;
}
#endif
/* the search visits everything reachable through fanins and class links, or reports that it met the class */
VF_PROOF( choice_search )
{
#ifdef VF_SYMBOLIC
  mk_classes();
  uint64_t n = vf_range( "n", 0, NN );
  static uint32_t ln;
  ln = L[n];
  vf_assume_forall( 0, NN, closed );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !in_progress( i ) || L[i] > ln; } );
  TR[0] = vf_range( "tracked", 0, NN );
  TR[1] = ND[n].children[0].index;
  TR[2] = ND[n].children[1].index;
  TR[3] = EQ[n];
  bool was = done( TR[0] );
  vf_contract_rec( "check_tfi_rec(unsigned long const&)", &tfi_rec_stub );
  if ( is_gate( ND, n ) && ND[n].data[0].h2 != 1 && !visited_now( n ) ) CUR = n;
  bool found = CH->check_tfi_rec( n );
  CUR = ~0ull;
  if ( found ) return;
  vf_assert( done( n ), "argument-visited" );
  vf_assert( !was || done( TR[0] ), "visited-stays-visited" );
  vf_assert_forall( "visited-part-is-closed", 0, NN, closed );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
/* ghost description of the class list of REP: members CM with positions POS, AT inverts POS, the last one (position LEN - 1) has no successor */
static bool class_ok( uint64_t i )
{
  if ( i >= NN ) return !CM[i];
  if ( !CM[i] ) return i != REP;
  if ( ( POS[i] == 0 ) != ( i == REP ) || POS[i] >= LEN || AT[POS[i]] != i ) return false;
  return EQ[i] == NONE ? POS[i] + 1 == LEN : ( EQ[i] < NN && CM[EQ[i]] && POS[EQ[i]] == POS[i] + 1 );
}
static bool marked( uint64_t i ) { return ND[i].data[0].h2 == 1; }
static void mk_class_list()
{
  CM = (uint8_t*)__vf_symarray( "CM", 1, ~0ull );
  POS = (uint32_t*)__vf_symarray( "POS", 4, ~0ull );
  AT = (uint32_t*)__vf_symarray( "AT", 4, ~0ull );
  LEN = vf_range( "class_size", 1, NN + 1 );
  REP = vf_range( "repr", 0, NN );
  NEW = gate_arg( "choice" );
  vf_assume( POS[REP] == 0 && CM[REP] );
  vf_assume_forall( 0, 1ull << 30, class_ok );
}
static uint64_t TFI_CALLS;
/* what choice_search proves, for a search that starts with nothing visited and nobody working */
static bool tfi_stub( aig_with_choice* c, uint64_t const& n )
{
  uint64_t m = n;
  ++TFI_CALLS;
  vf_assert( c == CH && m == NEW, "searches-below-the-choice" );
  vf_assert_forall( "class-is-marked", 0, NN, []( uint64_t i ) -> bool { return marked( i ) == ( CM[i] != 0 ); } );
  vf_assert_forall( "nothing-visited-yet", 0, NN, []( uint64_t i ) -> bool { return !visited_now( i ); } );
  __vf_havoc_field( ND, 24 );
  if ( vf_bool( "found" ) ) return true;
  vf_assume_forall( 0, NN, closed );
  vf_assume( done( m ) );
  return false;
}
#endif
/* check_tfi marks exactly the class, starts a fresh traversal and unmarks the class again */
VF_PROOF( choice_below )
{
#ifdef VF_SYMBOLIC
  mk_classes( false );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !IP[i] && !marked( i ) && ND[i].data[1].h1 <= CH->_storage->data.trav_id; } );
  vf_assume( CH->_storage->data.trav_id < ~0u );
  mk_class_list();
  vf_contract( "check_tfi_rec(unsigned long const&)", &tfi_stub );
  vf_option( "loops_inv", 1 );
  vf_option( "inv_mem", 0 );
  auto chain = []( uint64_t p ) -> bool { return p == NONE || ( p < NN && CM[p] ); };
  auto marks = []( uint64_t p, uint64_t i ) -> bool {
    if ( i >= NN ) return true;
    return marked( i ) == ( CM[i] && ( p == NONE || POS[i] < POS[p] ) );
  };
  auto unmarks = []( uint64_t p, uint64_t i ) -> bool {
    if ( i >= NN ) return true;
    return marked( i ) == ( CM[i] && p != NONE && POS[i] >= POS[p] );
  };
  vf_loop_inv1( chain );
  vf_loop_forall1( marks );
  vf_loop_forall1( unmarks );
  TFI_CALLS = 0;
  bool found = CH->check_tfi( NEW, REP );
  vf_assert( TFI_CALLS == 1, "searched" );
  vf_assert_forall( "unmarked", 0, NN, []( uint64_t i ) -> bool { return !marked( i ); } );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static bool below( uint64_t i ) /* the nodes reachable from the choice, as choice_search and choice_below establish them */
{
  if ( i >= NN || !visited_now( i ) ) return true;
  return is_gate( ND, i ) && !CM[i] && done( ND[i].children[0].index ) && done( ND[i].children[1].index ) && done( EQ[i] );
}
static bool below_stub( aig_with_choice* c, uint64_t const& n, uint64_t const& r )
{
  uint64_t m = n, q = r;
  vf_assert( c == CH && m == NEW && q == REP, "checks-this-choice" );
  __vf_havoc_field( ND, 24 );
  CH->_storage->data.trav_id = vf_u32( "trav_id" );
  if ( vf_bool( "found" ) ) return true;
  vf_assume_forall( 0, NN, below );
  vf_assume( done( m ) );
  return false;
}
static bool same_up_to_phase( uint64_t a, uint64_t b ) { return ( ( V[a] ^ V[b] ^ PRED[a] ^ PRED[b] ) & 1 ) == 0; } /* PRED: here the phase bits */
static uint32_t* EQ0;
static uint64_t TAIL;
/* the level function of the extended relation: everything below the choice goes under everything else */
static uint64_t level_after( uint64_t i ) { return ( !is_gate( ND, i ) || visited_now( i ) ) ? L[i] : (uint64_t)L[i] + ( 1u << 30 ); }
#endif
VF_PROOF( choice_added )
{
#ifdef VF_SYMBOLIC
  mk_classes();
  mk_class_list();
  PRED = (uint32_t*)__vf_symarray( "phase", 4, ~0ull );
  /* nobody links to the choice yet, it has no class of its own, every node is its own class representative or listed with one it equals */
  vf_assume( EQ[NEW] == NONE );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return EQ[i] != NEW && ( EQ[i] == NONE || same_up_to_phase( i, EQ[i] ) ) && RP[i] < NN && same_up_to_phase( i, RP[i] ); } );
  vf_assume( same_up_to_phase( NEW, REP ) );
  vf_contract( "check_tfi(unsigned long const&, unsigned long const&)", &below_stub );
  vf_option( "loops_inv", 1 );
  vf_option( "inv_mem", 0 );
  auto chain = []( uint64_t p ) -> bool { return p < NN && CM[p] && same_up_to_phase( p, REP ); };
  vf_loop_inv1( chain );
  static uint64_t old_i, old_e, old_r;
  old_i = vf_range( "node", 0, NN );
  old_e = EQ[old_i];
  old_r = RP[old_i];
  TAIL = AT[LEN - 1];
  vf_assume( TAIL < NN && CM[TAIL] && POS[TAIL] == LEN - 1 );
  if ( !CH->set_choice( NEW, REP ) )
  {
    vf_assert( EQ[old_i] == old_e && RP[old_i] == old_r, "refused-choice-changes-nothing" );
    return;
  }
  vf_assert( REP < NEW, "choices-come-later" );
  vf_assert( EQ[TAIL] == NEW && EQ[NEW] == NONE && RP[NEW] == REP, "appended-to-the-class" );
  vf_assert( old_i == TAIL || EQ[old_i] == old_e, "other-links-kept" );
  vf_assert( old_i == NEW || RP[old_i] == old_r, "other-representatives-kept" );
  vf_assert_forall( "links-join-equal-functions", 0, NN, []( uint64_t i ) -> bool { return ( EQ[i] == NONE || ( EQ[i] < NN && same_up_to_phase( i, EQ[i] ) ) ) && same_up_to_phase( i, RP[i] ); } );
  vf_assert_forall( "acyclic-with-choices", 0, NN, []( uint64_t i ) -> bool {
    if ( !is_gate( ND, i ) ) return true;
    uint64_t l = level_after( i );
    return level_after( ND[i].children[0].index ) < l && level_after( ND[i].children[1].index ) < l && ( EQ[i] == NONE || level_after( EQ[i] ) < l );
  } );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
/* ---- the equivalence prover. Contract of the SAT solver: an answer "unsatisfiable under the assumptions" excludes every assignment that satisfies the clauses, so every valuation. */
static uint64_t SOLVES, UNSATS;
static int solve_stub( void*, int* begin, int* end )
{
  ++SOLVES;
  uint64_t n = end - begin;
  int r = (int)vf_u32( "answer" );
  if ( r != -1 ) return r;
  ++UNSATS;
  vf_assert( n <= 3, "few-assumptions" );
  bool all = true;
  for ( uint64_t i = 0; i < 3; ++i ) all = all && ( i >= n || lit_true( begin[i] ) );
  vf_assume( !all );
  return -1;
}
static void forget_vars()
{
  SP->_sat_vars = vf_range( "sat_vars", 1, 1u << 30 );
  __vf_havoc_array( VM );
  vf_assume_forall( 0, NN, mapped );
  vf_assume( VM[0] != 0 );
}
static uint64_t KEEP[2];
static void cnf_stub( sat_prover* p, uint64_t const& n )
{
  uint64_t m = n;
  vf_assert( p == SP && m < NN, "argument-in-range" );
  bool had[2];
  for ( int k = 0; k < 2; ++k ) had[k] = VM[KEEP[k]] != 0;
  forget_vars();
  vf_assume( VM[m] != 0 );
  for ( int k = 0; k < 2; ++k ) vf_assume( !had[k] || VM[KEEP[k]] != 0 );
}
static void recycle_stub( sat_prover* p )
{
  vf_assert( p == SP, "argument" );
  forget_vars();
}
static void unit_stub( void* ) {}
static void* new_solver() { return __vf_alloc( 8 ); }
#endif
/* nodes reported equivalent have equal values, up to their phases, under every input assignment */
VF_PROOF( proved_equivalent )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  uint64_t r = vf_range( "repr", 0, NN ), n = vf_range( "choice", 1, NN );
  vf_assume( r != n );
  KEEP[0] = r;
  KEEP[1] = n;
  vf_assume( !( V[0] & 1 ) && !( ND[0].data[1].h2 & aig_network::F_PHASE ) );
  vf_contract( "sat_solver_addclause(", &clause_holds );
  vf_contract( "sat_solver_solve(", &solve_stub );
  vf_contract( "sat_solver_new(", &new_solver );
  new ( &p._solver ) percy::bsat_wrapper();
  vf_contract( "cnf_node_add_to_solver(", &cnf_stub );
  vf_contract( "recycle_sat_solver(", &recycle_stub );
  vf_contract( "propaget_unit_clauses(", &unit_stub );
  auto ret = p.sat_prove( r, n );
  if ( ret == percy::failure )
  {
    bool pr = ND[r].data[1].h2 & aig_network::F_PHASE, pn = ND[n].data[1].h2 & aig_network::F_PHASE;
    vf_assert( ( ( V[r] & 1 ) == ( V[n] & 1 ) ) == ( pr == pn ), "equal-up-to-phase" );
    vf_cover( "equivalent" );
  }
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static std::vector<sig>* FV;
static uint64_t fsize() { return FV->_M_impl._M_finish - FV->_M_impl._M_start; }
static bool is_sig( uint64_t j, uint64_t data ) { return *(uint64_t*)( FA + j ) == data; }
static uint64_t raw( sig const& s ) { return *(uint64_t*)&s; }
/* the vector of fanins: appends the signal unless it is there */
static void push_stub( void*, std::vector<sig>& v, sig const& s )
{
  uint64_t d = raw( s ), n = v._M_impl._M_finish - v._M_impl._M_start;
  if ( vf_bool( "present" ) )
  {
    uint64_t w = vf_range( "position", 0, 1ull << 40 );
    vf_assume( w < n && *(uint64_t*)( v._M_impl._M_start + w ) == d );
    return;
  }
  *(uint64_t*)v._M_impl._M_finish = d;
  ++v._M_impl._M_finish;
}
static void mk_open_fanins( uint64_t lo )
{
  FV = (std::vector<sig>*)__vf_alloc( sizeof( std::vector<sig> ) );
  K = vf_range( "num_fanins", lo, 1u << 28 );
  vf_vector( *FV, "fanins", K );
  FA = FV->data();
}
#endif
VF_PROOF( push_unique )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  mk_open_fanins( 0 );
  sig s;
  static uint64_t d;
  d = vf_u64( "signal" );
  *(uint64_t*)&s = d;
  uint64_t j = vf_range( "position", 0, 1u << 28 );
  vf_assume( j < K );
  uint64_t old = *(uint64_t*)( FA + j );
  vf_option( "loops_inv", 1 );
  p.vector_push_unique( *FV, s );
  vf_assert( *(uint64_t*)( FA + j ) == old, "others-kept" );
  vf_assert( fsize() == K || ( fsize() == K + 1 && is_sig( K, d ) ), "at-most-one-more" );
  if ( fsize() == K )
  {
    vf_assume_forall( 0, K, []( uint64_t i ) -> bool { return !is_sig( i, d ); } );
    vf_assert( false, "already-present" );
  }
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static void gates_ok()
{
  L = (uint32_t*)__vf_symarray( "L", 4, ~0ull );
  vf_assume_forall( 0, NN, consistent );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !is_gate( ND, i ) || ( L[ND[i].children[0].index] < L[i] && L[ND[i].children[1].index] < L[i] ); } );
}
static uint64_t K0;
static uint64_t ROOTSIG;
static bool root_val() { return ( V[ROOTSIG >> 1] & 1 ) ^ ( ROOTSIG & 1 ); }
static bool raw_val( uint64_t d ) { return ( V[d >> 1] & 1 ) ^ ( d & 1 ); }
/* the fanins added stand for the signal: true when it is true; when it is false, one of all fanins is false */
static void super_stub( sat_prover* p, sig const& s, std::vector<sig>& v, bool )
{
  static uint64_t d, k0;
  d = raw( s );
  vf_assert( p == SP && ( d >> 1 ) < NN, "argument-in-range" );
  vf_assert( CUR == ~0ull || L[d >> 1] < L[CUR], "recursion-decreases" );
  FV = &v;
  FA = v._M_impl._M_start;
  k0 = fsize();
  uint64_t more = vf_range( "added", 0, 1ull << 28 );
  v._M_impl._M_finish = v._M_impl._M_start + ( k0 + more );
  vf_assume( fsize() >= 1 );
  vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i < k0 || i >= fsize() || ( FA[i].index < NN && ( !raw_val( d ) || val( FA[i] ) ) ); } );
  if ( !raw_val( d ) )
  {
    uint64_t w = vf_range( "false_input", 0, 1ull << 40 );
    vf_assume( w < fsize() && !val( FA[w] ) );
  }
}
#endif
VF_PROOF( super_gate )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  gates_ok();
  mk_open_fanins( 0 );
  vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= K || FA[i].index < NN; } );
  sig s;
  ROOTSIG = vf_u64( "signal" );
  vf_assume( ( ROOTSIG >> 1 ) < NN );
  *(uint64_t*)&s = ROOTSIG;
  CUR = ROOTSIG >> 1;
  vf_contract( "vector_push_unique(", &push_stub );
  vf_contract_rec( "collect_super(", &super_stub );
  uint64_t j = vf_range( "position", 0, 1u << 28 );
  vf_assume( j < K );
  uint64_t old = *(uint64_t*)( FA + j );
  p.collect_super( s, *FV, vf_bool( "first" ) );
  vf_assert( fsize() >= K && fsize() >= 1, "only-adds" );
  vf_assert( *(uint64_t*)( FA + j ) == old, "others-kept" );
  vf_assert_forall( "added-fanins-are-implied", 0, 1ull << 40, []( uint64_t i ) -> bool { return i < K || i >= fsize() || ( FA[i].index < NN && ( !root_val() || val( FA[i] ) ) ); } );
  if ( !root_val() )
  {
    vf_assume_forall( 0, 1ull << 40, []( uint64_t i ) -> bool { return i >= fsize() || val( FA[i] ); } );
    vf_assert( false, "a-false-gate-has-a-false-fanin" );
  }
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static std::vector<uint64_t>* FR; /* the worklist */
static uint64_t* FRA;
static uint64_t frsize() { return FR->_M_impl._M_finish - FR->_M_impl._M_start; }
#endif
/* a node without variable gets a fresh one (ghost: the variable then stands for it); gates also enter the worklist */
VF_PROOF( var_allocated )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  FR = (std::vector<uint64_t>*)__vf_alloc( sizeof( std::vector<uint64_t> ) );
  uint64_t f0 = vf_range( "worklist", 0, 1u << 28 );
  vf_vector( *FR, "frontier", f0 );
  FRA = FR->data();
  uint64_t n = vf_range( "n", 0, NN ), x = vf_range( "node", 0, NN ), j = vf_range( "position", 0, 1u << 28 );
  vf_assume( j < f0 && ND[0].children[0].data == ND[0].children[1].data );
  uint64_t oldf = FRA[j];
  uint32_t oldx = VM[x];
  bool had = VM[n] != 0;
  vf_assume( had || INV[p._sat_vars] == n );
  p.add_to_frontier( n, *FR );
  vf_assert( VM[n] != 0, "has-a-variable" );
  vf_assert_forall( "variables-stand-for-nodes", 0, NN, mapped );
  vf_assert( x == n || VM[x] == oldx, "other-variables-kept" );
  vf_assert( !had || VM[n] == oldx || x != n, "existing-variable-kept" );
  vf_assert( FRA[j] == oldf, "worklist-kept" );
  bool put = !had && is_gate( ND, n );
  vf_assert( put ? frsize() == f0 + 1 && FRA[f0] == n : frsize() == f0, "gates-are-worked-on" );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static uint32_t *USED, *UI;
static uint64_t NU;
static bool listed( uint64_t x ) { return x == 0 || VM[x] == 0 || ( UI[x] < NU && USED[UI[x]] == x ); }
static void restart_stub( void* )
{
  /* the variables start over: number 1 is the constant's */
  vf_assert_forall( "no-variable-left", 0, NN, []( uint64_t x ) -> bool { return x == 0 || VM[x] == 0; } );
  __vf_havoc_array( INV );
  vf_assume( INV[1] == 0 );
}
static void nvars_stub( void*, int ) {}
#endif
/* recycling forgets every variable and starts over with the constant */
VF_PROOF( vars_recycled )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  vf_assume( !( V[0] & 1 ) && !( ND[0].data[1].h2 & aig_network::F_PHASE ) );
  USED = p._used_nodes.data();
  NU = p._used_nodes.size();
  UI = (uint32_t*)__vf_symarray( "UI", 4, ~0ull );
  vf_assume_forall( 0, NU, []( uint64_t k ) -> bool { return USED[k] < NN; } );
  vf_assume_forall( 0, NN, listed );
  vf_contract( "sat_solver_restart(", &restart_stub );
  vf_contract( "sat_solver_setnvars(", &nvars_stub );
  vf_contract( "sat_solver_addclause(", &clause_holds );
  vf_option( "loops_inv", 1 );
  auto cleared = []( uint64_t p, uint64_t x ) -> bool { return x == 0 || x >= NN || VM[x] == 0 || ( UI[x] >= p && UI[x] < NU && USED[UI[x]] == x ); };
  vf_loop_forall1( cleared );
  p.recycle_sat_solver();
  vf_assert_forall( "variables-stand-for-nodes", 0, NN, mapped );
  vf_assert_forall( "no-variable-left", 0, NN, []( uint64_t x ) -> bool { return x == 0 || VM[x] == 0; } );
  vf_assert( VM[0] != 0, "constant-has-a-variable" );
  vf_assert( p._used_nodes.size() == 0, "used-nodes-forgotten" );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
static uint64_t GC[4]; /* grandchildren of the node worked on */
static void frontier_stub( sat_prover* p, uint64_t const& n, std::vector<uint64_t>& fr )
{
  uint64_t m = n;
  vf_assert( p == SP && m < NN, "argument-in-range" );
  vf_assert_forall( "variables-stand-for-nodes", 0, NN, mapped );
  if ( VM[m] != 0 ) return;
  vf_assume( SP->_sat_vars < 1u << 30 );
  vf_assume( INV[SP->_sat_vars] == m );
  VM[m] = SP->_sat_vars;
  ++SP->_sat_vars;
  if ( is_gate( ND, m ) )
  {
    *fr._M_impl._M_finish = m;
    ++fr._M_impl._M_finish;
  }
}
static uint8_t* MX; /* which gates are multiplexers */
static bool is_mux_stub( aig_with_choice*, uint64_t const& n ) { return MX[n] & 1; }
static void mux_stub( sat_prover* p, uint64_t const& n )
{
  uint64_t m = n;
  vf_assert( p == SP && m < NN && VM[m] != 0, "node-has-a-variable" );
  vf_assert( MX[m] & 1, "node-is-a-multiplexer" );
  for ( int k = 0; k < 2; ++k )
    for ( int j = 0; j < 2; ++j ) vf_assert( VM[ND[ND[m].children[k].index].children[j].index] != 0, "inputs-have-variables" );
}
static void and_stub( sat_prover* p, uint64_t const& n, std::vector<sig>& v )
{
  static uint64_t m;
  m = n;
  vf_assert( p == SP && m < NN && is_gate( ND, m ) && VM[m] != 0, "node-has-a-variable" );
  FA = v._M_impl._M_start;
  K = v._M_impl._M_finish - v._M_impl._M_start;
  vf_assert_forall( "inputs-have-variables", 0, K, []( uint64_t i ) -> bool { return FA[i].index < NN && VM[FA[i].index] != 0; } );
  vf_assert_forall( "inputs-of-a-true-gate", 0, K, []( uint64_t i ) -> bool { return !( V[m] & 1 ) || val( FA[i] ); } );
  if ( !( V[m] & 1 ) && vf_bool( "examine" ) )
  {
    vf_assume_forall( 0, K, []( uint64_t i ) -> bool { return val( FA[i] ); } );
    vf_assert( false, "a-false-gate-has-a-false-input" );
    vf_assume( false );
  }
}
static void vec_u64_init( std::vector<uint64_t>* v )
{
  FR = v;
  FRA = (uint64_t*)__vf_symarray( "frontier", 8, ~0ull );
  v->_M_impl._M_start = v->_M_impl._M_finish = FRA;
  v->_M_impl._M_end_of_storage = (uint64_t*)__vf_inf( FRA );
}
static void vec_sig_init( std::vector<sig>* v )
{
  FV = v;
  FA = (sig*)__vf_symarray( "fanin_list", 8, ~0ull );
  v->_M_impl._M_start = v->_M_impl._M_finish = FA;
  v->_M_impl._M_end_of_storage = (sig*)__vf_inf( FA );
}
#endif
/* the worklist gives every node it reaches a variable and the clauses of its gate, before any answer is asked for */
VF_PROOF( cone_encoded )
{
#ifdef VF_SYMBOLIC
  auto& p = mk_prover();
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !is_gate( ND, i ) || ( ND[i].children[0].index < NN && ND[i].children[1].index < NN ); } );
  vf_assume( ND[0].children[0].data == ND[0].children[1].data );
  CUR = ~0ull;
  static uint64_t n;
  n = gate_arg( "n" );
  vf_assume( VM[n] == 0 ); /* otherwise nothing happens beyond var_allocated */
  MX = (uint8_t*)__vf_symarray( "MX", 1, ~0ull );
  vf_assume_forall( 0, NN, []( uint64_t i ) -> bool { return !( MX[i] & 1 ) || ( is_gate( ND, i ) && is_gate( ND, ND[i].children[0].index ) && is_gate( ND, ND[i].children[1].index ) ); } );
  vf_contract( "aig_with_choice::is_mux(", &is_mux_stub );
  mk_open_fanins( 0 );
  KEEP[0] = vf_range( "node", 0, NN );
  uint32_t old = VM[KEEP[0]];
  vf_contract( "_Vector_base<unsigned long, std::allocator<unsigned long> >::_Vector_impl_data::_Vector_impl_data()", &vec_u64_init );
  vf_contract( "_Vector_base<iFPGA::aig_network::signal, std::allocator<iFPGA::aig_network::signal> >::_Vector_impl_data::_Vector_impl_data()", &vec_sig_init );
  vf_contract( "vector_push_unique(", &push_stub );
  vf_contract( "collect_super(", &super_stub );
  vf_contract( "add_to_frontier(", &frontier_stub );
  vf_contract( "add_clauses_mux(", &mux_stub );
  vf_contract( "add_clauses_super(", &and_stub );
  vf_option( "loops_inv", 1 );
  vf_option( "inv_mem", 0 );
  vf_option( "forget_pointers", 1 );
  vf_option( "probe_fast", 1 );
  static uint32_t kept;
  kept = old;
  auto m = []( uint64_t i ) -> bool { return i >= NN || mapped( i ); };
  auto keep = []() -> bool { return VM[0] != 0 && VM[n] != 0 && ( kept == 0 || VM[KEEP[0]] == kept ); };
  auto work = []( uint64_t i ) -> bool { return i >= frsize() || ( FRA[i] < NN && is_gate( ND, FRA[i] ) && VM[FRA[i]] != 0 ); };
  auto given = []( uint64_t p, uint64_t i ) -> bool { return i >= p || VM[FA[i].index] != 0; };
  vf_loop_forall0( m );
  vf_loop_inv0( keep );
  vf_loop_forall0( work );
  __vf_loop_over( "fanin_list" );
  vf_loop_forall1( given );
  p.cnf_node_add_to_solver( n );
  vf_assert( VM[n] != 0 || n == 0, "has-a-variable" );
  vf_assert( kept == 0 || VM[KEEP[0]] == kept, "existing-variables-kept" );
  vf_assert_forall( "variables-stand-for-nodes", 0, NN, mapped );
  vf_cover( "end" );
#endif
}
#ifdef VF_SYMBOLIC
/* ---- sweeping: nodes of the original network and their images. Ghost V values of the images (network CH), U values of the original nodes. */
static choice_computation* CC;
static anode* AN; /* original nodes */
static uint64_t AN_N;
static uint8_t* U;
static sig* O2N;
static uint64_t *RPV, *SIMR;
static bool ph_new( uint64_t i ) { return ND[i].data[1].h2 & aig_network::F_PHASE; }
static bool ph_old( uint64_t i ) { return AN[i].data[1].h2 & aig_network::F_PHASE; }
static bool dropped( uint64_t i ) { return O2N[i].index == NONE; }
/* an image computes the function of its node, and the phases agree as the functions do; proved representatives are earlier nodes equal up to phase */
static bool image_ok( uint64_t i )
{
  if ( RPV[i] != i && !( RPV[i] < i && ( ( ( U[i] ^ U[RPV[i]] ) & 1 ) == ( ph_old( i ) != ph_old( RPV[i] ) ) ) ) ) return false;
  if ( dropped( i ) ) return true;
  auto s = O2N[i];
  return s.index < NN && ( U[i] & 1 ) == val( s ) && ph_old( i ) == ( ph_new( s.index ) != (bool)s.complement );
}
static percy::synth_result prove_stub( sat_prover*, uint64_t const& r, uint64_t const& n )
{
  uint64_t a = r, b = n;
  vf_assert( a < NN && b < NN && a != b, "arguments" );
  uint64_t k = vf_range( "result", 0, 3 );
  if ( k == 0 )
  {
    vf_assume( ( ( V[a] & 1 ) == ( V[b] & 1 ) ) == ( ph_new( a ) == ph_new( b ) ) );
    return percy::failure;
  }
  return k == 1 ? percy::success : percy::timeout;
}
static void resim_stub( choice_computation*, uint64_t const&, uint64_t const& ) {}
#endif
/* sweeping a node keeps the functions: merged with its representative only when the prover showed them equal */
VF_PROOF( node_swept )
{
#ifdef VF_SYMBOLIC
  auto* c = (choice_computation*)__vf_alloc( sizeof( choice_computation ) );
  CC = c;
  mk_choice();
  __builtin_memcpy( (void*)&c->_fraig, (void*)CH, sizeof( aig_with_choice ) );
  aig_network& a = mk_aig( AN_N );
  __builtin_memcpy( (void*)&c->_aig, (void*)&a, sizeof( aig_network ) );
  AN = a._storage->nodes.data();
  U = (uint8_t*)__vf_symarray( "U", 1, ~0ull );
  vf_vector( c->_old2new, "old2new", AN_N );
  vf_vector( c->_repr_proved, "repr_proved", AN_N );
  vf_vector( c->_simulator._reprs, "sim_reprs", AN_N );
  O2N = c->_old2new.data();
  RPV = c->_repr_proved.data();
  SIMR = c->_simulator._reprs.data();
  vf_assume_forall( 0, AN_N, image_ok );
  vf_assume_forall( 0, AN_N, []( uint64_t i ) -> bool { return SIMR[i] <= i; } );
  uint64_t n = vf_range( "n", 1, AN_N ), x = vf_range( "node", 0, AN_N );
  vf_assume( !dropped( n ) && RPV[n] == n );
  uint64_t ox = raw( O2N[x] ), rx = RPV[x];
  vf_contract( "sat_prove(", &prove_stub );
  vf_contract( "choice_computation::resimulate(", &resim_stub );
  c->sweep_node( n, O2N[n].index );
  vf_assert( x == n || ( raw( O2N[x] ) == ox && RPV[x] == rx ), "other-nodes-kept" );
  vf_assert( image_ok( n ), "same-function" );
  vf_cover( "end" );
#endif
}
