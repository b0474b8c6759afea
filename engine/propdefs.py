"""Text of the properties (source of properties.jsonl; MANIFEST.json is generated for those that have a check in props.py)."""
D = []

def P(id, title, statement, over, qtext, why, files, mech, tech=None, note=None):
    D.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note))

AIG = 'include/database/network/aig_network.hpp'
STO = 'include/database/network/details/storage.hpp'
DED = 'deductive verification of the real headers (contracts, ghost state and loop invariants over LLVM IR; VCs discharged by z3/cvc5)'
BND = 'contract-based verification; the end-to-end contract is executed natively on bounded inputs (bounded stand-in)'

P('C01', 'AIG constructors return a literal with the named Boolean function',
  'Every operation that builds logic in an AND-inverter graph (and, nand, or, nor, xor, xnor, less-than, less-or-equal, if-then-else, majority, three-input xor, n-ary and/or/xor, not, buffer, constants) returns a literal whose function, for every input assignment, is the named function of the operand literals. Literals handed out earlier keep their functions. Evaluating a gate from given values or truth tables of its fanins gives the conjunction of the fanin literals.',
  ['inputs', 'histories'], 'all networks, all operand literals including equal, complementary and constant ones, all operand counts of n-ary operations, all input assignments',
  'tests build a handful of gates and check a few literals; trivial-case and polarity combinations are not enumerated',
  [AIG], [('create_and trivial cases and hashing', AIG), ('derived constructors', AIG), ('balanced reduction', 'include/utils/range.hpp')],
  DED, 'create_and is verified against the contracts of the hash table for networks of any size, every other constructor against the contract of create_and; n-ary reductions by induction for any operand count')
P('C02', 'Structural hashing is canonical: one gate per fanin pair',
  'Requesting a conjunction of two literals that already has a live gate returns that gate, in either operand order; otherwise exactly one fresh gate is created. This holds through any history of creation, deletion, growth and rehashing, and the query whether a conjunction exists answers yes exactly when no new gate would be needed.',
  ['histories', 'inputs'], 'all sequences of creations, deletions and table growth; all fanin pairs',
  'tests never grow the table, never delete under collisions and never look at the chains',
  [STO, AIG], [('hash_find / hash_insert / hash_erase / hash_reserve', STO), ('create_and, find_and', AIG)],
  DED, 'hash_find, hash_insert, hash_erase and their callers create_and/find_and proved for tables and chains of any size; rehashing (hash_reserve) is bounded-checked by histories that force it')
P('C03', 'Node, input, output and register bookkeeping of an AIG stays consistent',
  'After any sequence of construction calls the counts, index/position queries and iterations over nodes, gates, inputs, outputs, registers and fanins agree with what was created, in creation order; every gate refers to two different earlier non-constant nodes and every stored fanout count equals the number of references. Observers registered for additions see every new gate exactly once.',
  ['histories'], 'all construction histories',
  'tests check fixed small examples',
  [AIG], [('create_pi/po/ro/ri, foreach_*, *_at, *_index', AIG)], DED, 'creation of inputs, outputs and registers, position queries, counts and every iteration are verified for networks of any size; gate creation by the contract of create_and; that registered observers see every new gate once is checked on bounded histories only')
P('C04', 'Substituting a node redirects every use of it and nothing else',
  'Replacing a node by a literal that does not depend on it makes every output compute what it would compute with the node\'s value replaced by that literal, for every input assignment. Afterwards the old node is dead, live gates have live, unique, sorted fanin pairs and are still found by hashing, and fanout counts equal the number of references.',
  ['histories', 'inputs'], 'all networks, all pairs of node and independent replacement literal, all sequences of substitutions',
  'tests substitute in one XOR circuit; cascades of merges and deletions are not reached',
  [AIG, STO], [('substitute_node(s), replace_in_node, replace_in_outputs, take_out_node', AIG), ('hash_erase/hash_insert', STO)], BND, None)
P('C05', 'Cut operations are exact set operations',
  'A cut stores exactly the leaves it was given, copies are independent of the original, merging two cuts succeeds exactly when the union of their leaf sets has at most the allowed number of leaves and then yields the sorted union without duplicates, and one cut dominates another exactly when its leaves are a subset.',
  ['inputs'], 'all pairs of sorted leaf sets (any indices, colliding signatures included), all size limits', 'tests merge a few small cuts; signature collisions never occur there',
  ['include/database/cut/cut.hpp'], [('merge, dominates, set_leaves, copying', 'include/database/cut/cut.hpp')], DED, 'proved for the listed pairs of cut sizes with arbitrary leaf values (no bound on the values); the remaining size pairs run the same contract natively')
P('C06', 'Cut enumeration finds valid, irredundant cuts with the right functions',
  'Cut enumeration returns for every node a list of at most the allowed number of cuts in which every cut has at most the allowed number of sorted leaves that separate the node from the inputs, no cut contains another, and the truth table of a cut is the function of the node in terms of its leaves; while no limit is reached all irredundant cuts are found. A cut set keeps its cuts in order of cost through any sequence of insertions, removals and truncations and only ever drops dominated or worst cuts.',
  ['inputs', 'histories', 'configurations'], 'all networks, cut sizes and limits; all operation sequences on cut sets', 'tests enumerate cuts of one tiny network',
  ['include/database/cut/cut_set.hpp', 'include/database/cut/cut_enumeration.hpp'], [('cut set maintenance', 'include/database/cut/cut_set.hpp'), ('merge and truth tables', 'include/database/cut/cut_enumeration.hpp')], BND, None)
P('C07', 'The truth-table cache returns literals that denote the stored function for ever',
  'Inserting a truth table in the cache returns a literal that from then on denotes exactly that function (the opposite literal denotes its complement); equal functions get equal literals, complementary functions opposite literals, and no insertion changes what earlier literals denote.',
  ['histories', 'inputs'], 'all functions, all insertion histories, any number of entries', 'tests insert two functions',
  ['include/utils/truth_table_cache.hpp'], [('insert, operator[]', 'include/utils/truth_table_cache.hpp')], DED, 'insert and operator[] proved for a cache of any size (std::unordered_map by contract, 6-variable instance of the template) and executed with the real map on symbolic functions')
P('C08', 'The AIGER delta code is a bijection on 32-bit differences',
  'Writing any 32-bit difference in the binary AIGER delta code yields one to five bytes, in canonical form, from which a conforming reader recovers exactly that difference; bytes already in the buffer are untouched.',
  ['inputs'], 'all 2^32 differences', 'tests do not write binary AIGER with large indices',
  ['include/operations/io/detail/write_aiger.hpp'], [('encode', 'include/operations/io/detail/write_aiger.hpp')], DED, None)
P('C10', 'A LUT network computes and reports exactly what was put in',
  'In a k-LUT network every named operation (not, and, or, less-than, less-or-equal, xor, majority, if-then-else, three-input xor, n-ary and/or/xor) and every node created from an arbitrary function and fanin list computes that function of its fanins, for single values and whole truth tables; counts, kinds, positions, iteration orders, fanins and fanout counts agree with what was created, and application fields written by algorithms do not change them. Substituting a node redirects all its uses.',
  ['inputs', 'histories'], 'all functions of up to 6 fanins, all construction histories', 'tests build one or two LUTs and never evaluate them',
  ['include/database/network/klut_network.hpp'], [('named operations, create_node, compute', 'include/database/network/klut_network.hpp'), ('bookkeeping', 'include/database/network/klut_network.hpp')], DED, 'functions proved symbolically for up to 6 fanins; bookkeeping histories are bounded')
P('C11', 'Truth-table operations compute the pointwise Boolean operation',
  'For every function of the supported number of variables, the truth-table operations (connectives, cofactors, variable negation and swap, projection, support test, extension, shrinking, minimum base and expansion, bit access, counting, comparison) give at every input minterm the value of the named operation, and unused bits of small tables stay zero.',
  ['inputs'], 'all functions of up to 9 variables, all variables, all minterms (larger tables, up to 12 variables, sampled)', 'tests use the library only indirectly on a few functions',
  ['libs/kitty/include/kitty/operations.hpp', 'libs/kitty/include/kitty/bit_operations.hpp', 'libs/kitty/include/kitty/static_truth_table.hpp', 'libs/kitty/include/kitty/dynamic_truth_table.hpp'],
  [('operations', 'libs/kitty/include/kitty/operations.hpp'), ('bit operations', 'libs/kitty/include/kitty/bit_operations.hpp'), ('operators', 'libs/kitty/include/kitty/operators.hpp')],
  DED, 'every table of the instantiated sizes (2,3,4,5,6,8,9 variables, not every operation at every size) is covered symbolically; other sizes share the template code and are sampled natively up to 12 variables')
P('C12', 'Covers, clauses and circuits derived from a truth table denote exactly that function',
  'The irredundant sum-of-products cover computed for a function contains every minterm of it and no other one; the clauses computed for a function hold exactly when the output variable has the value of the function; and the circuits built from a function (factored form, balanced sum of products, conversion of a LUT network into an AND-inverter graph) compute exactly that function of their operands.',
  ['inputs'], 'all functions (covers proved for 6 and fewer variables, circuits for up to 6 variables sampled), all operand literals', 'tests derive a cover or circuit for a few functions only',
  ['libs/kitty/include/kitty/isop.hpp', 'libs/kitty/include/kitty/cnf.hpp', 'include/operations/optimization/detail/sop_refactoring.hpp', 'include/operations/optimization/balancing/sop_balancing.hpp', 'include/operations/algorithms/detail/convert_to_aig.hpp'],
  [('isop, isop_rec', 'libs/kitty/include/kitty/isop.hpp'), ('cnf_characteristic', 'libs/kitty/include/kitty/cnf.hpp')], DED,
  'each level of the recursion of the cover computation is proved against the contract of the deeper level for all functions and any list of earlier cubes; the clause form is proved against the contract of the cover; factoring and balancing are bounded')
P('C14', 'Rewriting preserves every output function',
  'Optimising an AND-inverter graph by DAG-aware rewriting, with any combination of its parameters, returns a network with the same inputs and outputs in the same order whose outputs compute the same functions. The result is again a well-formed network without duplicate or degenerate gates.',
  ['inputs', 'configurations'], 'all combinational networks, all parameter settings', 'tests do not run the pass with an equivalence check',
  ['include/operations/optimization/rewrite.hpp', 'include/operations/optimization/detail/node_rewriting.hpp'],
  [('cut evaluation and replacement', 'include/operations/optimization/rewrite.hpp'), ('database structures', 'include/operations/optimization/detail/node_rewriting.hpp')], BND, None)
P('C15', 'AND balancing preserves every output function and never deepens',
  'Balancing the AND trees of a network returns a network with the same interface and the same output functions whose depth is not larger; the source network is left as it was.',
  ['inputs'], 'all combinational networks', 'tests balance one four-input tree and one small network',
  ['include/operations/optimization/and_balance.hpp'], [('super-gate collection and rebuild', 'include/operations/optimization/and_balance.hpp')], BND, None)
P('C16', 'Refactoring preserves every output function',
  'Refactoring a network, with any combination of its parameters, returns a well-formed network with the same interface and the same output functions.',
  ['inputs', 'configurations'], 'all combinational networks, all parameter settings', 'tests only run two examples and do not compare functions',
  ['include/operations/optimization/refactor.hpp'], [('reconvergence-driven cut, SOP factoring, replacement', 'include/operations/optimization/refactor.hpp')], BND, None)
P('C19', 'Clean-up keeps exactly the logic that drives outputs',
  'Cleaning up a network returns a compact copy with the same inputs, outputs, output functions and depth that contains exactly the gates reachable from outputs, in an order where fanins precede fanouts; the source network is unchanged.',
  ['inputs'], 'all combinational networks, with dangling and dead gates', 'not tested on its own',
  ['include/operations/algorithms/cleanup.hpp'], [('cleanup_network / cleanup_dangling', 'include/operations/algorithms/cleanup.hpp')], BND, None)
P('C20', 'LUT mapping covers the network with bounded LUTs and the same functions',
  'Mapping a network to K-input lookup tables, for every cut size, cut limit and iteration count the tool accepts, yields a LUT network with the same inputs and outputs in which every LUT has at most K fanins and whose outputs compute the same functions; converting it back to an AND-inverter graph preserves the functions too, also after any script of optimisation passes.',
  ['inputs', 'configurations', 'programs'], 'all combinational networks, K in 2..6, cut limits 6..20, all flow/area iteration counts, all pass scripts', 'tests map one small network',
  ['include/operations/algorithms/klut_mapping.hpp', 'include/operations/algorithms/network_to_klut.hpp', 'include/operations/algorithms/detail/convert_to_aig.hpp'],
  [('cut selection and cover', 'include/operations/algorithms/klut_mapping.hpp'), ('LUT network derivation', 'include/operations/algorithms/network_to_klut.hpp')], BND, None)
P('C21', 'Cone dereference and reference are inverse and measure the cone',
  'Dereferencing a node\'s cone in the reference counters returns the size of its maximum fanout-free cone, and referencing it again returns the same number and restores every counter.',
  ['inputs'], 'all combinational networks, all gates', 'not tested directly',
  ['include/operations/algorithms/ref_deref.hpp'], [('recursive dereference/reference', 'include/operations/algorithms/ref_deref.hpp')], BND, None)
P('C23', 'Generated clauses describe the network; miter and equivalence check decide equality',
  'The clauses generated for a network hold under an assignment exactly when every gate variable has the value of its gate and the constant is false, so that each output literal has the value of its output; the miter of two networks is true exactly for the input assignments on which some pair of corresponding outputs differs; and combinational equivalence checking reports equivalence exactly when there is no such assignment, giving one as counterexample otherwise.',
  ['inputs'], 'all combinational networks, all assignments', 'tests generate clauses and check equivalence for one or two small networks',
  ['include/operations/algorithms/cnf.hpp', 'include/operations/algorithms/miter.hpp', 'include/operations/algorithms/equivalence_checking.hpp'],
  [('clause generation', 'include/operations/algorithms/cnf.hpp'), ('miter', 'include/operations/algorithms/miter.hpp'), ('equivalence check', 'include/operations/algorithms/equivalence_checking.hpp')], DED,
  'clauses of every gate kind, of a whole AIG of any size, and the output literals are proved; LUT networks, the miter and the run of the SAT solver are bounded')
P('C24', 'Per-node application data are independent and node-local',
  'Reading or writing one of a node\'s application fields (value, visited mark, fanout count, phase, marks) never changes another field of that node or any field of another node; bulk clears reset exactly one field of every node; a gate\'s phase is its value when all inputs are 0.',
  ['inputs', 'histories'], 'all nodes, all values, all interleavings of field operations', 'tests use value and visited on a few nodes',
  [AIG], [('bit-packed node data', AIG)], DED, None)

P('C09', 'AIGER files are written and read back as the same network',
  'Writing a network as an AIGER file and reading the file with a conforming reader yields the same inputs, registers, outputs and their names in the same order, the same reset values and the same functions; reading any well-formed binary or ASCII AIGER file (gates only with ordered literals in the binary format, registers with or without reset values, any subset of named ports) yields the network it describes.',
  ['inputs'], 'all networks and names; all well-formed files', 'tests read one or two files and never read back what is written',
  ['include/operations/io/detail/write_aiger.hpp', 'include/operations/io/reader.hpp', 'libs/lorina/lorina/aiger.hpp'],
  [('write_aiger', 'include/operations/io/detail/write_aiger.hpp'), ('aiger reader', 'include/operations/io/reader.hpp'), ('file parsing', 'libs/lorina/lorina/aiger.hpp')], DED,
  'the delta code round trip, the gate record round trip, the output line and the reader callbacks are proved for all operands; whole files (names, resets, headers, sections) are bounded')
P('C17', 'Levels and depth are longest-path lengths',
  'The level of a node in a depth view is 0 for constants and inputs and otherwise one more than the largest level of its fanins (complemented edges counted as one when requested), and the depth is the largest level over the outputs; nodes and outputs added later get the level this defines.',
  ['inputs', 'histories'], 'all combinational networks in any node order, all growth histories', 'tests compute the depth of one adder',
  ['include/database/views/depth_view.hpp'], [('compute_levels', 'include/database/views/depth_view.hpp'), ('on_add, create_po', 'include/database/views/depth_view.hpp')], DED,
  'recursion by its contract for acyclic networks of any size; growth and output loop proved; view lifetime and k-LUT instance bounded')
P('C18', 'The topological view lists exactly the logic of the outputs, fanins first',
  'A topological view of a combinational network lists the constants, then the inputs in order, then every gate in the cones of the outputs (or of the chosen signal) exactly once and after all its fanins, and nothing else; positions and counts agree with that list, whatever order the nodes were created or rewired in.',
  ['inputs'], 'all combinational networks in any node order', 'tests look at one tiny network',
  ['include/database/views/topo_view.hpp'], [('create_topo_rec, update_topo', 'include/database/views/topo_view.hpp')], DED,
  'placement of a cone proved by the contract of the recursion for acyclic networks of any size; counts, positions and the k-LUT instance bounded')
P('C25', 'Simulation gives every node and output the value of its function',
  'Simulating a network, for a single assignment, for whole truth tables or for lists of patterns, gives every input the value of the simulator, every node the value of its function and every output, in order, the value of its driver complemented when the output is; bringing simulated pattern values up to date after patterns were added gives the same values as simulating anew.',
  ['inputs', 'histories'], 'all combinational networks in topological order, all simulators, all sequences of added patterns', 'tests simulate one or two small networks',
  ['include/operations/algorithms/simulation.hpp', AIG, 'libs/kitty/include/kitty/partial_truth_table.hpp'],
  [('simulate_nodes, simulate', 'include/operations/algorithms/simulation.hpp'), ('compute', AIG)], DED,
  'simulate_nodes and simulate proved for AIGs of any size with 64-bit values and an arbitrary simulator; single Boolean values, other table types, LUT networks and the incremental pattern simulation are bounded')
P('C26', 'Written Verilog and LUT netlists describe the network',
  'The Verilog file written for an AND-inverter graph and the LUT netlist written for a mapped network are legal netlists (every identifier declared once, every wire driven once) whose ports are the inputs and outputs in order under their names and whose outputs compute the functions of the network, whatever the port names are.',
  ['inputs'], 'all networks, all distinct legal port names', 'tests write one file and do not look at it',
  ['include/operations/io/detail/write_verilog.hpp', 'include/operations/io/detail/writer_lut.hpp'], [('write_verilog', 'include/operations/io/detail/write_verilog.hpp'), ('write_lut', 'include/operations/io/detail/writer_lut.hpp')], BND, None)

P('C27', 'Structural choices are equivalent logic and never change a function',
  'Merging equivalent networks keeps the interface and the functions of the first one. In the network with choices computed from it every output computes the same function, every listed choice equals its representative up to the complement given by their phases, a node is listed in at most one class, no node reaches itself through fanins and choices, and mapping with choices yields LUT networks with the same functions, for all mapping parameters.',
  ['inputs', 'configurations'], 'all networks, all sets of equivalent variants, all mapping parameters', 'tests never compute or map choices',
  ['include/operations/algorithms/choice_miter.hpp', 'include/operations/algorithms/choice_computation.hpp', 'include/operations/algorithms/aig_with_choice.hpp', 'include/operations/algorithms/klut_mapping.hpp'],
  [('merging', 'include/operations/algorithms/choice_miter.hpp'), ('SAT encoding, proving, sweeping', 'include/operations/algorithms/choice_computation.hpp'), ('choice classes', 'include/operations/algorithms/aig_with_choice.hpp'), ('mapping', 'include/operations/algorithms/klut_mapping.hpp')], DED,
  'encoding of multiplexers, AND gates and super-gates, variable allocation, the prover, sweeping and the class lists (acyclicity included) proved for networks of any size against the contract of the SAT solver (an UNSAT answer excludes all assignments satisfying the clauses); merging, simulation, derivation and mapping bounded')

# text added per property in DESIGN.md; what caught which seed when it is not simply the property's own check
DESIGN = {}
CAUGHT = {
    'S01': 'check C01 (n-ary proof)', 'S02': 'check C02 (proof of the pair query)', 'S04': 'check C24 (proof `node_fields`)',
    'S05': 'check C04 (history, bounded)', 'S06': 'check C05 (proof of `dominates`)', 'S07': 'check C05 (proof of `merge`)',
    'S08': 'check C07 (history and proof `cache_insert`)', 'S09': 'check C08 (proof `encode`)', 'S10': 'check C09 (round trip)',
    'S11': 'check C10 (history with repeated substitution; the history was extended because mutants of this kind were missed)',
    'S12': 'check C12 (`lut_to_aig`)', 'S13': 'check C19 (cleanup history)', 'S14': 'check C23 (equivalence history)',
    'S15': 'check C15 (balancing)', 'S16': 'check C25 (simulation history)', 'S19': 'check C17 (proof of the level of a new gate)',
    'S20': 'check C18 (topological order)', 'S21': 'check C26 (netlist read back)', 'S03': 'check C20 (mapping)',
}
