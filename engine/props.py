"""What each check consists of: driver units (contracts to discharge, bounded stand-ins to execute)."""

def U(driver, proofs=(), natives=(), **k):
    d = dict(driver=driver, proofs=list(proofs), natives=list(natives))
    d.update(k)
    return d

NAT = 'bounded stand-ins run the real code natively (ASan/UBSan where noted in the driver) on seeded random networks and compare with an independent exhaustive evaluation; they never count as proved'

PROPS = {
    'C01': dict(level='proof', units=[
        U('aig_core.cpp', ['literal_ops', 'create_and', 'constructors', 'create_xor', 'create_ternary', 'nary_and', 'nary_or', 'nary_xor']),
        U('aig_book.cpp', ['evaluate_gate'], natives=['evaluate_partial']),
        U('aig_native.cpp', natives=['ctor_semantics'])]),
    'C02': dict(level='proof', units=[
        U('aig_core.cpp', ['hash_find', 'hash_insert', 'hash_erase', 'create_and', 'find_and']),
        U('aig_native.cpp', natives=['strash_large', 'hash_history', 'ctor_semantics'])]),
    'C03': dict(level='proof', units=[
        U('aig_core.cpp', ['create_and']),
        U('aig_book.cpp', ['io_create', 'io_queries', 'io_change', 'co_position', 'po_position', 'ri_position', 'register_of_input', 'each_pi', 'each_ro', 'each_ci', 'each_po', 'each_ri', 'each_co', 'each_node', 'each_gate', 'each_register', 'each_fanin']),
        U('aig_native.cpp', natives=['construction_history', 'registers', 'ctor_semantics'])]),
    'C04': dict(level='exploration', units=[
        U('aig_core.cpp', ['hash_erase', 'hash_insert', 'hash_find']),
        U('aig_native.cpp', natives=['substitute'])]),
    'C05': dict(level='proof', units=[U('cut.cpp', ['leaves_0', 'leaves_1', 'leaves_4', 'leaves_7', 'signature_sum_lemma', 'popcount_lemma', 'sig_bound_3_3', 'sig_bound_4_4', 'sig_bound_6_6',
                                       'merge_1_1', 'merge_1_3', 'merge_2_2', 'merge_3_3', 'merge_2_4', ('merge_4_4', 500), 'dom_0_2', 'dom_1_1', 'dom_1_3', 'dom_2_4', 'dom_3_3', 'dom_3_5', 'dom_4_6', 'dom_6_7'],
                                      natives=[('merge_6_6', 4000)], ms=1000)]),
    'C06': dict(level='exploration', units=[U('cut.cpp', ['support_2_3', 'support_3_5', 'support_6_6'], natives=[('cut_set_history', 20000), ('cut_enum', 40000)])]),
    'C07': dict(level='proof', units=[U('klut.cpp', ['cache_insert', ('node_fn_real_2', 500)], natives=[('cache_history', 8000)])]),
    'C09': dict(level='proof', units=[
        U('enc.cpp', ['encode', 'delta_round_trip'], soft=['delta_round_trip']),
        U('aiger_sym.cpp', [('gate_round_trip', 500), 'output_line', 'reader_and', 'reader_outputs'], soft=['gate_round_trip', 'output_line']),
        U('io.cpp', natives=[('aiger_write', 15000), ('aiger_read', 15000), ('aiger_read_ascii', 10000)])]),
    'C10': dict(level='proof', units=[U('klut.cpp', ['klut_named'] + ['node_fn_%d' % i for i in (1, 2, 3, 4, 5, 6)], natives=[('klut_history', 20000)])]),
    'C08': dict(level='proof', units=[U('enc.cpp', ['encode'])]),
    'C11': dict(level='proof', units=[
        U('tt_ops.cpp', ['%s_%s' % (a, b) for b in ('s3', 's4', 's6', 's8', 'd2', 'd4', 'd6', 'd8') for a in ('bool', 'pred', 'bits')] +
          ['var_s4', 'var_s6', 'var_s8', 'var_d4', 'var_d6', 'var_d8', 'var_d9', 'swap_s4', 'swap_s6', 'swap_s8', 'swap_d3', 'swap_d5', 'swap_d6', 'swap_d8', 'swap_d9', 'extend_small', 'extend_large', 'min_base_2', 'min_base_3', 'min_base_4', 'min_base_6'], natives=[('large_tables', 8000)], ms=300)]),
    'C12': dict(level='proof', units=[
        U('func_sym.cpp', [('isop_step_6_%d' % i, 350) for i in range(7)] + [('isop_step_4_4', 300), 'isop_top_6', 'isop_top_3', 'cnf_char_6', 'cnf_char_2'],
          natives=[('isop_cover', 10000), ('cnf_rows', 8000), ('sop_circuits', 15000), ('sop_balanced', 15000), ('lut_to_aig', 15000)])]),
    'C14': dict(level='exploration', units=[
        U('passes_native.cpp', natives=[('rewrite_api', 20000), ('rewrite_equiv', 90000)])]),
    'C15': dict(level='exploration', units=[U('passes_native.cpp', natives=[('balance_equiv', 30000)])]),
    'C16': dict(level='exploration', units=[U('passes_native.cpp', natives=[('refactor_equiv', 60000)])]),
    'C17': dict(level='proof', units=[U('views.cpp', ['level_of_node', 'depth_of_network', 'level_on_add', 'depth_on_output'], natives=[('depth_levels', 15000), ('klut_levels', 5000)])]),
    'C18': dict(level='proof', units=[U('views.cpp', [('topo_place_node', 400), ('topo_inputs', 500), ('topo_roots', 500)], natives=[('topo_order', 15000)])]),
    'C19': dict(level='exploration', units=[U('passes_native.cpp', natives=[('cleanup_equiv', 20000)])]),
    'C20': dict(level='exploration', units=[U('passes_native.cpp', natives=[('map_equiv', 60000), ('script_equiv', 60000)])]),
    'C21': dict(level='exploration', units=[U('aig_native.cpp', natives=['deref_ref'])]),
    'C23': dict(level='proof', units=[
        U('sat_sym.cpp', ['literals', 'gate_clauses_raw', 'gate_clauses_bill', 'output_literals', ('network_clauses', 200), ('network_clauses_satisfiable', 200)],
          natives=[('cnf_aig', 10000), ('cnf_lut', 10000), ('miter_function', 10000), ('equivalence', 20000)])]),
    'C24': dict(level='proof', units=[
        U('aig_core.cpp', ['field_independence', 'trav_id_step', 'clear_values_all', 'create_and']),
        U('aig_native.cpp', natives=['node_fields', 'node_phase'])]),
    'C25': dict(level='proof', units=[
        U('sim_sym.cpp', [('node_values', 200), 'output_values'], natives=[('simulate_aig', 10000), ('simulate_lut', 10000), ('simulate_patterns', 15000)])]),
    'C26': dict(level='exploration', units=[U('io.cpp', natives=[('verilog_netlist', 20000), ('lut_netlist', 30000)])]),
    'C27': dict(level='proof', units=[
        U('choice_sym.cpp', ['mux_recognized', 'mux_clauses_sound', 'mux_clauses_complete', ('and_clauses_sound', 300), ('and_clauses_complete', 400), 'choice_search', 'choice_below', 'choice_added',
                             'proved_equivalent', 'push_unique', 'super_gate', 'var_allocated', 'vars_recycled', 'node_swept']),
        U('choice_native.cpp', natives=[('miter_merge', 10000), ('choice_equiv', 60000)])]),
}
for k, v in PROPS.items():
    v.setdefault('bounded', NAT)
