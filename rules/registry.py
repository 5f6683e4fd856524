"""Which rules decide which property."""
ASSUMPTIONS = [
    'the MIR the nightly compiler builds from /repo means what the shipped stable build means',
    'library functions (std, roxmltree, xmltree, indexmap, regex, once_cell, convert_case, thiserror, serde) behave as modelled in engine/leafs.py',
    'functions with no interpretable normal form are reported as undecided in the evidence, not as violations',
]
CHECKS = {}
def reg(pid, title, rules, floor=1):
    # floor: obligations on the confirmed tree; code written more compactly has fewer, an analysis gone blind has next to none
    CHECKS[pid] = dict(title=title, rules=rules, floor=(floor + 1) // 2)

reg('C13', 'builders', [('model_build', 'check_build'), ('model_build', 'check_setters'), ('model_build', 'check_from')], floor=200)
reg('C14', 'modify_from', [('model_build', 'check_modify')], floor=100)
reg('C10', 'validation levels', [('model_valid', 'check_levels'), ('model_valid', 'check_passed')], floor=180)
reg('C11', 'validation rules', [('model_valid', 'check_rules')], floor=34)
reg('C32', 'validate_all', [('model_valid', 'check_all')], floor=9)
reg('C15', 'derive_from', [('model_derive', 'check')], floor=95)
reg('C21', 'iterators', [('model_iter', 'check_iter')], floor=38)
reg('C22', 'lookups', [('model_iter', 'check_get')], floor=14)

reg('C01', 'reader tables', [('model_parse', 'check_fields'), ('model_parse', 'check_parts'), ('model_parse', 'check_array')], floor=115)
reg('C02', 'repeated children', [('model_parse', 'check_lists'), ('model_parse', 'check_regcluster')], floor=15)
reg('C03', 'number grammar', [('model_parse', 'check_numbers')], floor=4)
reg('C04', 'texts and booleans', [('model_parse', 'check_text')], floor=16)
reg('C05', 'bit range notations', [('model_parse', 'check_bits')], floor=4)
reg('C06', 'keyword tables', [('model_parse', 'check_keywords')], floor=110)
reg('C07', 'no malformed part accepted', [('model_parse', 'check_strict_parts')], floor=90)
reg('C08', 'panic freedom', [('model_panic', 'check_parser')], floor=55)
reg('C09', 'error location', [('model_parse', 'check_errors')], floor=30)
reg('C23', 'writer tables', [('model_encode', 'check_elements'), ('model_encode', 'check_wrappers'), ('model_encode', 'check_entry')], floor=200)
reg('C24', 'encoder configuration', [('model_encode', 'check_config'), ('model_encode', 'check_entry'), ('model_encode', 'check_options'), ('model_encode', 'check_nested')], floor=180)
reg('C25', 'sorting', [('model_encode', 'check_groups')], floor=40)
reg('C26', 'formats', [('model_encode', 'check_formats'), ('model_encode', 'check_written')], floor=80)
reg('C27', 'names written and read', [('model_encode', 'check_tags')], floor=125)

reg('C12', 'name grammar', [('model_valid', 'check_names')], floor=20)
reg('C33', 'single or array', [('model_misc', 'check_array')], floor=40)
reg('C35', 'bit ranges', [('model_misc', 'check_bitrange')], floor=14)
reg('C36', 'queries', [('model_misc', 'check_queries'), ('model_value', 'check_defaults')], floor=14)
reg('C37', 'truth of errors', [('model_report', 'check_kinds'), ('model_report', 'check_report'), ('model_report', 'check_invalid'), ('model_report', 'check_messages')], floor=226)

reg('C16', 'array expansion', [('model_array', 'check_expand')], floor=32)
reg('C17', 'index lists', [('model_array', 'check_indexes'), ('model_parse', 'check_array'), ('model_encode', 'check_dim')], floor=14)

reg('C29', 'parser options', [('model_config', 'check_setters'), ('model_config', 'check_independence'), ('model_config', 'check_steps')], floor=80)
reg('C30', 'effects', [('model_effects', 'check')], floor=1000)
reg('C31', 'processing steps', [('model_config', 'check_steps')], floor=5)
reg('C20', 'property inheritance', [('model_expand', 'check_properties')], floor=18)
reg('C18', 'derivation paths', [('model_paths', 'check_paths'), ('model_paths', 'check_index'), ('model_paths', 'check_derive'), ('model_flat', 'check')], floor=140)
reg('C19', 'expansion of a device', [('model_flat', 'check'), ('model_paths', 'check_derive'), ('model_array', 'check_expand'), ('model_derive', 'check')], floor=205)
reg('C34', 'termination', [('model_term', 'check')], floor=30)
reg('C28', 'serialization', [('model_serde', 'check_names'), ('model_serde', 'check_omitted'), ('model_serde', 'check_shape'), ('model_serde', 'check_hand'), ('model_serde', 'check_aborts')], floor=560)
reg('C38', 'panic freedom', [('model_abort', 'check_writing'), ('model_abort', 'check_handling'), ('model_abort', 'check_expanding')], floor=520)
reg('C39', 'plain values', [('model_value', 'check_owned'), ('model_value', 'check_equal'), ('model_value', 'check_closed')], floor=500)
reg('C40', 'termination of operations', [('model_ends', 'check')], floor=120)
