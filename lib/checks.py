"""What each property's check runs."""
import core

CHECKS = {}

CHECKS["L01"] = dict(
    parts=[dict(src="rlib.cpp", variant="asan", dirs=["rlib"], n=(86000, 1500000))],
    rule="distinct operation/length histories applied to a real container and its sequence model",
    need=["array_steps", "carray_steps", "list_steps", "string_steps", "large_arrays", "large_carrays", "sorted", "buffer_appends", "string_helpers", "large_double_strings"])
CHECKS["L02"] = dict(
    parts=[dict(src="rlib.cpp", variant="asan", dirs=["rlib"], n=(300000, 1500000))],
    rule="distinct operation/size histories applied to a real keyed container and its ordered-multimap model",
    need=["map_steps", "hash_steps", "harray_steps", "large_maps", "large_hashes", "large_harrays", "large_double_keys", "long_number_keys"])
CHECKS["L03"] = dict(
    parts=[dict(src="rlib.cpp", variant="asan", dirs=["rlib"], n=(2000, 60000))],
    rule="distinct code points and byte strings decoded/encoded (all 1,114,112 code points in every run)",
    need=["code_points", "utf8_steps", "utf16_steps"])
CHECKS["L04"] = dict(
    parts=[dict(src="threads.cpp", variant="tsan", dirs=["rlib"], n=(500, 12000), workers=3, share=0.5),
           dict(src="threads.cpp", variant="tsandbg", dirs=["rlib"], n=(400, 10000), workers=3, share=0.6),
           dict(src="threads.cpp", variant="asandbg", dirs=["rlib"], n=(400, 10000), workers=3, share=0.7),
           dict(src="threads.cpp", variant="opt", dirs=["rlib"], n=(600, 60000), workers=3)],
    rule="distinct (primitive, thread count, iteration count, contention) workloads run by 2-6 threads",
    need=["lock_acquisitions", "atomic_kind0_ops", "atomic_kind1_ops", "atomic_kind2_ops", "atomic_kind3_ops", "atomic_kind4_ops", "ref_ops", "alloc_ops"])

CHECKS["X01"] = dict(
    parts=[dict(src="rex.cpp", dirs=["rlib", "rex"], n=(120000, 600000))],
    rule="distinct patterns compiled and matched against a position-automaton reference",
    need=["matches", "long_matches", "patterns_large", "non_matches", "op_rep", "op_negclass", "op_alt", "op_star", "blank_sets"])
CHECKS["X02"] = dict(
    parts=[dict(src="rex.cpp", dirs=["rlib", "rex"], n=(18000, 150000))],
    rule="distinct pattern sets and hand-built automata converted; every reachable (DFA state, reference state) pair driven by every character class",
    need=["product_states", "sim_steps", "dfa_states", "hand_steps", "hand_sim_steps", "word_sets", "word_steps"])
CHECKS["X03"] = dict(
    parts=[dict(src="rex.cpp", dirs=["rlib", "rex"], n=(60000, 500000))],
    rule="distinct patterns scanned over generated texts, every match enumerated",
    need=["scan_found", "scan_none", "match_at_end", "texts_with_several", "long_matches"])
CHECKS["X04"] = dict(
    parts=[dict(src="rex.cpp", dirs=["rlib", "rex"], n=(60000, 600000))],
    rule="distinct pattern texts (valid, malformed by construction, hostile) offered in histories to one database",
    need=["refused", "accepted", "standalone_refused", "after_checks"])

CHECKS["X05"] = dict(
    parts=[dict(build=core.rexcc_harness, variant="opt", n=(2200, 60000))],
    rule="distinct lexer specifications given to the real generator, its C output compiled, loaded and walked next to the patterns; invalid and mutated specifications",
    need=["specs", "lexers_compiled", "product_states", "tokens", "id_string", "id_char", "specs_crlf", "stdout_compared", "dfa_dumps", "nfa_dumps", "rule_dumps", "substates_compared", "bad_patterns", "bad_structure", "bad_ids", "error_lines", "id_long", "prolog_percents", "prolog_large", "epilog_large", "mutated_specs", "specs_refused"])

CHECKS["X06"] = dict(
    parts=[dict(build=core.rexgrep_harness, variant="opt", n=(1500, 60000))],
    rule="distinct pattern sets; each run by the real tool over generated texts under several option combinations and compared with the lines and parts the patterns define",
    need=["lines_matching", "lines_other", "parts", "runs_nfa", "runs_dfa", "runs_quiet", "runs_names", "runs_matched", "runs_unmatched", "automata_saved", "automata_loaded", "pattern_files", "dumps", "from_files", "from_stdin", "from_pipe", "from_argument", "from_directory", "refusals", "texts_long_match", "texts_long_gap", "debug_build_runs"])

CHECKS["V01"] = dict(
    parts=[dict(src="rvm.cpp", dirs=["rlib", "rvm"], n=(60000, 400000))],
    rule="distinct (instruction, operands, flags) executions compared with a reference machine, and multi-word carry chains",
    need=["op_ADC", "op_SBC", "op_ASR", "op_DVS", "divzero_reported", "carry_chains"])
CHECKS["V02"] = dict(
    parts=[dict(src="rvm.cpp", dirs=["rlib", "rvm"], n=(120000, 400000))],
    rule="distinct generated programs assembled through the code generator and run next to a reference machine",
    need=["programs_run", "calls", "loops", "patched_branches", "undefined_labels", "relocated_again", "locals", "block_transfer", "service_calls", "data_added_again", "leaves", "traced_runs", "pointer_labels", "numbered_labels", "strings", "code_taken_back", "string_relocations", "tables_replaced", "high_registers_stored", "long_data", "large_scopes"])
CHECKS["V03"] = dict(
    parts=[dict(src="rvm.cpp", dirs=["rlib", "rvm"], n=(120000, 1000000))],
    rule="distinct hostile programs run on exact-size stacks under ASan next to a reference machine",
    need=["error_0", "error_1", "error_2", "error_4", "error_5", "error_6", "error_7", "error_8", "error_11"])

CHECKS["V04"] = dict(
    parts=[dict(src="rvmreg.cpp", dirs=["rlib", "rvm"], n=(800000, 20000000))],
    rule="distinct sequences of typed values, conversions, object graphs, immediates and label histories given to real registers and code maps and compared with models",
    need=["values_set", "flag_changes", "string_copies", "array_copies", "conversions_0", "conversions_1", "conversions_2", "cyclic_collections", "acyclic_collections", "immediates", "handlers_called", "slot_addresses", "slots_outside", "globals", "labels_resolved", "labels_unresolved", "long_collected_arrays"])

CHECKS["P01"] = dict(
    parts=[dict(src="rpa.cpp", n=(20000, 300000))],
    rule="distinct grammar texts, each loaded in two layouts and run on generated texts next to a reference reading of the grammar",
    need=["matches", "non_matches", "op_choice", "op_not", "op_minus", "op_group", "op_class", "anonymous", "many_rules", "long_names", "deep_groups", "large_classes"])
CHECKS["P02"] = dict(
    parts=[dict(src="rpa.cpp", n=(40000, 300000))],
    rule="distinct left-recursive grammars (operator grammars and recursion cycles) parsed next to a seed-growing reference",
    need=["parsed", "not_parsed", "operator_grammars", "cyclic_grammars", "nullable_hops", "deep_left_nesting", "long_chains", "parsed_again"])
CHECKS["P03"] = dict(
    parts=[dict(src="rpa.cpp", n=(18000, 300000))],
    rule="distinct grammars with recording directives, every record of every parse compared with the tree read off the grammar",
    need=["parsed", "records", "with_earlier_records", "parsed_again", "nested_3", "left_recursive", "emitid_after_none", "rules_before_directives"])
CHECKS["P04"] = dict(
    parts=[dict(src="rpa.cpp", n=(8000, 150000))],
    rule="distinct (grammar, texts) observed under all eight optimisation/bitmap/cache settings",
    need=["observations", "matched", "scanned", "left_recursive", "aborts", "first_characters"])
CHECKS["P05"] = dict(
    parts=[dict(src="rpa.cpp", n=(36000, 300000))],
    rule="distinct grammars and texts, each text in every encoding that holds it, with and without ignoring case, plus malformed bytes",
    need=["byte", "byte+icase", "utf8", "utf8+icase", "utf16le", "utf16le+icase", "malformed_texts", "matched", "unmatched", "scans"])
CHECKS["P06"] = dict(
    parts=[dict(src="rpa.cpp", variant="tsan", n=(700, 12000), workers=3, share=0.7), dict(src="rpa.cpp", variant="opt", n=(2400, 40000), workers=3, share=1)],
    rule="distinct grammars shared by 2-6 threads, each thread's every result compared with the single-threaded one",
    need=["threads", "operations", "operations_matched"])
CHECKS["P07"] = dict(
    parts=[dict(src="rpa.cpp", n=(14000, 300000))],
    rule="distinct hostile grammar texts, call sequences, nesting depths, stack sizes and inputs",
    need=["texts_refused", "texts_accepted", "positions_checked", "undefined_rules", "misuse_refused", "stack_exhausted", "deep_default_stack", "long_inputs", "aborted", "rules_run", "scan_exhausted", "scan_small_stack"])
CHECKS["P08"] = dict(
    parts=[dict(src="rpa.cpp", n=(12000, 250000))],
    rule="distinct histories of matching, scanning, parsing, failing, reloading, redefining and recompiling on one database",
    need=["matched", "scan_found", "reloads", "redefinitions", "recompiles", "failed_compiles", "refused_loads", "failures_between", "aborts", "name_checks", "text_changed_in_place", "same_text_again", "many_uses", "lr_aborts", "lr_parsed", "lr_unparsed", "lr_appended", "steady_uses", "steady_aborts"])
CHECKS["P09"] = dict(
    parts=[dict(src="rpa.cpp", n=(180000, 2000000))],
    rule="distinct record trees (bushy, chains beyond 128 levels, wide, empty), every index in and out of range",
    need=["navigation", "walks", "copies", "moves", "moves_refused", "usertype_edits", "out_of_range", "deeper_than_128", "deeper_than_1000", "wider_than_1000", "numbers", "dumps"])

CHECKS["P10"] = dict(
    parts=[dict(build=core.rpagrep_harness, variant="opt", n=(2500, 60000))],
    rule="distinct grammars; each run by the real tool over generated texts under several modes, encodings and option combinations and compared with what the grammar defines",
    need=["matches", "lines_matching", "lines_other", "records", "mode_match", "mode_parse", "mode_texts", "mode_tree", "runs_matched", "runs_unmatched", "runs_icase", "runs_quiet", "texts_utf16", "texts_byte", "texts_malformed", "texts_long", "grammar_files", "grammar_args", "from_files", "from_stdin", "from_pipe", "from_argument", "from_directory", "switch_optimizations", "switch_cache", "switch_bitmap", "bad_syntax", "bad_symbol", "dumps", "texts_bom_only", "debug_build_runs"])

CHECKS["J01"] = dict(
    parts=[dict(build=core.json_harness, n=(160000, 2000000))],
    rule="distinct texts accepted; every \\u escape, every byte in and around strings, and every short token sequence in each run",
    need=["accepted", "refused", "too_deep", "escapes_swept", "sequences_swept", "large_texts", "positions"])
CHECKS["J02"] = dict(
    parts=[dict(build=core.json_harness, n=(240000, 800000))],
    rule="distinct histories of value operations next to a plain-data model, with every kind of write parsed independently",
    need=["writes", "self_assignments", "assignments", "appends", "copies", "moves", "reads", "wrong_types", "large_values", "to_strings", "containers_set"])
CHECKS["J03"] = dict(
    parts=[dict(build=core.json_harness, n=(200000, 2000000))],
    rule="distinct texts parsed into exact-size record arrays, every record and every navigation step compared with an independent parse",
    need=["parsed", "unexpected", "too_deep", "no_memory", "navigation", "agreements", "dumps", "sequences_swept", "large_texts"])

CHECKS["J04"] = dict(
    parts=[dict(build=core.rpc_harness, n=(16000, 800000))],
    rule="distinct requests (values and texts, well formed or not) to servers whose registrations change, every call logged and every response compared",
    need=["calls", "calls_by_name", "succeeded", "described", "method_errors", "error-1", "error-32600", "error-32601", "error-32602", "error-32700", "registrations", "refused_registrations", "large_requests", "large_strings", "many_methods"])
CHECKS["J05"] = dict(
    parts=[dict(build=core.rpc_harness, n=(100000, 800000))],
    rule="distinct histories of reads, writes, paths, copies and assignments on property trees, all variables and hook calls compared after each step",
    need=["writes", "writes_ill_typed", "writes_not_permitted", "writes_vetoed", "reads", "reads_refused", "paths", "paths_followed", "paths_refused", "self_assignments", "assignments", "appends", "as_json", "hook_calls", "large_trees", "deep_trees"])

TECH = dict(
    J04="sanitized request streams against a model of the registered methods, call log and response compared per request",
    J05="sanitized histories on bound property trees next to a model of variables, hooks and paths",
    J01="sanitized generated, mutated and exhaustively enumerated short texts against an independent JSON parser",
    J02="sanitized value-operation histories next to a plain-data model, output judged by an independent JSON parser",
    J03="sanitized parses into exact-size arrays, records and navigation compared with an independent parse",
    L01="sanitized stress with an in-order sequence model as online oracle, leak accounting per history",
    L02="sanitized stress with an ordered-multimap model as online oracle, leak accounting per history",
    L03="exhaustive code-point sweep and hostile bytes under ASan with a reference UTF codec as oracle",
    L04="ThreadSanitizer and counting monitors over multi-threaded stress with injected delays",
    X01="sanitized generated patterns and texts with a position-automaton reference as online oracle",
    X02="product walk of the real automaton against a reference automaton under sanitizers, plus stepwise simulation monitors",
    X03="sanitized scans enumerated against a try-every-position reference",
    X05="the sanitized generator run on generated specifications; its compiled tables walked against a position-automaton reference",
    X06="the sanitized tool run on generated patterns, texts and options; output and exit status compared with a reference grep",
    X04="sanitized hostile-pattern histories with refusal, unchanged-database and leak monitors",
    V01="sanitized single-instruction and carry-chain executions against a reference machine",
    V02="sanitized generated programs, assembled, relocated and executed next to a reference machine",
    P01="sanitized generated grammars run next to a reference evaluator as online oracle",
    P02="sanitized left-recursive grammars run next to a seed-growing reference, record trees compared",
    P03="record arrays of sanitized parses checked against the tree read off the grammar",
    P04="the same sanitized observations under every engine setting compared with the reference and each other",
    P05="sanitized runs of the same text in every encoding against a reference evaluator over code points",
    P06="ThreadSanitizer over many threads sharing one compiled grammar, results compared with single-threaded ones",
    P07="sanitized hostile grammars, inputs, call sequences and stack limits with error, position, hang and leak monitors",
    P08="sanitized operation histories on one database compared step by step with a reference over the rules in force",
    P10="the sanitized tool run on generated grammars, texts, modes and options; output and exit status compared with a reference evaluation of the grammar",
    P09="sanitized record arrays of known shape, every navigation answer compared with the tree they were made from",
    V04="sanitized register, conversion, collector and label histories next to a model; destruction events counted",
    V03="hostile programs under AddressSanitizer on an exact-size stack with a reference machine predicting the stop",
)
NOTE = {}
NOT_APPLICABLE = []
