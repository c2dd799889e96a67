"""What each check runs. parts: harness checks (vh run <check>) with (cases, time cap in seconds)."""

GEN = ("cases are seeded random grammars (rules, alternatives, loops, greedy and non greedy subrules, calls, "
       "left recursion with precedence/associativity, predicates) compiled to a serialized ATN, times random inputs "
       "(sentences, mutated sentences, noise; hidden tokens interspersed); distinct = distinct (ATN, input) pairs "
       "hashed; every counted evaluation was judged by the oracle")

CHECKS = {}


def chk(pid, quick, thorough, rule=GEN, must=(), parts=None, assume=(), level="exploration"):
    CHECKS[pid] = dict(
        parts=parts or [dict(quick=quick, thorough=thorough)],
        rule=rule, must_see=list(must), assumptions=list(assume), level=level)


REF = "the reference recogniser in harness/src/oracle.rs defines the language and the derivation of a grammar"
chk("P01", (80000, 200), (2000000, 780), must=["accepted_inputs", "rejected_inputs"], assume=[REF])
chk("P02", (80000, 200), (2000000, 780), must=["ambiguous_decisions", "full_context_predictions"], assume=[REF])
chk("P03", (40000, 200), (1000000, 780), must=["cached_states", "clean_parses", "parses_with_errors"])
chk("P04", (40000, 200), (1000000, 780), must=["sll_clean", "sll_context_errors", "ll_full_context"], assume=[REF])
chk("P05", (50000, 200), (1500000, 780), must=["tree_nodes", "error_nodes"])
chk("P06", (50000, 200), (1500000, 780), must=["tree_nodes_compared"], assume=[REF])
chk("P07", (80000, 200), (2000000, 780), must=["syntax_errors_observed", "conjured_tokens", "error_nodes"])
chk("P08", (50000, 200), (1500000, 780), must=["accepted", "cancelled"], assume=[REF])
chk("P09", (80000, 200), (2000000, 780), must=["first_errors_located", "expected_sets_compared", "no_viable_alternative"], assume=[REF])
chk("P10", (80000, 200), (2000000, 780), must=["decisions_compared"], assume=[REF])
chk("P11", (50000, 200), (1500000, 780), must=["listener_events", "walker_events", "parses_with_errors"])
chk("P12", (60000, 200), (1500000, 780), must=["ambiguities_reported", "context_sensitivities_reported", "diagnostic_messages"], assume=[REF])
chk("P13", (80000, 200), (2000000, 780), must=["extraneous", "missing", "mismatch", "noalt", "pred", "deletions_at_blocks", "loops_resynchronised", "tokens_skipped", "failsafe_consumptions"],
    assume=["the model of the documented error strategy in harness/src/model.rs, which takes predictions from the observed run (P02, P09 judge those)"])
chk("P14", (60000, 200), (1500000, 780), must=["sentences_accepted", "clean_prefixes", "full_context_predictions", "start_rule_called_elsewhere", "start_rule_with_eof", "start_rule_without_eof"], assume=[REF])
LEX = ("cases are seeded random lexer grammars (literals, sets, ranges, loops greedy and non greedy, fragments, "
       "commands, modes, custom actions, predicates, characters of all planes) compiled to a serialized ATN, times random "
       "inputs, read through all kinds of character streams and token factories; distinct = distinct (ATN, input) pairs")
LREF = "the reference lexer in harness/src/lex.rs defines what a lexer grammar means"
chk("L01", (40000, 200), (2000000, 780), rule=LEX, must=["maximal_munch_judged", "errors_judged", "nongreedy_prunings"], assume=[LREF])
chk("L02", (24000, 200), (1000000, 780), rule=LEX, must=["characters_covered", "tokens", "lexer_errors"])
chk("L03", (40000, 200), (2000000, 780), rule=LEX, must=["actions_run", "predicates_evaluated", "tokens_in_other_modes", "tokens_with_mode_stack", "tokens_on_other_channels"], assume=[LREF])
chk("L04", (20000, 200), (1000000, 780), rule=LEX, must=["cached_states", "new_states"])
OPS = ("cases are seeded random texts or token sequences and random operation histories on every kind of stream; every "
       "result of every operation is compared with a list model; distinct = distinct (input, kind, history) hashed")
chk("S01", (400000, 200), (20000000, 780), rule=OPS, must=["consumed", "lookaheads", "lookbacks", "seeks", "texts", "iterations"])
chk("S02", (400000, 200), (20000000, 780), rule=OPS, must=["consumed", "lookaheads", "lookbacks", "seeks", "resets", "texts", "windows_measured", "streams_Common", "streams_Buffered", "streams_Unbuffered", "iterations"])
chk("S03", (16000, 200), (1000000, 780), must=["streams_and_factories_compared", "encodings_compared", "parses_with_errors"])
chk("D01", (200000, 200), (20000000, 780), rule="cases are seeded random operation histories on three interval sets and random name tables; distinct = distinct set values reached",
    must=["set_operations", "memberships", "names_looked_up", "sets_with_several_elements", "read_only_sets"])
chk("D02", (60000, 200), (3000000, 780), rule="cases are seeded random parser and lexer grammars, serialized, loaded and compared part by part; distinct = distinct serialized networks",
    must=["lexer_grammars", "parser_grammars", "states_compared", "transitions_compared", "symbols_matched", "return_transitions_compared", "damaged_networks"])
chk("D03", (100000, 200), (3000000, 780), rule="cases are seeded random parser grammars, about all states each, random valid call stacks; distinct = distinct networks",
    must=["next_token_sets_compared", "expected_sets_compared", "stacks_of_several_rules", "states_reaching_the_rule_end"])
CON = ("cases are seeded random grammars; 4 threads at once parse (or lex) the same inputs in different orders on caches "
       "and a network not used before, with yields, spins and sleeps injected at stream operations and callbacks; "
       "distinct = distinct grammars plus distinct interleavings (order of the threads' stream operations)")
chk("X01", None, None, rule=CON,
    parts=[dict(quick=(6000, 150), thorough=(400000, 500), n=4),
           dict(quick=(1200, 120), thorough=(60000, 220), n=3, kind="tsan", tag="tsan_")],
    must=["concurrent_parses", "concurrent_lexings", "thread_switches_observed", "tsan_concurrent_parses", "tsan_concurrent_lexings"],
    assume=["parking_lot 0.11.2 is built from a copy with one memory ordering corrected when ThreadSanitizer is on (tsan/Cargo.toml)"])
MEM = ("cases are seeded random parses, lexings and stream histories over all token factories, stream kinds, strategies; "
       "bytes and blocks not freed are counted by the allocator per thread; AddressSanitizer and Miri watch the same "
       "kind of workload (counters asan_, miri_); distinct = distinct cases")
chk("X02", None, None, rule=MEM,
    parts=[dict(quick=(40000, 120), thorough=(2000000, 300)),
           dict(quick=(12000, 90), thorough=(800000, 200), kind="asan", tag="asan_"),
           dict(quick=(800, 80), thorough=(4000, 220), kind="miri", tag="miri_", check="X02M", limit=2500)],
    must=["memory_balances", "clean_parses", "parses_with_errors", "cancelled_parses", "lexer_events", "asan_memory_balances",
          "asan_cancelled_parses", "miri_clean_parses", "miri_lexer_events"])
chk("X03", (24000, 200), (1000000, 780), rule="cases are seeded random grammars with four inputs parsed (or lexed) in four rounds on the same caches; distinct = distinct (grammar, inputs)",
    must=["parser_caches", "lexer_caches", "cached_states", "cached_contexts"])
chk("R01", (6000, 120), (300000, 780), rule="cases are seeded random grammars built from a tile (random small grammar) repeated in a long chain or nested deeply, with inputs of up to thousands of tokens; the derivation of the whole must be composed of the derivations of the tiles; distinct = distinct (grammar, input) pairs",
    must=["chained_tokens", "nested_tokens"])
