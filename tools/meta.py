#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the definitions below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
SIM = "src/parser_atn_simulator.rs"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None,
         technique="", note="", level="exploration"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})
    CHECKS.append({
        "property": id,
        "quick_cmd": "python3 run.py %s quick" % id,
        "thorough_cmd": "python3 run.py %s thorough" % id,
        "technique": technique, "level": level, "level_note": note})


ORA = "Held on the executions counted in the evidence; trusts the reference recogniser of the harness."

prop("P01", "A parser accepts exactly the language of its grammar",
     "For every grammar and every token sequence, a parse with adaptive LL(*) prediction reports no syntax error if and only if the sequence (up to where the start rule ends, with EOF matched where the grammar asks for it) can be derived from the start rule with the given predicate values (predicates count in the decisions that can see them without passing a token). Tokens on other channels never influence the verdict, and the bail-out strategy gives the same verdict as the default one.",
     ["programs", "inputs", "configurations"], "all grammars (any decisions, loops, calls, recursion, sets, wildcards, predicates), all token sequences, default and bail strategies",
     "The repository's tests parse a handful of fixed inputs with six fixed grammars; adaptive prediction is exercised on a few decisions only.",
     [SIM, "src/parser.rs", "src/transition.rs", "src/common_token_stream.rs", "src/atn_config_set.rs", "src/prediction_context.rs"],
     [("adaptive prediction: SLL, then full context", "src/parser_atn_simulator.rs: adaptive_predict, exec_atn, exec_atn_with_full_context"),
      ("graph structured stack merge", "src/prediction_context.rs: merge"),
      ("symbol matching", "src/transition.rs: matches; src/parser.rs: match_token")],
     observe=["error listener callbacks", "result of the start rule"],
     technique="runtime monitoring: generated grammars and inputs, accept/reject verdict checked online against a reference recogniser", note=ORA)
prop("P02", "Predictions follow the first viable alternative and trees match derivation",
     "For every sentence of a grammar, each prediction takes the lowest-numbered alternative that lets the rest of the input be derived in the actual calling context, and the returned parse tree is exactly the tree of that derivation (rules, alternatives, order and tokens of children, start and stop tokens).",
     ["programs", "inputs"], "all grammars and all their sentences, ambiguous or not",
     "Needs a full-context oracle per decision; the tests compare a few printed trees.",
     [SIM, "src/parser.rs", "src/prediction_mode.rs", "src/prediction_context.rs", "src/ll1_analyzer.rs"],
     [("conflict detection and resolution to the minimum alternative", "src/prediction_mode.rs; src/parser_atn_simulator.rs: compute_reach_set"),
      ("tree construction", "src/parser.rs: enter_rule/exit_rule/match_token/enter_outer_alt")],
     observe=["value returned by each prediction", "returned parse tree"],
     technique="runtime monitoring: every prediction and every tree node compared with a reference derivation", note=ORA)
prop("P03", "Earlier parses never influence later ones through shared caches",
     "Parsing an input gives the same tree, predictions, errors and events no matter which inputs were parsed before with the same shared prediction caches, in which order, with or without errors and in which prediction mode. In particular a warm cache gives what a cold one gives. (Excepted: the choice made by a prediction which finds that no alternative can match the input, for which ANTLR documents no guarantee.)",
     ["histories", "inputs", "programs"], "all histories of parses sharing one grammar's caches",
     "Tests run each input on whatever cache state previous tests happened to leave.",
     [SIM, "src/dfa.rs", "src/dfa_state.rs", "src/prediction_context.rs", "src/atn_config_set.rs"],
     [("DFA edges and states reused across parses", "src/parser_atn_simulator.rs: add_dfaedge, add_dfastate, get_existing_target_state"),
      ("shared prediction context cache", "src/prediction_context.rs: PredictionContextCache")],
     state=[("DFA per decision", "memoised predictions", "src/dfa.rs"), ("context cache", "interned call stacks", "src/prediction_context.rs")],
     observe=["complete outcome of each parse"],
     technique="runtime monitoring: outcome of each parse of a long shared-cache history compared with a cold-cache run",
     note="Held on the histories counted in the evidence; outcomes are compared with the same code on cold caches (consistency, not correctness, which is P01/P02).")
prop("P04", "Prediction modes agree as documented",
     "A parse in the fast (SLL) mode which reports no error on a sentence returns the tree of the full mode, exact-ambiguity mode returns the tree and accepts the language of the full mode, no mode accepts an input outside of the language, and the fast mode never attempts full-context prediction. Two-stage parsing (fast and bail out, then full) is therefore safe.",
     ["programs", "inputs", "configurations"], "all grammars, inputs and prediction modes, with shared or separate caches",
     "No test sets a prediction mode.",
     [SIM, "src/prediction_mode.rs"],
     [("mode dependent conflict handling", "src/parser_atn_simulator.rs: compute_target_state; src/prediction_mode.rs: has_sll_conflict_terminating_prediction")],
     observe=["trees, predictions, errors and ambiguity reports per mode"],
     technique="runtime monitoring: differential oracle between prediction modes plus reference recogniser", note=ORA)
prop("P05", "Every parse, also a failing one, returns a well-formed tree",
     "After every parse the tree's leaves are tokens of the input in increasing order without repetition, each child names its parent, every node's span covers its leaves, rendered and concatenated text equals that of the leaves, error nodes occur only when an error was reported, and the parser holds no rule context and no mark on its token stream any more. This holds for all token factories.",
     ["programs", "inputs", "fault_sequences"], "all grammars, inputs with and without errors, token factories",
     "Tests look at a few printed trees of correct inputs.",
     ["src/parser.rs", "src/tree.rs", "src/parser_rule_context.rs", "src/rule_context.rs", "src/trees.rs", "src/error_strategy.rs"],
     [("context stack and child links", "src/parser.rs: enter_rule, exit_rule, push_new_recursion_context, unroll_recursion_context, create_token_node/create_error_node"),
      ("text and rendering", "src/tree.rs: get_text; src/trees.rs")],
     observe=["returned tree, walked through the public tree API", "token stream mark/release calls"],
     technique="runtime monitoring: structural invariants of every returned tree and balance of mark/release checked",
     note="Held on the parses counted in the evidence.")
prop("P06", "Left-recursive rules obey precedence and associativity",
     "For every left-recursive rule with binary (left or right associative), prefix, suffix and ternary operators, each accepted input is grouped as the order of the alternatives and their associativity demand, whatever the nesting and calling context. The tree shape and every operator decision equal those of precedence climbing on the grammar.",
     ["programs", "inputs"], "all left-recursive rules and operator sequences",
     "The tests contain one left-recursive grammar and one input.",
     [SIM, "src/parser.rs", "src/semantic_context.rs", "src/transition.rs"],
     [("precedence filter and precedence DFA", "src/parser_atn_simulator.rs: apply_precedence_filter, closure_work with precedence; src/dfa.rs: is_precedence_dfa"),
      ("recursion contexts", "src/parser.rs: enter_recursion_rule, push_new_recursion_context, unroll_recursion_context, precpred")],
     observe=["predictions", "returned parse tree"],
     technique="runtime monitoring: decisions and trees of generated operator grammars compared with a precedence-climbing reference", note=ORA)
prop("P07", "Recovery terminates, loses no token and reports each problem once",
     "For every grammar and every input, however wrong, the default error strategy returns from the start rule after finitely many steps without panicking, every token before the point where the start rule ends appears exactly once in the tree (as terminal or error node), tokens conjured up are marked as missing, and no problem is reported twice at one input position. Every reported position is the line and column of the offending token.",
     ["inputs", "programs", "fault_sequences"], "all grammars and arbitrary token sequences, including unknown token types",
     "Termination and no-loss of recovery quantify over arbitrary broken inputs; tests contain three broken inputs.",
     ["src/error_strategy.rs", "src/errors.rs", "src/parser.rs", SIM],
     [("single token insertion and deletion, resynchronisation", "src/error_strategy.rs: recover_inline, recover, sync, consume_until"),
      ("guard against loops without progress", "src/error_strategy.rs: recover (last error index and states)"),
      ("suppression of follow-up reports", "src/error_strategy.rs: begin_error_condition")],
     observe=["token stream operations (budgeted)", "error listener callbacks", "returned tree"],
     technique="runtime monitoring: hostile token streams, logical step budget, conservation of tokens between stream and tree",
     note="Held on the parses counted in the evidence; termination is judged by a budget of stream operations far above what any terminating run needs.")
prop("P08", "The bail-out strategy stops at the first error",
     "With the bail-out strategy a parse of a sentence returns the same tree as with the default strategy, and any other input makes the start rule return a cancellation carrying the original error, with no token consumed from the first wrong token on and at most one report. No mark on the token stream is left behind.",
     ["inputs", "programs", "fault_sequences"], "all grammars and inputs",
     "No test uses the bail-out strategy.",
     ["src/error_strategy.rs", "src/parser.rs", SIM],
     [("cancellation", "src/error_strategy.rs: BailErrorStrategy recover, recover_inline, sync")],
     observe=["result of the start rule", "position of the token stream", "mark/release calls"],
     technique="runtime monitoring: outcome and stream position compared with a reference recogniser's first error position", note=ORA)
prop("P09", "Syntax errors point at the right token and list the right expectations",
     "In grammars where one token of lookahead decides, the first reported error is at the first token that cannot continue any sentence, and everything listed as expected can really follow. In all grammars a reported failed prediction names a token up to which the input could not be matched, a mismatch names exactly the tokens which can be matched next in the current rule invocation stack, and the message texts are the documented ones.",
     ["inputs", "programs"], "all grammars, all wrong inputs, at every error of a parse",
     "Tests check one or two error messages.",
     ["src/error_strategy.rs", "src/errors.rs", SIM, "src/atn.rs", "src/ll1_analyzer.rs"],
     [("expected token sets", "src/atn.rs: get_expected_tokens; src/ll1_analyzer.rs"),
      ("offending token of a failed prediction", "src/parser_atn_simulator.rs: no_viable_alt")],
     observe=["error objects and messages delivered to error listeners"],
     technique="runtime monitoring: every error report compared with an independent ATN simulation from the reported state and stack", note=ORA)
prop("P10", "Semantic predicates gate exactly the alternatives they guard",
     "An alternative whose leading predicate is false in the current context is never chosen by a prediction and one whose predicates hold is treated as if they were not there, for predicates at any depth reachable without consuming input, combined with ambiguity, loops, calls and left recursion.",
     ["inputs", "programs", "configurations"], "all grammars with predicates, all truth assignments, all inputs",
     "Tests contain no semantic predicate in a parser.",
     [SIM, "src/semantic_context.rs", "src/dfa_state.rs"],
     [("predicates collected during closure and evaluated after conflict or at the end", "src/parser_atn_simulator.rs: predicate_dfa_state, eval_semantic_context, get_alt_that_finished_decision_entry_rule"),
      ("predicate algebra", "src/semantic_context.rs: and, or, eval")],
     observe=["predictions and trees"],
     technique="runtime monitoring: predictions under random predicate assignments compared with a predicate-aware reference", note=ORA)
prop("P11", "Listeners and visitors see the tree exactly once and in order",
     "A walk of a finished tree delivers enter, exit, terminal and error events exactly in depth-first order, once per node, and a visitor visits the same nodes; listeners attached while parsing get the same token events in the same order and properly nested rule events, every one of several listeners sees all of them (exits in reverse registration order), and attaching and removing another listener changes nothing. Turning tree building off changes neither the events nor errors nor predictions.",
     ["inputs", "programs", "histories"], "all grammars, inputs with and without errors, numbers of listeners, tree building on or off",
     "Tests attach one listener to one parse.",
     ["src/parser.rs", "src/tree.rs", "src/parser_rule_context.rs"],
     [("event triggers", "src/parser.rs: trigger_enter_rule_event, trigger_exit_rule_event, consume, add_parse_listener, remove_parse_listener"),
      ("walker", "src/tree.rs: ParseTreeWalker, ParseTreeVisitor")],
     observe=["listener and visitor callbacks"],
     technique="runtime monitoring: recorded event traces checked against a trace specification derived from the tree",
     note="Held on the event traces counted in the evidence. One known finding: no enter event for a rule which fails before an alternative is chosen.")
prop("P12", "Ambiguity and context-sensitivity reports are truthful",
     "In exact mode an ambiguity is reported for a decision if and only if several alternatives can each match the whole input, with exactly those alternatives; context sensitivity is reported only if exactly one alternative survives full context, and each attempt at full context is reported once before its result. The ready-made diagnostic listener prints these reports with the right decision, rule, alternatives and input text.",
     ["inputs", "programs", "configurations"], "all grammars and sentences, exact and ordinary full mode",
     "No test looks at ambiguity reports.",
     [SIM, "src/error_listener.rs", "src/prediction_mode.rs"],
     [("reports", "src/parser_atn_simulator.rs: report_attempting_full_context, report_context_sensitivity, report_ambiguity"),
      ("diagnostic listener", "src/error_listener.rs: DiagnosticErrorListener")],
     observe=["error listener callbacks"],
     technique="runtime monitoring: report protocol monitor plus set of viable alternatives from the reference derivation", note=ORA)
LSIM = "src/lexer_atn_simulator.rs"
LORA = "Held on the executions counted in the evidence; trusts the reference lexer of the harness."
prop("L01", "The lexer takes the longest match, then the first rule",
     "For every lexer grammar and every text, each token is the longest prefix of the remaining text that any rule of the current mode matches, and of the rules matching that prefix the one listed first gives its type; non-greedy loops stop at the earliest point at which the rest of their rule can match. A token recognition error is reported exactly where no rule matches any prefix, and lexing goes on after it.",
     ["programs", "inputs"], "all lexer grammars (sets, ranges, negations, loops, fragments, any Unicode characters) and all texts",
     "The tests tokenize a few short inputs with two or three lexers.",
     [LSIM, "src/lexer.rs", "src/atn_deserializer.rs", "src/transition.rs", "src/dfa.rs"],
     [("simulation with the last accept state kept", "src/lexer_atn_simulator.rs: match_token, exec_atn, fail_or_accept, capture_sim_state"),
      ("rule priority and non-greedy pruning", "src/lexer_atn_simulator.rs: get_reachable_config_set, closure")],
     observe=["tokens returned by the token source", "error listener callbacks"],
     technique="runtime monitoring: token sequence and errors checked online against a reference lexer and a declarative longest-match oracle", note=LORA)
prop("L02", "Tokens and errors partition the text and carry exact positions",
     "For every text, the spans of all tokens (skipped and hidden ones included) and of the reported errors follow each other without gap or overlap from the first to the last character, then exactly one EOF token follows, and asking again gives EOF again. Each token's text, start and stop index, line and column are those of its characters in the text, and each error names the line, column and text of the characters dropped, for every encoding and token factory.",
     ["inputs", "programs", "configurations"], "all lexer grammars, texts (any line breaks and planes), character stream kinds and token factories",
     "Positions are compared in a couple of printed tokens.",
     ["src/lexer.rs", LSIM, "src/input_stream.rs", "src/token_factory.rs", "src/token.rs", "src/char_stream.rs"],
     [("line and column tracking", "src/lexer_atn_simulator.rs: consume; src/lexer.rs: next_token"),
      ("emission", "src/lexer.rs: emit, emit_eof; src/token_factory.rs: create"), ("recovery", "src/lexer.rs: recover, notify_listeners")],
     observe=["tokens returned by the token source", "error listener callbacks", "positions of the character stream"],
     technique="runtime monitoring: conservation of characters and recomputed positions checked for every token and error", note="Held on the executions counted in the evidence.")
prop("L03", "Lexer commands, modes, actions and predicates take effect as written",
     "For every lexer grammar and text, skip, more, type, channel, mode, pushMode and popMode take effect in the order written and for the rule that won, embedded actions run exactly once, at their place in the rule and for the winning match only, and rules guarded by a false predicate never match. Type, channel, text and mode of every token and the mode stack afterwards are therefore determined.",
     ["programs", "inputs", "histories"], "all lexer grammars with commands, several modes, actions and predicates, and all texts",
     "The tests use skip, channel and one or two actions with short inputs.",
     [LSIM, "src/lexer.rs", "src/lexer_action.rs", "src/lexer_action_executor.rs"],
     [("actions collected along the winning path and executed once", "src/lexer_action_executor.rs; src/lexer_atn_simulator.rs: accept"),
      ("mode stack and more/skip loop", "src/lexer.rs: next_token, push_mode, pop_mode, set_type, set_channel"),
      ("predicates evaluated at their place", "src/lexer_atn_simulator.rs: evaluate_predicate")],
     observe=["calls of custom actions and predicates", "tokens, mode and mode stack after each token"],
     technique="runtime monitoring: recorded action, predicate and token events compared with a reference token loop", note=LORA)
prop("L04", "Earlier lexing never influences later lexing through shared caches",
     "Lexing a text gives the same tokens, errors, action calls and final state no matter which texts were lexed before with the same shared lexer cache, in which order and in which modes, with errors, actions or predicates met on the way. In particular a warm cache gives what a cold one gives.",
     ["histories", "inputs", "programs"], "all histories of texts lexed with one grammar's caches",
     "Tests lex each input on whatever cache state the previous tests left.",
     [LSIM, "src/dfa.rs", "src/dfa_state.rs", "src/lexer_action_executor.rs", "src/lexer.rs"],
     [("lexer DFA states and edges reused", "src/lexer_atn_simulator.rs: add_dfastate, add_dfaedge, compute_target_state")],
     state=[("DFA per mode", "memoised simulation steps", "src/dfa.rs")],
     observe=["complete outcome of lexing each text"],
     technique="runtime monitoring: outcome of each text of a shared-cache history compared with a cold-cache run",
     note="Held on the histories counted in the evidence (consistency; correctness is L01 and L03).")
STREAM = "Held on the operation sequences counted in the evidence; trusts the stream models of the harness."
prop("S01", "Character streams deliver exactly the text, whatever is read in which order",
     "For every text, every encoding (borrowed and owned str, and 8, 16 and 32 bit data) and every sequence of stream operations, consume moves one character forward and panics only at the end, lookahead la(k) and lookback la(-k) give the k-th character from the current position or EOF, seek restores exactly the position that index() named, get_text of any span between two indices that the stream named is that part of the text, size() is the number of units, and iterating over the stream gives the remaining characters once and then ends.",
     ["inputs", "histories", "configurations"], "all texts, encodings and operation sequences",
     "Tests read three or four fixed strings through str and byte streams.",
     ["src/input_stream.rs", "src/char_stream.rs", "src/int_stream.rs"],
     [("per encoding lookahead, consume, seek", "src/input_stream.rs, src/char_stream.rs: InputData"), ("iteration", "src/int_stream.rs: IterWrapper")],
     observe=["result of every stream operation"],
     technique="runtime monitoring: random operation histories on all stream kinds, every result checked online against a list model", note=STREAM)
prop("S02", "Token streams serve every token once, in order and consistently",
     "For every token sequence (tokens on hidden channels included) and every sequence of operations which the stream's kind supports, the buffered stream and the unbuffered ones deliver the tokens of the source in order, numbered consecutively; consume, LA/LT (forward, backward, past the end), seek, mark/release and index agree with each other; only tokens of the chosen channel are seen through the channel-filtering stream; get_text of token ranges is the concatenated text; and the unbuffered stream never keeps more than the tokens which marks and lookahead need.",
     ["inputs", "histories", "configurations"], "all token sequences, stream kinds, token factories and operation sequences",
     "Tests read one stream linearly.",
     ["src/token_stream.rs", "src/common_token_stream.rs", "src/int_stream.rs"],
     [("window of the unbuffered stream", "src/token_stream.rs: UnbufferedTokenStream sync, fill, consume, seek, mark, release, get_buffer_start_index"),
      ("channel filter", "src/common_token_stream.rs: adjust_seek_index, next_token_on_channel, previous_token_on_channel, lt, lb")],
     observe=["result of every stream operation", "tokens alive (drop counts of the token type)"],
     technique="runtime monitoring: random operation histories on all token stream kinds, every result checked online against a list model, live tokens counted", note=STREAM)
prop("S03", "Outcomes do not depend on stream kind, token factory or encoding",
     "For every grammar and input, a parse has the same tree, predictions, errors and events whether it reads from the buffered, channel-filtering stream or from one of the unbuffered ones (all tokens on the default channel), with any token factory, and, starting from text, in every encoding which can represent the text and either form (borrowed, owned) of it; positions in tokens and messages are the same up to the unit in which the encoding counts.",
     ["inputs", "programs", "configurations"], "all grammars, inputs, token streams, token factories and encodings",
     "Each test uses one combination.",
     ["src/token_stream.rs", "src/common_token_stream.rs", "src/token_factory.rs", "src/input_stream.rs", "src/parser.rs", "src/error_strategy.rs", "src/lexer.rs"],
     [("generic parser over TokenStream", "src/parser.rs: BaseParser<.., I: TokenStream>"), ("token factories", "src/token_factory.rs")],
     observe=["complete outcome of each parse"],
     technique="runtime monitoring: differential oracle between stream kinds, token factories and encodings of one input", note="Held on the parses counted in the evidence (agreement; correctness is P01 to P12).")
prop("D01", "Interval sets and vocabularies behave as mathematical sets and tables",
     "After every sequence of additions, unions, subtractions, complements and removals an IntervalSet contains exactly the elements which the same operations leave in a mathematical set: contains, length, get_min, equality and the printed forms agree with it. A vocabulary gives the display, literal and symbolic name entered for a token type, in that order of preference, EOF for the end of file and the number otherwise.",
     ["histories", "inputs"], "all operation sequences and all name tables",
     "Four unit tests perform two or three operations each.",
     ["src/interval_set.rs", "src/vocabulary.rs"],
     [("ordered disjoint intervals", "src/interval_set.rs: add_interval, substract, complement, remove_one, contains"), ("names", "src/vocabulary.rs: VocabularyImpl")],
     state=[("intervals", "sorted, disjoint, not adjacent", "src/interval_set.rs: IntervalSet")],
     observe=["results of all queries after each operation"],
     technique="runtime monitoring: random operation histories, every query compared online with a model set and table", note="Held on the operation sequences counted in the evidence.")
prop("D02", "A serialized network is loaded exactly as it was written",
     "For every grammar, deserialization gives a network whose states (kind, rule, end and loop states, greediness, left recursion), transitions (order, kind, target, arguments and the exact set of symbols they match over the whole of Unicode), decisions, modes, rule starts and stops, return transitions and token types are those which were serialized. Data of another version, format or with unknown parts is refused with a panic, never loaded.",
     ["programs", "inputs"], "all parser and lexer grammars in the current serialization format",
     "Tests load six grammars which ASCII or a few characters describe.",
     ["src/atn_deserializer.rs", "src/atn.rs", "src/atn_state.rs", "src/transition.rs"],
     [("reading of states, rules, modes, sets, edges, decisions, actions", "src/atn_deserializer.rs: deserialize, read_*"), ("marking of precedence decisions", "src/atn_deserializer.rs: mark_precedence_decisions"), ("symbol matching", "src/transition.rs: matches, get_label")],
     observe=["the loaded ATN through its public fields and traits"],
     technique="runtime monitoring: round trip of generated grammars, loaded network compared with the one serialized", note="Held on the networks counted in the evidence; trusts the serializer of the harness (cross-checked by P01-P12, L01-L04, which run on its output).")
prop("D03", "Static expectation sets contain exactly the tokens that can come next",
     "For every grammar, state and invocation stack, next_tokens gives exactly the tokens which can be matched next in the state's rule (and EPSILON if and only if the end of the rule can be reached without a token), and get_expected_tokens exactly those which can be matched next given the stack of invoking states (EOF if the outermost rule can end), on the first and on every later call.",
     ["programs", "histories"], "all parser grammars, states and call stacks",
     "No test looks at these sets, which drive error recovery and messages.",
     ["src/atn.rs", "src/ll1_analyzer.rs", "src/interval_set.rs", "src/transition.rs"],
     [("closure with call stacks", "src/ll1_analyzer.rs: look_work"), ("expected tokens along the call stack, cached sets", "src/atn.rs: get_expected_tokens, next_tokens")],
     state=[("next_tokens_within_rule", "cached set per state", "src/atn_state.rs")],
     observe=["returned sets"],
     technique="runtime monitoring: sets for all states and sampled stacks compared with a reference closure over the grammar's network", note="Held on the states and stacks counted in the evidence; trusts the reference closure of the harness.")
prop("X01", "Threads sharing caches get what each gets alone, without data races",
     "Any number of parsers and lexers in different threads may use the same static network, prediction caches and context cache at the same time: whatever the interleaving, each thread's result (errors, decisions, trees, tokens, error messages) is the one the same input gives alone on fresh caches; the caches left behind give those results too; no memory is accessed by two threads without synchronisation and nothing deadlocks.",
     ["schedules", "inputs", "programs"], "all grammars, inputs, numbers of threads and interleavings, including the first, initialising uses",
     "The tests run one thread at a time on each grammar; races and lost cache updates need an interleaving.",
     ["src/parser_atn_simulator.rs", "src/lexer_atn_simulator.rs", "src/dfa.rs", "src/atn.rs", "src/prediction_context.rs"],
     [("locks around automata and context cache", "src/parser_atn_simulator.rs: adaptive_predict, get_dfa; src/lexer_atn_simulator.rs"), ("sets initialised once and shared", "src/atn.rs: next_tokens, src/atn_state.rs")],
     state=[("decision_to_dfa", "shared automata", "src/parser_atn_simulator.rs"), ("PredictionContextCache", "shared contexts", "src/prediction_context.rs")],
     observe=["outcomes per thread", "ThreadSanitizer reports", "interleaving of stream operations (tickets)"],
     technique="runtime monitoring: differential run of threads against single runs with injected delays, plus ThreadSanitizer on an instrumented standard library", note="Held on the interleavings counted in the evidence. Predicates or actions which use the same grammar recursively are outside the property (they run under a lock).")
prop("X02", "Memory is used validly and given back entirely",
     "Whatever the grammar, input, token and character type, factory, strategy, listeners and errors, no run reads or writes memory it does not own, no use breaks the rules of safe references, and once parser, tree, streams and caches are dropped nothing they allocated remains allocated, also after cancelled parses.",
     ["inputs", "programs", "configurations", "histories"], "all grammars, inputs, factories, streams, strategies and orders of dropping",
     "The crate transmutes lifetimes and keeps back pointers in trees; tests pass as long as freed memory looks unchanged, and none measures what stays allocated.",
     ["src/parser.rs", "src/parser_rule_context.rs", "src/rule_context.rs", "src/token_factory.rs", "src/tree.rs", "src/prediction_context.rs", "src/token_stream.rs", "src/char_stream.rs"],
     [("weak parent references", "src/parser_rule_context.rs, src/rule_context.rs"), ("unsafe lifetime extension and casts", "src/parser.rs, src/token_factory.rs, src/char_stream.rs, src/lexer.rs")],
     observe=["bytes and blocks live per thread", "AddressSanitizer and Miri reports"],
     technique="runtime monitoring: allocator balance of whole runs, AddressSanitizer and the Miri interpreter over the same kinds of workload", note="Held on the workload counted in the evidence; Miri runs with the tree borrows model on the small cases.")
prop("X03", "Caches converge: repeating inputs adds no states, contexts or memory",
     "Once inputs have been parsed (or lexed) with a grammar's caches, doing it again in any order adds no automaton state, no cached context and keeps no further memory; a cache depends only on what has been seen, so a long running process that sees the same kind of input does not grow.",
     ["histories", "inputs", "programs"], "all grammars and input sets, all repetitions",
     "Growth is invisible in a test's result and shows over repetitions only.",
     ["src/dfa.rs", "src/prediction_context.rs", "src/parser_atn_simulator.rs", "src/lexer_atn_simulator.rs", "src/atn_config_set.rs"],
     [("states found by their configurations", "src/dfa.rs, src/parser_atn_simulator.rs: add_dfastate"), ("contexts interned by value", "src/prediction_context.rs: PredictionContextCache")],
     state=[("states of DFA", "automaton", "src/dfa.rs"), ("cache", "contexts", "src/prediction_context.rs")],
     observe=["number of states and contexts, live bytes after each round"],
     technique="runtime monitoring: conservation check of cache sizes and live memory over repeated rounds", note="Held on the grammars and rounds counted in the evidence.")
prop("P13", "Recovery repairs errors exactly as the documented strategy says",
     "For every grammar and erroneous input, DefaultErrorStrategy repairs as documented: an unexpected token is dropped alone if the token after it is one expected here; else the missing token is conjured up if the current token can follow it in the actual calling context (once per place); else the rule is left after skipping to a token which can follow one of the rules in progress; loops and blocks synchronise the same way before deciding. What is reported (kind, position, expected tokens, at most one report until a token is matched) and what becomes an error node follows from exactly these repairs.",
     ["inputs", "programs", "histories"], "all grammars, erroneous inputs, token streams",
     "The tests contain no recovery expectations; a wrong repair still ends with some tree and some message.",
     ["src/error_strategy.rs", "src/parser.rs", "src/atn.rs", "src/ll1_analyzer.rs", "src/errors.rs"],
     [("single token deletion and insertion", "src/error_strategy.rs: recover_inline, single_token_deletion, single_token_insertion"), ("resynchronisation", "src/error_strategy.rs: sync, recover, get_error_recovery_set")],
     state=[("error_recovery_mode, last_error_index, last_error_states", "report once, fail safe against endless loops", "src/error_strategy.rs")],
     observe=["syntax errors with position and expected set", "parse tree with error nodes", "stream of predictions"],
     technique="runtime monitoring: online run compared with an executable trace specification of the error strategy (own follow sets, own repairs)", note="Held on the runs counted in the evidence; predictions are taken from the run (judged by P02, P09).")
prop("R01", "Long and deeply nested inputs parse like their parts, in linear work",
     "An input which is a long chain or a deep nesting of sentences gets exactly the derivation made up of the derivations of the parts, without failing or exhausting the stack of a reasonable thread, and the number of operations on the token stream grows linearly with the input.",
     ["inputs", "programs"], "all grammars with repeated or nested constructs, inputs of thousands of tokens and hundreds of levels",
     "Test inputs have a few dozen tokens; a cost or a limit that depends on length or depth does not show.",
     ["src/parser_atn_simulator.rs", "src/common_token_stream.rs", "src/prediction_context.rs", "src/parser.rs", "src/tree.rs"],
     [("prediction contexts of deep call stacks", "src/prediction_context.rs: from_rule_context, merge"), ("buffered lookahead", "src/common_token_stream.rs, src/unbuffered_token_stream.rs")],
     observe=["parse tree", "stream operations per token"],
     technique="runtime monitoring: composed oracle (derivation of the tiles) over long and deep inputs, operation counts at the monitored stream", note="Held on the chains and nestings counted in the evidence.")
prop("P14", "Any rule can be the start rule, whether it ends with EOF or is called by others",
     "A parse may start at any rule. For every grammar, rule and input: if the input is a sentence of the rule, the parse accepts it whole, in every prediction mode and with the bail strategy, with the derivation that takes the smallest alternative at each decision, provided no decision has a smaller alternative (or an end of the rule) which only a caller elsewhere in the grammar could justify. Whenever a parse reports nothing, the tokens consumed are a sentence of the rule and the tree is the derivation chosen by the decisions made. The outcome never depends on what the prediction caches held before.",
     ["inputs", "programs", "histories"], "all grammars, rules, inputs and cache histories",
     "Tests start at the one rule written for it, which ends with EOF; what stands behind a rule without EOF, and callers which are not there, matter only for other rules.",
     ["src/parser_atn_simulator.rs", "src/prediction_context.rs", "src/prediction_mode.rs", "src/atn_config_set.rs", "src/atn.rs"],
     [("closure over the end of a rule with and without caller", "src/parser_atn_simulator.rs: closure_checking_stop_state, execute_atn, compute_reach_set"), ("empty contexts in both stages", "src/prediction_context.rs: merge, from_rule_context")],
     state=[("merge_cache", "remembered merges", "src/parser_atn_simulator.rs"), ("decision_to_dfa", "prediction cache", "src/parser_atn_simulator.rs")],
     observe=["parse tree, errors, end position, with cold and warm caches and all modes"],
     technique="runtime monitoring: parses from random start rules compared with a reference parser, and cold against warm caches", note="Held on the (grammar, rule, input) triples counted in the evidence; trusts the reference parser of the harness.")
#MORE

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: the harness observes the crate through its public interface", "source_commits": []},
        "checks": CHECKS, "not_applicable": NA,
        "notes": "All checks share one harness crate (harness/) which is rebuilt against /repo by every check; see DESIGN.md."},
        f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    S = "/root/.vp/"
    for p in PROPS:
        jsonschema.validate(p, json.load(open(S + "PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open(S + "MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
