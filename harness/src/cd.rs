//! Interval sets, vocabularies, deserialization, static follow analysis.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::atn_state::{ATNBlockStart, ATNDecisionState, ATNStateType};
use antlr_rust::interval_set::{Interval, IntervalSet};
use antlr_rust::transition::*;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};

use crate::atnsim;
use crate::cp;
use crate::gram::*;
use crate::interp;
use crate::lex;
use crate::rep::Rep;
use crate::rng::Rng;

type M = BTreeSet<isize>;

// ------------------------------------------------------------------ D01
fn canonical(m: &M) -> Vec<(isize, isize)> {
    let mut v: Vec<(isize, isize)> = vec![];
    for &x in m {
        match v.last_mut() {
            Some(l) if l.1 + 1 == x => l.1 = x,
            _ => v.push((x, x)),
        }
    }
    v
}
/// the same set, built in increasing order from maximal intervals
fn build(m: &M) -> IntervalSet {
    let mut s = IntervalSet::new();
    for (a, b) in canonical(m) {
        s.add_range(a, b);
    }
    s
}
fn name(v: Option<&VNames>, x: isize) -> String {
    match x {
        -1 => "<EOF>".into(),
        -2 => "<EPSILON>".into(),
        _ => v.map(|v| v.display(x)).unwrap_or_else(|| x.to_string()),
    }
}
fn shown(v: Option<&VNames>, m: &M) -> String {
    if m.is_empty() {
        return "{}".into();
    }
    let b = m.iter().map(|x| name(v, *x)).collect::<Vec<_>>().join(", ");
    if m.len() > 1 {
        format!("{{{}}}", b)
    } else {
        b
    }
}
#[derive(Debug)]
struct VNames {
    lit: Vec<Option<String>>,
    sym: Vec<Option<String>>,
    dis: Vec<Option<String>>,
}
impl VNames {
    fn get(v: &[Option<String>], x: isize) -> Option<String> {
        if x < 0 {
            return None;
        }
        v.get(x as usize).cloned().flatten()
    }
    fn symbolic(&self, x: isize) -> Option<String> {
        if x == -1 {
            return Some("EOF".into());
        }
        VNames::get(&self.sym, x)
    }
    fn display(&self, x: isize) -> String {
        VNames::get(&self.dis, x)
            .or_else(|| VNames::get(&self.lit, x))
            .or_else(|| self.symbolic(x))
            .unwrap_or_else(|| x.to_string())
    }
}
fn compare(r: &mut Rep, log: &[String], what: &str, s: &IntervalSet, m: &M, lo: isize, hi: isize, vocab: Option<(&VocabularyImpl, &VNames)>) -> bool {
    let mut bad = vec![];
    for x in lo - 3..=hi + 3 {
        if s.contains(x) != m.contains(&x) {
            bad.push(format!("contains({}) is {}", x, s.contains(x)));
        }
        r.one("memberships");
    }
    if s.length() != m.len() as isize {
        bad.push(format!("length() is {}, expected {}", s.length(), m.len()));
    }
    if s.get_min() != m.iter().next().copied() {
        bad.push(format!("get_min() is {:?}, expected {:?}", s.get_min(), m.iter().next()));
    }
    if *s != build(m) {
        bad.push(format!("differs from the same set built from its maximal intervals: {:?}", s));
    }
    let t = s.to_index_string();
    if t != shown(None, m) {
        bad.push(format!("to_index_string() is {:?}, expected {:?}", t, shown(None, m)));
    }
    if let Some((v, n)) = vocab {
        let t = s.to_token_string(v);
        if t != shown(Some(n), m) {
            bad.push(format!("to_token_string() is {:?}, expected {:?}", t, shown(Some(n), m)));
        }
    }
    if bad.is_empty() {
        return true;
    }
    r.violation(format!("{} after {}\nshould be {:?}\n{}", what, log.join("; "), canonical(m), bad.join("\n")));
    false
}
pub fn d01(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let names = gen_names(rng);
    let voc = vocab(&names, rng);
    if !judge_vocab(r, &voc, &names) {
        return;
    }
    token_names(r, rng);
    let lo: isize = *rng.pick(&[-2, -1, 0, 1, -5, 0x10FF00]);
    let width = *rng.pick(&[6, 12, 30, 80]);
    let hi = lo + width;
    let mut sets: Vec<(IntervalSet, M)> = (0..3).map(|_| (IntervalSet::new(), M::new())).collect();
    let mut log = vec![];
    let mut key = String::new();
    for _ in 0..rng.range(3, 30) {
        let k = rng.below(3);
        let o = rng.below(3);
        let a = rng.range(lo as i64, hi as i64) as isize;
        let l = *rng.pick(&[0, 0, 1, 2, 5, 20]);
        let b = (a + rng.below(l + 1) as isize).min(hi);
        let other = sets[o].clone();
        let (s, m) = &mut sets[k];
        match rng.below(9) {
            0 | 1 => {
                log.push(format!("s{}.add_range({}, {})", k, a, b));
                s.add_range(a, b);
                m.extend(a..=b);
            }
            2 => {
                log.push(format!("s{}.add_one({})", k, a));
                s.add_one(a);
                m.insert(a);
            }
            3 => {
                // a backward range adds nothing
                let (a, b) = if rng.chance(1, 4) { (b + 1, a) } else { (a, b) };
                log.push(format!("s{}.add_interval({}, {})", k, a, b));
                s.add_interval(Interval { a, b });
                m.extend(a..=b);
            }
            4 => {
                log.push(format!("s{}.add_set(s{})", k, o));
                s.add_set(&other.0);
                m.extend(other.1.iter());
            }
            5 => {
                log.push(format!("s{}.substract(s{})", k, o));
                s.substract(&other.0);
                *m = m.difference(&other.1).copied().collect();
            }
            6 => {
                log.push(format!("s{}.remove_one({})", k, a));
                s.remove_one(a);
                m.remove(&a);
            }
            7 => {
                let (a, b) = (rng.range(lo as i64, hi as i64) as isize, rng.range(lo as i64, hi as i64) as isize);
                log.push(format!("s{} = s{}.complement({}, {})", k, o, a, b));
                *s = other.0.complement(a, b);
                *m = (a..=b).filter(|x| !other.1.contains(x)).collect();
            }
            _ => {
                // what it would say if written to while it is read only: only removal is refused
                log.push(format!("s{} = s{}", k, o));
                *s = other.0.clone();
                *m = other.1.clone();
            }
        }
        r.one("set_operations");
        if sets[k].1.len() > 1 {
            r.one("sets_with_several_elements");
        }
        key = format!("{:?}", canonical(&sets[k].1));
        let (s, m) = sets[k].clone();
        if !compare(r, &log, &format!("s{}", k), &s, &m, lo, hi, Some((&voc, &names))) {
            return;
        }
        r.eval(&key);
    }
    r.sample(|| format!("{} => {}", log.join("; "), key));
    for i in 0..3 {
        for j in 0..3 {
            if (sets[i].0 == sets[j].0) != (sets[i].1 == sets[j].1) {
                r.violation(format!("s{} == s{} is {} after {}", i, j, sets[i].0 == sets[j].0, log.join("; ")));
                return;
            }
        }
        let mut s = sets[i].0.clone();
        s.read_only = true;
        if let Some(x) = sets[i].1.iter().next().copied() {
            if catch_unwind(AssertUnwindSafe(|| s.remove_one(x))).is_ok() {
                r.violation(format!("an element was removed from a read only set: {}", log.join("; ")));
                return;
            }
            r.one("read_only_sets");
        }
    }
}
fn gen_names(rng: &mut Rng) -> VNames {
    let f = |rng: &mut Rng, pre: &str, quote: bool| -> Vec<Option<String>> {
        let n = rng.below(9);
        (0..n)
            .map(|i| {
                if rng.chance(1, 3) {
                    None
                } else if rng.chance(1, 12) {
                    Some(String::new())
                } else if quote {
                    Some(format!("'{}{}'", pre, i))
                } else {
                    Some(format!("{}{}", pre, i))
                }
            })
            .collect()
    };
    let lit = f(rng, "l", true);
    let sym = f(rng, "SYM", false);
    let dis = if rng.chance(1, 3) { f(rng, "shown ", false) } else { vec![] };
    VNames { lit, sym, dis }
}
fn vocab(n: &VNames, rng: &mut Rng) -> VocabularyImpl {
    if n.dis.is_empty() && rng.chance(1, 2) {
        VocabularyImpl::new(n.lit.iter(), n.sym.iter(), None)
    } else {
        VocabularyImpl::new(n.lit.iter(), n.sym.iter(), Some(n.dis.iter()))
    }
}
fn judge_vocab(r: &mut Rep, v: &VocabularyImpl, n: &VNames) -> bool {
    let max = [n.lit.len(), n.sym.len(), n.dis.len()].into_iter().max().unwrap() as isize - 1;
    let mut bad = vec![];
    if v.get_max_token_type() != max {
        bad.push(format!("get_max_token_type() is {}, expected {}", v.get_max_token_type(), max));
    }
    for x in -3..=max + 3 {
        r.one("names_looked_up");
        let l = v.get_literal_name(x).map(|x| x.to_string());
        if l != VNames::get(&n.lit, x) {
            bad.push(format!("get_literal_name({}) is {:?}", x, l));
        }
        let s = v.get_symbolic_name(x).map(|x| x.to_string());
        if s != n.symbolic(x) {
            bad.push(format!("get_symbolic_name({}) is {:?}", x, s));
        }
        let d = v.get_display_name(x).to_string();
        if d != n.display(x) {
            bad.push(format!("get_display_name({}) is {:?}, expected {:?}", x, d, n.display(x)));
        }
    }
    if bad.is_empty() {
        return true;
    }
    r.violation(format!("vocabulary {:?}\n{}", n, bad.join("\n")));
    false
}
fn token_names(r: &mut Rep, rng: &mut Rng) {
    let n = rng.below(8);
    let v: Vec<Option<String>> = (0..n)
        .map(|i| {
            Some(match rng.below(7) {
                0 => return None,
                1 => String::new(),
                2 => format!("'x{}'", i),
                3 => format!("low{}", i),
                4 => format!("<{}>", i),
                5 => format!("Ärger{}", i),
                _ => format!("TOK{}", i),
            })
        })
        .collect();
    let refs: Vec<Option<&str>> = v.iter().map(|x| x.as_deref()).collect();
    let voc = VocabularyImpl::from_token_names(&refs);
    let first = |s: &Option<String>| s.as_ref().and_then(|s| s.chars().next());
    let names = VNames {
        lit: v.iter().map(|s| if first(s) == Some('\'') { s.clone() } else { None }).collect(),
        sym: v
            .iter()
            .map(|s| if first(s).map(|c| c.is_uppercase()) == Some(true) { s.clone() } else { None })
            .collect(),
        dis: v.clone(),
    };
    judge_vocab(r, &voc, &names);
}

// ------------------------------------------------------------------ D02
fn describe(a: &ATN) -> Vec<String> {
    let mut out = vec![];
    for (i, s) in a.states.iter().enumerate() {
        let t = match s.get_state_type() {
            ATNStateType::RuleStartState { stop_state, is_left_recursive } => {
                format!("rule start, stop {}, left recursive {}", stop_state, is_left_recursive)
            }
            ATNStateType::RuleStopState => "rule stop".into(),
            ATNStateType::BlockEndState(_) => "block end".into(),
            ATNStateType::LoopEndState(l) => format!("loop end, back {}", l),
            ATNStateType::StarLoopbackState => "star loop back".into(),
            ATNStateType::BasicState => "basic".into(),
            ATNStateType::InvalidState => "invalid".into(),
            ATNStateType::DecisionState { decision, nongreedy, state } => format!(
                "{}, decision {}, nongreedy {}",
                match state {
                    ATNDecisionState::StarLoopEntry { is_precedence, .. } =>
                        format!("star loop entry, precedence {}", is_precedence),
                    ATNDecisionState::TokenStartState => "token start".into(),
                    ATNDecisionState::PlusLoopBack => "plus loop back".into(),
                    ATNDecisionState::BlockStartState { end_state, en } => format!(
                        "{} block start, end {}",
                        match en {
                            ATNBlockStart::BasicBlockStart => "basic",
                            ATNBlockStart::StarBlockStart => "star",
                            ATNBlockStart::PlusBlockStart(_) => "plus",
                        },
                        end_state
                    ),
                },
                decision,
                nongreedy
            ),
        };
        out.push(format!(
            "state {} (number {}): {}, rule {}",
            i,
            s.get_state_number(),
            t,
            s.get_rule_index() as isize
        ));
    }
    out
}
fn describe_ref(c: &Compiled) -> Vec<String> {
    let a = &c.atn;
    a.states
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let dec = a.decisions.iter().position(|d| *d == i).map(|d| d as isize).unwrap_or(-1);
            let ng = s.nongreedy;
            let leftrec = s.rule >= 0 && c.g.rules[s.rule as usize].leftrec;
            let t = match s.ty {
                S_RULE_START => format!("rule start, stop {}, left recursive {}", a.rule_stop[s.rule as usize], leftrec),
                S_RULE_STOP => "rule stop".into(),
                S_BLOCK_END => "block end".into(),
                S_LOOP_END => format!("loop end, back {}", s.extra),
                S_STAR_LOOP_BACK => "star loop back".into(),
                S_BASIC => "basic".into(),
                S_STAR_LOOP_ENTRY => {
                    // the loop of a left recursive rule: leads to the loop end from which only the rule's end is reachable
                    let e = s.edges.last().unwrap().target;
                    let prec = leftrec
                        && a.states[e].ty == S_LOOP_END
                        && a.states[a.states[e].edges[0].target].ty == S_RULE_STOP;
                    format!("star loop entry, precedence {}, decision {}, nongreedy {}", prec, dec, ng)
                }
                S_TOKEN_START => format!("token start, decision {}, nongreedy {}", dec, ng),
                S_PLUS_LOOP_BACK => format!("plus loop back, decision {}, nongreedy {}", dec, ng),
                S_BLOCK_START => format!("basic block start, end {}, decision {}, nongreedy {}", s.extra, dec, ng),
                S_STAR_BLOCK_START => format!("star block start, end {}, decision {}, nongreedy {}", s.extra, dec, ng),
                S_PLUS_BLOCK_START => format!("plus block start, end {}, decision {}, nongreedy {}", s.extra, dec, ng),
                x => format!("? {}", x),
            };
            format!("state {} (number {}): {}, rule {}", i, i, t, s.rule)
        })
        .collect()
}
fn type_of(t: &dyn Transition) -> i32 {
    t.get_serialization_type() as i32
}
/// what the transition says it is; symbols are judged separately
fn tr(t: &dyn Transition) -> String {
    let ty = type_of(t);
    let extra = match ty {
        T_RULE => {
            let x = t.cast::<RuleTransition>();
            format!("rule {} precedence {} follow {}", x.rule_index, x.precedence, x.follow_state)
        }
        T_PRED => {
            let x = t.cast::<PredicateTransition>();
            format!("rule {} predicate {} context {}", x.rule_index, x.pred_index, x.is_ctx_dependent)
        }
        T_PREC => format!("precedence {}", t.cast::<PrecedencePredicateTransition>().precedence),
        T_ACTION => {
            let x = t.cast::<ActionTransition>();
            format!("rule {} action {} context {}", x.rule_index, x.action_index as i16, x.is_ctx_dependent)
        }
        _ => String::new(),
    };
    format!("{} -> {} epsilon {} {}", ty, t.get_target(), t.is_epsilon(), extra)
}
fn tr_ref(e: &Edge) -> String {
    let eps = matches!(e.ty, T_EPS | T_RULE | T_PRED | T_PREC | T_ACTION);
    let extra = match e.ty {
        T_RULE => format!("rule {} precedence {} follow {}", e.a2, e.a3, e.follow),
        T_PRED => format!("rule {} predicate {} context {}", e.a1, e.a2, e.a3 != 0),
        T_PREC => format!("precedence {}", e.a1),
        T_ACTION => format!("rule {} action {} context {}", e.a1, e.a2 as i16, e.a3 != 0),
        _ => String::new(),
    };
    format!("{} -> {} epsilon {} {}", e.ty, e.target, eps, extra)
}
fn members(e: &Edge) -> Vec<(i32, i32)> {
    match e.ty {
        T_ATOM if e.a3 == 1 => vec![(-1, -1)],
        T_ATOM => vec![(e.a1, e.a1)],
        T_RANGE => vec![(e.a1, e.a2)],
        _ => e.set.clone(),
    }
}
fn same_label(x: &Edge, y: &Edge) -> bool {
    let norm = |e: &Edge| {
        let mut v = members(e);
        v.sort();
        let mut o: Vec<(i32, i32)> = vec![];
        for (a, b) in v {
            match o.last_mut() {
                Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                _ => o.push((a, b)),
            }
        }
        o
    };
    let labelled = |e: &Edge| matches!(e.ty, T_ATOM | T_RANGE | T_SET | T_NOTSET);
    labelled(x) && labelled(y) && norm(x) == norm(y)
}
fn eps(e: &Edge) -> bool {
    matches!(e.ty, T_EPS | T_RULE | T_PRED | T_PREC | T_ACTION)
}
fn loaded_edges(a: &Atn) -> Vec<Vec<Edge>> {
    // a transition which adds nothing to an earlier one of the state is dropped
    a.states
        .iter()
        .map(|s| {
            let mut v: Vec<Edge> = vec![];
            for e in &s.edges {
                if !v.iter().any(|x| x.target == e.target && (same_label(x, e) || eps(x) && eps(e))) {
                    v.push(e.clone())
                }
            }
            v
        })
        .collect()
}
fn judge_atn(r: &mut Rep, c: &Compiled, a: &ATN) -> Vec<String> {
    let mut bad = vec![];
    let g = &c.g;
    let ty = format!("{:?}", a.grammar_type);
    if ty != if g.is_lexer { "LEXER" } else { "PARSER" } {
        bad.push(format!("grammar type {}", ty));
    }
    if a.max_token_type != g.max_tok as isize {
        bad.push(format!("max token type {} instead of {}", a.max_token_type, g.max_tok));
    }
    for (what, got, want) in [
        ("decisions", &a.decision_to_state, &c.atn.decisions),
        ("modes", &a.mode_to_start_state, &c.atn.mode_start),
        ("rule starts", &a.rule_to_start_state, &c.atn.rule_start),
        ("rule stops", &a.rule_to_stop_state, &c.atn.rule_stop),
    ] {
        if got != want {
            bad.push(format!("{}: {:?} instead of {:?}", what, got, want));
        }
    }
    for (i, d) in c.atn.decisions.iter().enumerate() {
        if i < a.decision_to_state.len() && a.get_decision_state(i) != *d {
            bad.push(format!("get_decision_state({}) is {}", i, a.get_decision_state(i)));
        }
    }
    if g.is_lexer {
        let want: Vec<isize> = g.rules.iter().map(|r| if r.fragment { 0 } else { r.ttype as isize }).collect();
        let ok = a.rule_to_token_type.len() == want.len()
            && g.rules.iter().enumerate().all(|(i, r)| r.fragment || a.rule_to_token_type[i] == want[i]);
        if !ok {
            bad.push(format!("token types of rules: {:?} instead of {:?}", a.rule_to_token_type, want));
        }
    }
    let (got, want) = (describe(a), describe_ref(c));
    if got.len() != want.len() {
        bad.push(format!("{} states instead of {}", got.len(), want.len()));
        return bad;
    }
    for (g, w) in got.iter().zip(&want) {
        r.one("states_compared");
        if g != w {
            bad.push(format!("{}\n  instead of {}", g, w));
        }
    }
    let (lo, hi) = if g.is_lexer { (0, 0x10FFFF) } else { (1, g.max_tok as isize) };
    let edges = loaded_edges(&c.atn);
    let mut stops: Vec<BTreeSet<String>> = vec![BTreeSet::new(); a.states.len()];
    for (i, es) in edges.iter().enumerate() {
        for e in es.iter().filter(|e| e.ty == T_RULE) {
            let rule = c.atn.states[e.target].rule as usize;
            let outer = if g.rules[rule].leftrec && e.a3 == 0 { rule as isize } else { -1 };
            stops[c.atn.rule_stop[rule]].insert(format!("-> {} outermost precedence return {}", e.follow, outer));
        }
        let st = &a.states[i];
        if c.atn.states[i].ty == S_RULE_STOP {
            continue;
        }
        let got: Vec<String> = st.get_transitions().iter().map(|t| tr(&**t)).collect();
        let want: Vec<String> = es.iter().map(tr_ref).collect();
        if got != want {
            bad.push(format!("transitions of state {}: {:?}\n  instead of {:?}", i, got, want));
            continue;
        }
        if !es.is_empty() && st.has_epsilon_only_transitions() != es.iter().all(eps) {
            bad.push(format!("state {}: has_epsilon_only_transitions() is {}", i, st.has_epsilon_only_transitions()));
        }
        for (t, e) in st.get_transitions().iter().zip(es) {
            r.one("transitions_compared");
            if eps(e) {
                continue;
            }
            let mem = members(e);
            let mut probe: BTreeSet<isize> = [-1isize, 0, 1, 2, lo, hi, hi - 1, 0xFFFE, 0xFFFF, 0x10000].into_iter().collect();
            for (a, b) in &mem {
                for x in [*a, *b] {
                    for d in [-1, 0, 1] {
                        probe.insert((x + d) as isize);
                    }
                }
            }
            for x in probe {
                if x > hi || x < -1 || (x == 0 && !g.is_lexer) {
                    continue;
                }
                r.one("symbols_matched");
                let inside = mem.iter().any(|(a, b)| *a as isize <= x && x <= *b as isize);
                let want = match e.ty {
                    T_WILD => x >= lo,
                    T_NOTSET => x >= lo && !inside,
                    _ => inside,
                };
                if t.matches(x, lo, hi) != want {
                    bad.push(format!("state {}: {:?} matches({}) is {}", i, t, x, !want));
                }
                if e.ty != T_WILD {
                    if t.get_label().map(|l| l.contains(x)) != Some(inside) {
                        bad.push(format!("state {}: the label of {:?} is wrong about {}", i, t, x));
                    }
                }
            }
        }
    }
    for (i, want) in stops.iter().enumerate() {
        if c.atn.states[i].ty != S_RULE_STOP {
            continue;
        }
        let got: BTreeSet<String> = a.states[i]
            .get_transitions()
            .iter()
            .map(|t| {
                if type_of(&**t) != T_EPS {
                    return tr(&**t);
                }
                format!(
                    "-> {} outermost precedence return {}",
                    t.get_target(),
                    t.as_ref().cast::<EpsilonTransition>().outermost_precedence_return
                )
            })
            .collect();
        r.add("return_transitions_compared", got.len() as u64);
        // a lexer's rules return to the token start through the call stack only
        if got != *want {
            bad.push(format!("returns of state {}: {:?}\n  instead of {:?}", i, got, want));
        }
    }
    bad
}
fn some_compiled(rng: &mut Rng) -> Arc<Compiled> {
    if rng.chance(1, 2) {
        let k = cp::pick_kind(rng);
        Arc::new(compile(&cp::grammar(rng, &k)))
    } else {
        let o = lex::LOpts {
            nongreedy: true,
            cmds: true,
            customs: true,
            preds: rng.chance(1, 2),
            skip_more: true,
            max_cp: *rng.pick(&[0x10ffff, 0x10ffff, 0xffff, 0xff]),
            emit: false,
        };
        lex::gen(rng, &o).c
    }
}
pub fn d02(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let c = some_compiled(rng);
    let a = match catch_unwind(|| ATNDeserializer::new(None).deserialize(c.serialized.chars())) {
        Ok(a) => a,
        Err(e) => {
            r.violation(format!("loading panicked: {}\n{}", crate::panic_text(&e), show_grammar(&c.g)));
            return;
        }
    };
    let bad = judge_atn(r, &c, &a);
    r.one(if c.g.is_lexer { "lexer_grammars" } else { "parser_grammars" });
    r.eval(&c.serialized);
    r.sample(|| format!("{}: {} states, {} decisions", show_grammar(&c.g), a.states.len(), a.decision_to_state.len()));
    if !bad.is_empty() {
        r.violation(format!("grammar:\n{}\n{}", show_grammar(&c.g), bad[..bad.len().min(8)].join("\n")));
        return;
    }
    // other versions, other formats, unknown parts
    let ch: Vec<char> = c.serialized.chars().collect();
    let mut m = ch.clone();
    let what = match rng.below(4) {
        0 => {
            m[0] = *rng.pick(&['\u{1}', '\u{2}', '\u{4}', '\u{5}', '3', '\u{0}']);
            "version"
        }
        1 => {
            let i = 1 + rng.below(8);
            let v = m[i] as u32;
            let v = v ^ (1 << rng.below(11));
            m[i] = match char::from_u32(v) {
                Some(c) => c,
                None => return,
            };
            "format id"
        }
        2 => {
            m[9] = *rng.pick(&['\u{4}', '\u{7}', '\u{1}']);
            "grammar type"
        }
        _ => {
            // type of the first state
            m[12] = *rng.pick(&['\u{f}', '\u{10}', '\u{80}']);
            "state type"
        }
    };
    let s: String = m.iter().collect();
    r.one("damaged_networks");
    if catch_unwind(|| ATNDeserializer::new(None).deserialize(s.chars())).is_ok() {
        r.violation(format!("a network with a wrong {} was loaded: {:?} for {:?}", what, &m[..14], &ch[..14]));
    }
}

// ------------------------------------------------------------------ D03
fn to_set(s: &IntervalSet, max: isize) -> BTreeSet<isize> {
    (-3..=max + 3).filter(|x| s.contains(*x)).collect()
}
pub fn d03(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let k = cp::pick_kind(rng);
    let g = cp::grammar(rng, &k);
    let c = Arc::new(compile(&g));
    let a = interp::load(&c).atn.clone();
    let max = g.max_tok as isize;
    let n = c.atn.states.len();
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let callers: Vec<Vec<usize>> = (0..g.rules.len())
        .map(|r| {
            (0..n)
                .filter(|s| c.atn.states[*s].edges.iter().any(|e| e.ty == T_RULE && c.atn.states[e.target].rule == r as i32))
                .collect()
        })
        .collect();
    let mut some = false;
    for s in order {
        if rng.chance(1, 2) {
            // within the rule
            let (leaf, ended) = match atnsim::closure(&c.atn, &[(s, vec![])], 20_000) {
                Some(x) => x,
                None => continue,
            };
            let mut want: BTreeSet<isize> = (-1..=g.max_tok)
                .filter(|t| *t != 0)
                .filter(|t| leaf.iter().any(|(s, _)| c.atn.states[*s].edges.iter().any(|e| atnsim::matches(e, *t))))
                .map(|t| t as isize)
                .collect();
            if ended {
                want.insert(-2);
                r.one("states_reaching_the_rule_end");
            }
            let st = a.states[s].as_ref();
            let got = to_set(a.next_tokens(st), max);
            let again = to_set(a.next_tokens(st), max);
            r.one("next_token_sets_compared");
            some = true;
            if got != want || again != want {
                r.violation(format!(
                    "next_tokens of state {} (rule {}): {:?}, later {:?}, expected {:?}\n{}",
                    s,
                    c.atn.states[s].rule,
                    got,
                    again,
                    want,
                    show_grammar(&g)
                ));
                return;
            }
            if st.get_rule_index() as i32 != c.atn.states[s].rule {
                r.violation(format!("rule of state {}", s));
            }
        } else {
            let mut stack = vec![];
            let mut rule = c.atn.states[s].rule as usize;
            for _ in 0..rng.below(5) {
                if callers[rule].is_empty() {
                    break;
                }
                let s = *rng.pick(&callers[rule]);
                stack.push(s);
                rule = c.atn.states[s].rule as usize;
            }
            let outer_first: Vec<usize> = stack.iter().rev().copied().collect();
            let want = match atnsim::expected(&c.atn, g.max_tok, s, &outer_first) {
                Some(x) => x,
                None => continue,
            };
            let got = to_set(&a.get_expected_tokens(s as isize, stack.iter().map(|x| *x as isize)), max);
            r.one("expected_sets_compared");
            if stack.len() > 1 {
                r.one("stacks_of_several_rules");
            }
            some = true;
            if got != want {
                r.violation(format!(
                    "get_expected_tokens({}, {:?}): {:?}, expected {:?}\n{}",
                    s,
                    stack,
                    got,
                    want,
                    show_grammar(&g)
                ));
                return;
            }
        }
    }
    if some {
        r.eval(&c.serialized);
        r.sample(|| show_grammar(&g));
    }
}
