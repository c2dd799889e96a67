//! Parser checks.
use std::sync::Arc;

use crate::gen::{self, GOpts};
use crate::gram::{compile, show_grammar, Compiled, El, Grammar, RuleDef};
use crate::interp::{self, Cfg, Mode, Shared};
use crate::oracle::{self, Dec, Flat, Oracle};
use crate::out::*;
use crate::rep::Rep;
use crate::rng::Rng;

pub struct In {
    pub toks: Vec<TokSpec>,
    /// on channel types, ending with EOF
    pub on: Vec<i32>,
    /// token index of every on channel token
    pub map: Vec<isize>,
}
pub fn mk_in(tys: &[i32], rng: &mut Rng, hidden: bool) -> In {
    let mut toks = vec![];
    let mut on = vec![];
    let mut map = vec![];
    let (mut line, mut col, mut pos) = (1isize, 0isize, 0isize);
    let mut push = |toks: &mut Vec<TokSpec>, ty: i32, ch: isize, rng: &mut Rng| {
        let deco = ["", "", "", "", "\n", "\té", " 𝛼", "\r"];
        let text = if ch == 0 {
            format!("<{}{}>", ty, rng.pick(&deco))
        } else {
            format!("~{}", rng.below(10))
        };
        let l = text.chars().count() as isize;
        toks.push(TokSpec { ty, ch, text, start: pos, stop: pos + l - 1, line, col });
        pos += l;
        if rng.chance(1, 4) {
            line += 1;
            col = 0;
            pos += 1;
        } else {
            col += l;
        }
    };
    for t in tys {
        while hidden && rng.chance(1, 4) {
            let ch = 1 + rng.below(3) as isize;
            push(&mut toks, 1 + rng.below(4) as i32, ch, rng);
        }
        on.push(*t);
        map.push(toks.len() as isize);
        push(&mut toks, *t, 0, rng);
    }
    while hidden && rng.chance(1, 4) {
        push(&mut toks, 1, 1, rng);
    }
    on.push(-1);
    map.push(toks.len() as isize);
    In { toks, on, map }
}

pub enum Kind {
    General,
    LeftRec,
    /// left recursion with operators which also occur elsewhere
    Loose,
    Preds,
    Ll1,
    Ll1Preds,
    /// no rule is special: each can be called, and need not end with EOF
    Open,
    OpenRec,
}
pub fn grammar(rng: &mut Rng, k: &Kind) -> Grammar {
    match k {
        Kind::General => {
            let o = GOpts {
                max_rules: 1 + rng.below(6),
                max_tok: 2 + rng.below(4),
                depth: 1 + rng.below(3),
                acts: rng.chance(1, 3),
                ..Default::default()
            };
            gen::general(rng, &o)
        }
        Kind::LeftRec | Kind::Loose => {
            let o = GOpts {
                max_rules: 1 + rng.below(3),
                sets: false,
                leftrec: true,
                nongreedy: false,
                loose: matches!(k, Kind::Loose),
                ..Default::default()
            };
            gen::general(rng, &o)
        }
        Kind::Preds => {
            let o = GOpts {
                max_rules: 1 + rng.below(4),
                sets: rng.chance(1, 2),
                preds: true,
                nongreedy: rng.chance(1, 2),
                acts: rng.chance(1, 3),
                leftrec: rng.chance(1, 4),
                depth: 1 + rng.below(3),
                ..Default::default()
            };
            gen::general(rng, &o)
        }
        Kind::Open | Kind::OpenRec => {
            let rec = matches!(k, Kind::OpenRec);
            let o = GOpts {
                max_rules: 1 + rng.below(4),
                max_tok: 2 + rng.below(4),
                depth: 1 + rng.below(3),
                open: true,
                leftrec: rec,
                loose: rec && rng.chance(1, 2),
                nongreedy: rng.chance(1, 3),
                ..Default::default()
            };
            gen::general(rng, &o)
        }
        Kind::Ll1 => gen::ll1(rng),
        Kind::Ll1Preds => gen::ll1_preds(rng),
    }
}
pub fn show_case(c: &Compiled, i: &In, preds: &[bool]) -> String {
    let dump = if std::env::var("VH_DUMP").is_ok() {
        format!(
            "\nDUMP\t{:?}\t{}\t{:?}\t{:?}\n",
            c.g.rules,
            c.g.max_tok,
            i.toks.iter().map(|t| (t.ty, t.ch)).collect::<Vec<_>>(),
            preds
        )
    } else {
        String::new()
    };
    dump + &format!(
        "grammar:\n{}input: {}\n  (all tokens as type/channel: {}) preds {:?}",
        show_grammar(&c.g),
        i.on.iter().map(|t| format!("{}", t)).collect::<Vec<_>>().join(" "),
        i.toks.iter().map(|t| format!("{}/{}", t.ty, t.ch)).collect::<Vec<_>>().join(" "),
        preds
    )
}

/// The number of (position, grammar place, call stack) triples which are alive while reading the
/// input bounds the work any ALL(*) implementation has to do; skip inputs where it explodes.
pub const COST: usize = 12_000;
pub fn cheap(f: &Flat, i: &In, preds: &[bool]) -> bool {
    cheap_at(f, i, preds, 0)
}
pub fn cheap_at(f: &Flat, i: &In, preds: &[bool], start: usize) -> bool {
    let mut o = Oracle::new(f, &i.on, preds);
    o.limit = COST;
    o.first_error(start).is_ok()
}
pub struct Ref {
    pub accepts: bool,
    pub decs: Vec<Dec>,
    /// see `Oracle::fuzzy`
    pub fuzzy: bool,
}
/// None = the reference gave up
pub fn reference(f: &Flat, i: &In, preds: &[bool]) -> Option<Ref> {
    reference_at(f, i, preds, 0)
}
pub fn reference_at(f: &Flat, i: &In, preds: &[bool], start: usize) -> Option<Ref> {
    if !cheap_at(f, i, preds, start) {
        return None;
    }
    let mut o = Oracle::new(f, &i.on, preds);
    o.map = i.map.clone();
    let d = o.derive(start).ok()?;
    Some(Ref { accepts: d.is_some(), decs: d.unwrap_or_default(), fuzzy: o.fuzzy })
}
pub fn pick_kind(rng: &mut Rng) -> Kind {
    match rng.below(10) {
        0..=5 => Kind::General,
        6 => Kind::LeftRec,
        7 | 8 => Kind::Preds,
        _ => Kind::Ll1,
    }
}
pub fn preds(rng: &mut Rng) -> Vec<bool> {
    (0..6).map(|_| rng.chance(1, 2)).collect()
}

pub struct Sess {
    pub c: Arc<Compiled>,
    pub f: Flat,
    pub sh: Shared,
}
pub fn session(g: &Grammar) -> Sess {
    if std::env::var("VH_SHOW").is_ok() {
        eprintln!("{}", show_grammar(g));
    }
    let c = Arc::new(compile(g));
    let f = Flat::new(&c);
    let sh = interp::load(&c);
    Sess { c, f, sh }
}
fn bad_end(o: &Outcome) -> Option<String> {
    if o.budget_exceeded {
        return Some(format!("parse did not end within the step budget ({} stream operations)", o.stream_ops));
    }
    if o.result.starts_with("panic") {
        return Some(o.result.clone());
    }
    None
}
fn errs(o: &Outcome) -> String {
    o.errors.iter().map(|e| format!("[{}] tok {} {}", e.kind, e.tok, e.msg)).collect::<Vec<_>>().join("; ")
}

// ------------------------------------------------------------------ P01
pub fn p01(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = pick_kind(&mut rng);
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    for _ in 0..6 {
        let tys = gen::input(&g, &mut rng, 12);
        let hidden = rng.chance(1, 3);
        let i = mk_in(&tys, &mut rng, hidden);
        let pv = preds(&mut rng);
        let rf = match reference(&s.f, &i, &pv) {
            Some(x) => x,
            None => {
                r.one("reference_gave_up");
                continue;
            }
        };
        let bail = rng.chance(1, 3);
        let cfg = Cfg { preds: pv.clone(), bail, ..Default::default() };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        r.eval(&format!("{:?}{:?}", s.c.serialized, i.on));
        r.one(if rf.accepts { "accepted_inputs" } else { "rejected_inputs" });
        r.add("decisions_observed", o.choices.len() as u64);
        r.add("tokens", i.on.len() as u64);
        let clean = if bail { o.result == "ok" } else { o.errors.is_empty() && o.result == "ok" };
        if let Some(m) = bad_end(&o) {
            r.violation(format!("{}\n{}", m, show_case(&s.c, &i, &pv)));
        } else if rf.accepts && !clean {
            r.violation(format!(
                "sentence of the language was rejected: result {} errors {}\n{}",
                o.result,
                errs(&o),
                show_case(&s.c, &i, &pv)
            ));
        } else if !rf.accepts && clean {
            r.violation(format!(
                "input outside of the language was accepted without a syntax error\ntree {}\n{}",
                o.tree.as_ref().map(|t| t.show()).unwrap_or_default(),
                show_case(&s.c, &i, &pv)
            ));
        }
        r.sample(|| format!("accepts={} {}", rf.accepts, show_case(&s.c, &i, &pv)));
    }
}

// ------------------------------------------------------------------ P02
pub fn p02(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = if rng.chance(1, 8) { Kind::Ll1 } else { Kind::General };
    derivation(&mut rng, k, r)
}
fn derivation(rng: &mut Rng, k: Kind, r: &mut Rep) {
    let g = grammar(rng, &k);
    let s = session(&g);
    for _ in 0..6 {
        let tys = gen::sentence(&g, rng, 12);
        let hidden = rng.chance(1, 3);
        let i = mk_in(&tys, rng, hidden);
        let pv = preds(rng);
        let rf = match reference(&s.f, &i, &pv) {
            Some(x) => x,
            None => {
                r.one("reference_gave_up");
                continue;
            }
        };
        if !rf.accepts {
            r.one("skipped_not_a_sentence");
            continue;
        }
        let labels = rng.chance(1, 4);
        let fast = matches!(k, Kind::Ll1Preds) && rng.chance(3, 4);
        let mode = if fast { Mode::Sll } else { Mode::Ll };
        r.add("fast_mode", fast as u64);
        let cfg = Cfg { preds: pv.clone(), labels, mode, ..Default::default() };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        judge_derivation(r, &s, &i, &pv, &rf, &o, labels);
    }
}
pub fn judge_derivation(r: &mut Rep, s: &Sess, i: &In, pv: &[bool], rf: &Ref, o: &Outcome, labels: bool) {
    r.eval(&format!("{:?}{:?}{:?}", s.c.serialized, i.on, pv));
    r.add("decisions_compared", rf.decs.len() as u64);
    r.add("ambiguous_decisions", rf.decs.iter().filter(|d| d.viable.len() > 1).count() as u64);
    let full = o.diags.iter().filter(|d| matches!(d, Diag::Full { .. })).count();
    r.add("full_context_predictions", full as u64);
    if let Some(m) = bad_end(o) {
        r.violation(format!("{}\n{}", m, show_case(&s.c, i, pv)));
        return;
    }
    let want = oracle::tree(&s.c, &i.on, &i.map, &rf.decs, 0, labels);
    let exp: Vec<(usize, isize, isize)> =
        rf.decs.iter().map(|d| (d.dec, i.map[d.pos], d.alt as isize)).collect();
    if exp != o.choices {
        let k = exp.iter().zip(&o.choices).position(|(a, b)| a != b).unwrap_or(exp.len().min(o.choices.len()));
        r.violation(format!(
            "wrong alternative: decision #{}: reference {:?} (viable {:?}), parser {:?}, errors {}\n{}",
            k,
            exp.get(k),
            rf.decs.get(k).map(|d| d.viable.clone()),
            o.choices.get(k),
            errs(o),
            show_case(&s.c, i, pv)
        ));
        return;
    }
    match &o.tree {
        Some(t) if *t == want => {}
        t => r.violation(format!(
            "parse tree differs\n got  {:?}\n want {:?}\n{}",
            t,
            want,
            show_case(&s.c, i, pv)
        )),
    }
    r.add("tree_nodes_compared", want.nodes() as u64);
    r.sample(|| format!("{}\n tree {}", show_case(&s.c, i, pv), want.show()));
}
// ------------------------------------------------------------------ P06, P10
pub fn p06(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = if rng.chance(1, 3) { Kind::Loose } else { Kind::LeftRec };
    derivation(&mut rng, k, r)
}
pub fn p10(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = if rng.chance(1, 3) { Kind::Ll1Preds } else { Kind::Preds };
    derivation(&mut rng, k, r)
}

// ------------------------------------------------------------------ helpers
fn eofs_in(g: &Grammar) -> usize {
    fn alts(v: &[Vec<El>]) -> usize {
        v.iter().flatten().map(el).sum()
    }
    fn el(e: &El) -> usize {
        match e {
            El::Tok(-1) => 1,
            El::Block(v) | El::Opt(v, _) | El::Star(v, _) | El::Plus(v, _) => alts(v),
            _ => 0,
        }
    }
    g.rules.iter().map(|r| alts(&r.alts)).sum()
}
pub fn tok_text(i: &In, idx: isize) -> String {
    if idx as usize >= i.toks.len() {
        "<EOF>".into()
    } else {
        i.toks[idx as usize].text.clone()
    }
}
fn esc(s: &str) -> String {
    s.replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
fn lisp(i: &In, t: &TNode) -> String {
    match t {
        TNode::Rule { r, kids, .. } => {
            let n = format!("r{}", r);
            if kids.is_empty() {
                return n;
            }
            let mut s = format!("({}", n);
            for k in kids {
                s.push(' ');
                s += &lisp(i, k);
            }
            s.push(')');
            s
        }
        TNode::Tok { idx, .. } => esc(&tok_text(i, *idx)),
        TNode::Err { text, .. } => esc(text),
    }
}
fn text(i: &In, t: &TNode) -> String {
    match t {
        TNode::Rule { kids, .. } => kids.iter().map(|k| text(i, k)).collect(),
        TNode::Tok { idx, .. } => tok_text(i, *idx),
        TNode::Err { text, .. } => text.clone(),
    }
}
pub fn any_case(rng: &mut Rng) -> (Grammar, Sess) {
    let k = pick_kind(rng);
    let g = grammar(rng, &k);
    let s = session(&g);
    (g, s)
}
pub fn any_input(g: &Grammar, s: &Sess, rng: &mut Rng, r: &mut Rep) -> Option<(In, Vec<bool>)> {
    let tys = gen::input(g, rng, 12);
    let hidden = rng.chance(1, 3);
    let i = mk_in(&tys, rng, hidden);
    let pv = preds(rng);
    if !cheap(&s.f, &i, &pv) {
        r.one("skipped_too_ambiguous");
        return None;
    }
    Some((i, pv))
}
pub fn same(a: &Outcome, b: &Outcome) -> Option<String> {
    if a.result != b.result {
        return Some(format!("result {} / {}", a.result, b.result));
    }
    if a.choices != b.choices {
        let k = a.choices.iter().zip(&b.choices).position(|(x, y)| x != y);
        return Some(format!(
            "decisions differ at {:?}: {:?} / {:?}",
            k,
            k.map(|k| a.choices[k]),
            k.map(|k| b.choices[k])
        ));
    }
    if a.errors != b.errors {
        return Some(format!("syntax errors: {} / {}", errs(a), errs(b)));
    }
    if a.tree != b.tree {
        return Some(format!("tree {:?} / {:?}", a.tree, b.tree));
    }
    if a.diags != b.diags {
        return Some(format!("reports {:?} / {:?}", a.diags, b.diags));
    }
    if a.events != b.events {
        return Some("listener events".into());
    }
    if a.lisp != b.lisp || a.text != b.text || a.inner_error != b.inner_error {
        return Some(format!("text {} / {}", a.lisp, b.lisp));
    }
    None
}

/// Two parses of one erroneous input differ first in a prediction which ran into a dead end, where
/// no alternative can match what was looked at, whatever the calling context. ANTLR documents no
/// guarantee for this (which alternative is taken, if any, depends on how far configurations of
/// equal DFA states left the rule, and equal states are shared).
pub fn excused(s: &Sess, i: &In, a: &Outcome, b: &Outcome, r: &mut Rep) -> bool {
    let n = a.tries.len().min(b.tries.len());
    let k = match (0..n).find(|k| a.tries[*k] != b.tries[*k]) {
        Some(k) => k,
        None => return false,
    };
    let ((da, pa, _), (db, pb, _)) = (a.tries[k], b.tries[k]);
    if (da, pa) != (db, pb) || a.errors.is_empty() && b.errors.is_empty() {
        return false;
    }
    let at = match i.map.iter().position(|m| *m == pa) {
        Some(x) => x,
        None => return false,
    };
    let far = a.looked[k].max(b.looked[k]);
    let st = s.c.atn.decisions[da];
    for prec in [true, false] {
        match crate::atnsim::death_any(&s.c.atn, &i.on, at, st, prec) {
            Some(d) if d < i.on.len() && i.map[d] <= far => {
                r.one("excused_dead_ends");
                return true;
            }
            Some(_) => {}
            None => return true,
        }
    }
    false
}
// ------------------------------------------------------------------ P03
/// the state of the shared prediction cache never influences the outcome
pub fn p03(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = pick_kind(&mut rng);
    let has_preds = matches!(k, Kind::Preds);
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    let mut runs = vec![];
    for _ in 0..5 {
        if let Some((i, pv)) = any_input(&g, &s, &mut rng, r) {
            let mode = if has_preds {
                Mode::Ll
            } else {
                [Mode::Sll, Mode::Ll, Mode::Ll, Mode::Exact][rng.below(4)]
            };
            let bail = rng.chance(1, 5);
            let cfg = Cfg { preds: pv, mode, bail, listeners: 1, ..Default::default() };
            runs.push((i, cfg));
        }
    }
    let cold: Vec<Outcome> = runs
        .iter()
        .map(|(i, cfg)| interp::common::parse_tokens(&s.sh.fresh(), &i.toks, cfg))
        .collect();
    let warm = s.sh.fresh();
    for round in 0..3 {
        let mut ord: Vec<usize> = (0..runs.len()).collect();
        rng.shuffle(&mut ord);
        for k in ord {
            let (i, cfg) = &runs[k];
            let o = interp::common::parse_tokens(&warm, &i.toks, cfg);
            r.eval(&format!("{}{:?}{:?}{}", s.c.serialized, i.on, cfg.mode, round));
            if let Some(d) = same(&cold[k], &o) {
                if excused(&s, i, &cold[k], &o, r) {
                    continue;
                }
                r.violation(format!(
                    "same input, cold cache / warm cache differ (mode {:?}, round {}): {}\n{}",
                    cfg.mode,
                    round,
                    d,
                    show_case(&s.c, i, &cfg.preds)
                ));
                return;
            }
            r.one(if o.errors.is_empty() { "clean_parses" } else { "parses_with_errors" });
        }
    }
    r.add("cached_states", warm.dfa_states() as u64);
    r.sample(|| format!("{} inputs, 3 rounds on one cache with {} DFA states; {}", runs.len(), warm.dfa_states(), show_grammar(&g)));
}

// ------------------------------------------------------------------ P04
pub fn p04(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = match rng.below(8) {
        0 => Kind::LeftRec,
        1 => Kind::Ll1,
        _ => Kind::General,
    };
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    for _ in 0..5 {
        let (i, pv) = match any_input(&g, &s, &mut rng, r) {
            Some(x) => x,
            None => continue,
        };
        let rf = match reference(&s.f, &i, &pv) {
            Some(x) => x,
            None => continue,
        };
        let shared = rng.chance(1, 2);
        let sh = |s: &Sess| if shared { s.sh.clone() } else { s.sh.fresh() };
        let base = Cfg { preds: pv.clone(), ..Default::default() };
        let sll = interp::common::parse_tokens(&sh(&s), &i.toks, &Cfg { mode: Mode::Sll, ..base.clone() });
        let ll = interp::common::parse_tokens(&sh(&s), &i.toks, &base);
        let ex = interp::common::parse_tokens(&sh(&s), &i.toks, &Cfg { mode: Mode::Exact, ..base.clone() });
        r.eval(&format!("{}{:?}", s.c.serialized, i.on));
        let mut bad = None;
        for (n, o) in [("SLL", &sll), ("LL", &ll), ("LL_EXACT", &ex)] {
            if let Some(m) = bad_end(o) {
                bad = Some(format!("{}: {}", n, m));
            } else if !rf.accepts && o.errors.is_empty() {
                bad = Some(format!("{} accepted an input outside of the language", n));
            } else if rf.accepts && n != "SLL" && !o.errors.is_empty() {
                bad = Some(format!("{} rejected a sentence: {}", n, errs(o)));
            }
        }
        if bad.is_none() && rf.accepts {
            if sll.errors.is_empty() {
                r.one("sll_clean");
                if sll.tree != ll.tree || sll.choices != ll.choices {
                    bad = Some(format!("SLL parse without errors differs from LL: {:?} / {:?}", sll.tree, ll.tree));
                }
            } else {
                r.one("sll_context_errors");
            }
            if ex.tree != ll.tree || ex.choices != ll.choices {
                bad = Some(format!("LL_EXACT differs from LL: {:?} / {:?}", ex.tree, ll.tree));
            }
            // two stage parsing
            let st1 = interp::common::parse_tokens(
                &s.sh,
                &i.toks,
                &Cfg { mode: Mode::Sll, bail: true, ..base.clone() },
            );
            if st1.result == "ok" && st1.tree != ll.tree {
                bad = Some("first stage (SLL, bail) of a two stage parse gives another tree".into());
            }
            if (st1.result == "ok") != sll.errors.is_empty() {
                bad = Some("SLL parse with bail strategy and with the default strategy disagree".into());
            }
        }
        if sll.diags.iter().any(|d| matches!(d, Diag::Full { .. } | Diag::Sens { .. })) {
            bad = Some("full context prediction in SLL mode".into());
        }
        r.add("ll_full_context", ll.diags.iter().filter(|d| matches!(d, Diag::Full { .. })).count() as u64);
        if let Some(m) = bad {
            r.violation(format!("{}\n{}", m, show_case(&s.c, &i, &pv)));
            return;
        }
        r.sample(|| show_case(&s.c, &i, &pv));
    }
}

// ------------------------------------------------------------------ P05
/// tree structure: every parse (with or without errors) returns a well formed tree
pub fn p05(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let (g, s) = any_case(&mut rng);
    for _ in 0..6 {
        let (i, pv) = match any_input(&g, &s, &mut rng, r) {
            Some(x) => x,
            None => continue,
        };
        let labels = rng.chance(1, 2);
        let cfg = Cfg { preds: pv.clone(), labels, listeners: rng.below(2), ..Default::default() };
        let o = match rng.below(4) {
            0 => interp::owning::parse_tokens(&s.sh, &i.toks, &cfg),
            1 => interp::arena::parse_tokens(&s.sh, &i.toks, &cfg),
            _ => interp::common::parse_tokens(&s.sh, &i.toks, &cfg),
        };
        r.eval(&format!("{}{:?}", s.c.serialized, i.on));
        let mut bad: Vec<String> = o.issues.clone();
        if let Some(m) = bad_end(&o) {
            r.violation(format!("{}\n{}", m, show_case(&s.c, &i, &pv)));
            return;
        }
        if o.ctx_left {
            bad.push("parser still has a current rule context after the start rule returned".into());
        }
        if let Some(t) = &o.tree {
            r.add("tree_nodes", t.nodes() as u64);
            let mut lv = vec![];
            t.leaves(&mut lv);
            let mut last = -1isize;
            for l in &lv {
                let (idx, ty, err) = match l {
                    TNode::Tok { idx, ty } => (*idx, *ty, false),
                    TNode::Err { idx, ty, .. } => (*idx, *ty, true),
                    _ => unreachable!(),
                };
                if err {
                    r.one("error_nodes");
                }
                if (idx == -1 || ty == -1) && err {
                    // conjured token, or EOF skipped by recovery (it is never consumed)
                    continue;
                }
                // (EOF is not consumed: it can be matched again)
                if idx < last || idx == last && ty != -1 {
                    bad.push(format!("tree leaves out of order: {} after {}", idx, last));
                }
                last = idx;
                let want = i.map.iter().position(|m| *m == idx).map(|p| i.on[p]);
                if want != Some(ty as i32) {
                    bad.push(format!("leaf for token {} has type {} (stream: {:?})", idx, ty, want));
                }
            }
            spans(t, &i, o.errors.is_empty(), eofs_in(&g) > 1, &mut bad);
            if lisp(&i, t) != o.lisp {
                bad.push(format!("to_string_tree {:?}, expected {:?}", o.lisp, lisp(&i, t)));
            }
            if text(&i, t) != o.text {
                bad.push(format!("get_text {:?}, expected {:?}", o.text, text(&i, t)));
            }
            if o.errors.is_empty() && lv.iter().any(|l| matches!(l, TNode::Err { .. })) {
                bad.push("error node in the tree of a clean parse".into());
            }
        } else {
            bad.push(format!("no tree: {}", o.result));
        }
        if !bad.is_empty() {
            r.violation(format!("{}\n tree {:?}\n{}", bad.join("; "), o.tree, show_case(&s.c, &i, &pv)));
            return;
        }
        r.sample(|| format!("{}\n{}", o.lisp, show_case(&s.c, &i, &pv)));
    }
}
/// start/stop of rule nodes against their leaves
fn spans(t: &TNode, i: &In, clean: bool, many_eof: bool, bad: &mut Vec<String>) {
    if let TNode::Rule { r, start, stop, kids, .. } = t {
        let mut lv = vec![];
        t.leaves(&mut lv);
        let idx: Vec<isize> = lv
            .iter()
            .filter_map(|l| match l {
                // (after an error EOF may be matched by inline recovery, which leaves stop before it)
                TNode::Tok { ty, .. } | TNode::Err { ty, .. } if *ty == -1 && !clean => None,
                TNode::Tok { idx, .. } | TNode::Err { idx, .. } if *idx >= 0 => Some(*idx),
                _ => None,
            })
            .collect();
        if let (Some(a), Some(b)) = (idx.first(), idx.last()) {
            if *start != *a || (clean && *stop != *b) || *stop < *b {
                bad.push(format!(
                    "rule r{} spans tokens {}..={} but its node says {}..={}",
                    r, a, b, start, stop
                ));
            }
        } else if clean {
            // empty: stop is the on-channel token before start (or there is none)
            let p = i.map.iter().position(|m| m == start);
            let want = match p {
                Some(0) => None,
                Some(p) => Some(i.map[p - 1]),
                None => None,
            };
            // (behind EOF: EOF again)
            let eof = *start == *i.map.last().unwrap() && *stop == *start && many_eof;
            if p.is_none() || (want.is_some() && Some(*stop) != want) && !eof {
                bad.push(format!("empty rule r{} node says {}..={}", r, start, stop));
            }
        }
        for k in kids {
            spans(k, i, clean, many_eof, bad)
        }
    }
}

// ------------------------------------------------------------------ P07, P08
pub fn p07(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let (g, s) = any_case(&mut rng);
    for _ in 0..6 {
        let mut tys = match rng.below(4) {
            0 => (0..rng.below(20)).map(|_| 1 + rng.below(g.max_tok as usize) as i32).collect(),
            _ => gen::sentence(&g, &mut rng, 14),
        };
        for _ in 0..1 + rng.below(4) {
            gen::mutate(&mut tys, g.max_tok, &mut rng);
        }
        if rng.chance(1, 10) {
            // token types the grammar knows nothing about
            let p = rng.below(tys.len() + 1);
            tys.insert(p, g.max_tok + 1 + rng.below(3) as i32);
        }
        let hidden = rng.chance(1, 3);
        let i = mk_in(&tys, &mut rng, hidden);
        let pv = preds(&mut rng);
        if !cheap(&s.f, &i, &pv) {
            r.one("skipped_too_ambiguous");
            continue;
        }
        let cfg = Cfg {
            preds: pv.clone(),
            mode: if rng.chance(1, 4) { Mode::Sll } else { Mode::Ll },
            listeners: rng.below(2),
            ..Default::default()
        };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        r.eval(&format!("{}{:?}", s.c.serialized, i.on));
        r.add("syntax_errors_observed", o.errors.len() as u64);
        r.add("stream_operations", o.stream_ops);
        let mut bad = vec![];
        if let Some(m) = bad_end(&o) {
            bad.push(m);
        } else if o.result != "ok" {
            bad.push(format!("start rule returned {}", o.result));
        } else {
            // every token before EOF is consumed exactly once, in order
            let want: Vec<isize> = i.map[..i.map.len() - 1].to_vec();
            let mut got = vec![];
            let mut conjured = 0;
            let t = o.tree.as_ref().unwrap();
            let mut lv = vec![];
            t.leaves(&mut lv);
            for l in &lv {
                match l {
                    TNode::Tok { idx, ty } if *ty != -1 => got.push(*idx),
                    TNode::Err { idx, ty, text } => {
                        if *idx == -1 {
                            conjured += 1;
                            if !text.starts_with("<missing ") && !(*ty == -1 && text == "<EOF>") {
                                bad.push(format!("conjured token has text {:?}", text));
                            }
                        } else if *ty != -1 {
                            got.push(*idx)
                        }
                    }
                    _ => {}
                }
            }
            if got != want {
                bad.push(format!("tokens {:?} of {:?} are in the tree", got, want));
            }
            let has_err = lv.iter().any(|l| matches!(l, TNode::Err { .. }));
            if has_err && o.errors.is_empty() {
                bad.push("error nodes without a reported syntax error".into());
            }
            r.add("conjured_tokens", conjured);
            r.add("error_nodes", lv.iter().filter(|l| matches!(l, TNode::Err { .. })).count() as u64);
            // one report per problem: the parser moves on between two reports
            // (EOF can be matched and stay: then the place is the same)
            let eofs = lv.iter().filter(|l| matches!(l, TNode::Tok { ty: -1, .. })).count();
            let mut again = if eofs_in(&s.c.g) > 1 { eofs } else { 0 };
            for w in o.errors.windows(2) {
                if w[1].at <= w[0].at {
                    if w[1].at == *i.map.last().unwrap() && w[1].at == w[0].at && again > 0 {
                        again -= 1;
                        continue;
                    }
                    bad.push(format!("two errors reported at input position {}: {:?} {:?}", w[0].at, w[0].msg, w[1].msg));
                }
            }
            for e in &o.errors {
                if e.tok < 0 || e.tok as usize > i.toks.len() {
                    bad.push(format!("offending token index {}", e.tok));
                    continue;
                }
                let (l, c) = pos_of(&i, e.tok);
                if (l, c) != (e.line, e.col) {
                    bad.push(format!("error at token {} reported at {}:{}, token is at {}:{}", e.tok, e.line, e.col, l, c));
                }
            }
        }
        if !bad.is_empty() {
            r.violation(format!("{}\n errors {}\n tree {:?}\n{}", bad.join("; "), errs(&o), o.tree, show_case(&s.c, &i, &pv)));
            return;
        }
        r.sample(|| format!("errors {}; {}\n{}", errs(&o), o.lisp, show_case(&s.c, &i, &pv)));
    }
}
fn pos_of(i: &In, idx: isize) -> (isize, isize) {
    if (idx as usize) < i.toks.len() {
        let t = &i.toks[idx as usize];
        (t.line, t.col)
    } else {
        let last = i.toks.last();
        (
            last.map(|t| t.line).unwrap_or(1),
            last.map(|t| t.col + t.text.chars().count() as isize).unwrap_or(0),
        )
    }
}
/// bail strategy: stops at the first error, consumes nothing after it
pub fn p08(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let (g, s) = any_case(&mut rng);
    for _ in 0..6 {
        let (i, pv) = match any_input(&g, &s, &mut rng, r) {
            Some(x) => x,
            None => continue,
        };
        let rf = match reference(&s.f, &i, &pv) {
            Some(x) => x,
            None => continue,
        };
        let cfg = Cfg { preds: pv.clone(), bail: true, listeners: rng.below(2), ..Default::default() };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        let d = interp::common::parse_tokens(&s.sh, &i.toks, &Cfg { bail: false, ..cfg.clone() });
        r.eval(&format!("{}{:?}", s.c.serialized, i.on));
        let mut bad = vec![];
        if let Some(m) = bad_end(&o) {
            bad.push(m);
        } else if rf.accepts {
            r.one("accepted");
            if o.result != "ok" {
                bad.push(format!("sentence refused: {} {}", o.result, o.inner_error));
            } else if o.tree != d.tree {
                bad.push("tree differs from the default strategy".into());
            }
        } else {
            r.one("cancelled");
            if o.result != "fallthrough" {
                bad.push(format!("parse of a wrong input was not cancelled: {}", o.result));
            }
            // nothing is consumed past the offending token
            let death = {
                let mut or = Oracle::new(&s.f, &i.on, &pv);
                or.first_error(0).ok().flatten().map(|x| x.0).unwrap_or(i.on.len() - 1)
            };
            let consumed = i.map.iter().filter(|m| **m < o.final_index).count();
            if consumed > death {
                bad.push(format!("{} tokens consumed, the input is wrong at token #{}", consumed, death));
            }
            if o.inner_error.is_empty() {
                bad.push("cancellation does not carry the original error".into());
            }
        }
        // (the error itself is reported once if it comes from a failed prediction or predicate)
        if o.errors.len() > 1 || rf.accepts && !o.errors.is_empty() {
            bad.push(format!("bail strategy went on after the first error: {}", errs(&o)));
        }
        bad.extend(o.issues.iter().cloned());
        r.add("errors_reported", o.errors.len() as u64);
        if !bad.is_empty() {
            r.violation(format!("{}\n{}", bad.join("; "), show_case(&s.c, &i, &pv)));
            return;
        }
        r.sample(|| format!("result {} {}\n{}", o.result, o.inner_error, show_case(&s.c, &i, &pv)));
    }
}

// ------------------------------------------------------------------ P09
fn names(s: &std::collections::BTreeSet<isize>) -> String {
    let v: Vec<String> =
        s.iter().map(|t| if *t == -1 { "<EOF>".into() } else { format!("T{}", t) }).collect();
    if v.len() == 1 {
        v[0].clone()
    } else {
        format!("{{{}}}", v.join(", "))
    }
}
pub fn p09(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let ll1 = rng.chance(1, 2);
    let k = if ll1 { Kind::Ll1 } else { Kind::General };
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    for _ in 0..6 {
        let (i, pv) = match any_input(&g, &s, &mut rng, r) {
            Some(x) => x,
            None => continue,
        };
        let mut or = Oracle::new(&s.f, &i.on, &pv);
        let fe = match or.first_error(0) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let cfg = Cfg { preds: pv.clone(), ..Default::default() };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        let mut bad = vec![];
        if let Some(m) = bad_end(&o) {
            bad.push(m);
        }
        r.eval(&format!("{}{:?}", s.c.serialized, i.on));
        if ll1 {
            match (&fe, o.errors.first()) {
                (None, None) => r.one("clean"),
                (None, Some(e)) => bad.push(format!("error on a sentence: {}", e.msg)),
                (Some(_), None) => bad.push("no error reported".into()),
                (Some((p, exp)), Some(e)) => {
                    r.one("first_errors_located");
                    if e.tok != i.map[*p] {
                        bad.push(format!("first error is at token {}, reported at {}", i.map[*p], e.tok));
                    }
                    if let Some(x) = &e.expected {
                        for t in x {
                            if !exp.contains(&(*t as i32)) {
                                bad.push(format!("token type {} reported as expected, but it cannot follow here {:?}", t, exp));
                            }
                        }
                    }
                }
            }
        }
        for (k, e) in o.errors.iter().enumerate() {
            let at = match i.map.iter().position(|m| *m == e.at) {
                Some(x) => x,
                None => {
                    bad.push(format!("parser is at off channel token {}", e.at));
                    continue;
                }
            };
            match e.kind {
                "noalt" => {
                    r.one("no_viable_alternative");
                    let off = i.map.iter().position(|m| *m == e.tok);
                    // (nothing is looked at behind EOF)
                    let d = crate::atnsim::death(&s.c.atn, &i.on, at, e.state as usize, &e.stack).map(|d| d.min(i.on.len() - 1));
                    let full = full_before(&o, k);
                    match (off, d) {
                        (Some(off), Some(d)) => {
                            if off < d || (full && off != d) || off < at {
                                bad.push(format!(
                                    "no viable alternative reported at token #{}, but input can be matched up to #{} (decision at #{}, full context {})",
                                    off, d, at, full
                                ));
                            }
                            // an alternative with which the rule could be left is taken instead
                            let out = crate::atnsim::leaves_rule(&s.c.atn, &i.on, at, off, e.state as usize, &e.stack);
                            if !full && off >= at && out == Some(true) {
                                bad.push(format!("no viable alternative reported at token #{} although the rule can end before it", off));
                            }
                            if full {
                                r.one("no_viable_alternative_full_context");
                            }
                            let txt: String = (e.at..=e.tok).filter(|x| (*x as usize) < i.toks.len()).map(|x| tok_text(&i, x)).collect();
                            let txt = if e.at as usize >= i.toks.len() { "<EOF>".into() } else { txt };
                            if e.msg.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r")
                                != format!("no viable alternative at input '{}'", txt)
                            {
                                bad.push(format!("message {:?}, decision starts at token {} and fails at {}", e.msg, e.at, e.tok));
                            }
                        }
                        _ => {}
                    }
                }
                "mismatch" | "inline" => {
                    r.one("expected_sets_compared");
                    let mut want = crate::atnsim::expected(&s.c.atn, g.max_tok, e.off_state as usize, &e.stack);
                    if e.kind == "mismatch" {
                        // the error may name the place of an earlier synchronisation
                        let x: Option<std::collections::BTreeSet<isize>> = e.expected.as_ref().map(|x| x.iter().cloned().collect());
                        for st in &e.sync_stacks {
                            if want != x {
                                want = crate::atnsim::expected(&s.c.atn, g.max_tok, e.off_state as usize, st);
                            }
                        }
                    }
                    if let (Some(w), Some(x)) = (want, &e.expected) {
                        let x: std::collections::BTreeSet<isize> = x.iter().cloned().collect();
                        if x != w {
                            bad.push(format!("expected tokens {:?}, should be {:?} ({})", x, w, e.msg));
                        }
                        if e.tok != e.at {
                            bad.push(format!("mismatch at token {} while the parser is at {}", e.tok, e.at));
                        }
                        let tx = esc(&tok_text(&i, e.tok));
                        let m = [
                            format!("mismatched input '{}' expecting {}", tx, names(&w)),
                            format!("extraneous input '{}' expecting {}", tx, names(&w)),
                            format!("missing {} at '{}'", names(&w), tx),
                        ];
                        if !m.contains(&e.msg) {
                            bad.push(format!("message {:?}, expected one of {:?}", e.msg, m));
                        }
                        if e.kind == "inline" && e.msg.starts_with("mismatched") || e.kind == "mismatch" && !e.msg.starts_with("mismatched") {
                            bad.push(format!("{} error with message {:?}", e.kind, e.msg));
                        }
                    }
                }
                _ => {}
            }
            let (l, c) = pos_of(&i, e.tok);
            if (l, c) != (e.line, e.col) {
                bad.push(format!("error at token {} reported at {}:{}", e.tok, e.line, e.col));
            }
        }
        if !bad.is_empty() {
            r.violation(format!("{}\n errors {}\n{}", bad.join("; "), errs(&o), show_case(&s.c, &i, &pv)));
            return;
        }
        if !o.errors.is_empty() {
            r.sample(|| format!("errors {}\n{}", errs(&o), show_case(&s.c, &i, &pv)));
        }
    }
}
/// was the k-th error raised by a full context prediction?
fn full_before(o: &Outcome, k: usize) -> bool {
    let mut n = 0;
    for (j, d) in o.diags.iter().enumerate() {
        if let Diag::Error { .. } = d {
            if n == k {
                return j > 0 && matches!(o.diags[j - 1], Diag::Full { .. });
            }
            n += 1;
        }
    }
    false
}

// ------------------------------------------------------------------ P11
fn walk_events(t: &TNode, out: &mut Vec<Ev>) {
    match t {
        TNode::Rule { r, kids, .. } => {
            out.push(Ev::EnterEvery(*r));
            out.push(Ev::Enter(*r));
            kids.iter().for_each(|k| walk_events(k, out));
            out.push(Ev::Exit(*r));
            out.push(Ev::ExitEvery(*r));
        }
        TNode::Tok { idx, ty } => out.push(Ev::Term(*idx, *ty)),
        TNode::Err { idx, ty, .. } => out.push(Ev::Err(*idx, *ty)),
    }
}
/// events while parsing: the left operand of a left recursive rule is complete before the node of
/// the operator is entered
fn parse_events(c: &Compiled, t: &TNode, out: &mut Vec<Ev>) {
    match t {
        TNode::Rule { r, kids, .. } => {
            let mut rest = &kids[..];
            if c.prog[*r].leftrec {
                if let Some(TNode::Rule { r: r2, .. }) = kids.first() {
                    if r2 == r {
                        parse_events(c, &kids[0], out);
                        rest = &kids[1..];
                    }
                }
            }
            out.push(Ev::EnterEvery(*r));
            out.push(Ev::Enter(*r));
            rest.iter().for_each(|k| parse_events(c, k, out));
            out.push(Ev::Exit(*r));
            out.push(Ev::ExitEvery(*r));
        }
        TNode::Tok { idx, ty } => out.push(Ev::Term(*idx, *ty)),
        TNode::Err { idx, ty, .. } => {
            if *idx != -1 {
                out.push(Ev::Err(*idx, *ty))
            }
        }
    }
}
/// A rule with several alternatives which fails before one of them is chosen: listeners get its
/// exit event, but never its enter event.
fn p11_known(r: &mut Rep) {
    if r.counters.contains_key("enter_scenario") {
        return;
    }
    r.one("enter_scenario");
    let t = El::Tok;
    let g = Grammar::parser(
        vec![
            RuleDef::new("r0", vec![vec![El::Rule(1, 0), t(-1)]]),
            RuleDef::new("r1", vec![vec![t(1), t(2)], vec![t(3), t(4)]]),
        ],
        5,
    );
    let s = session(&g);
    let i = mk_in(&[5, 5], &mut Rng::new(1), false);
    let o = interp::common::parse_tokens(&s.sh, &i.toks, &Cfg { listeners: 1, ..Default::default() });
    let ex = o.events.iter().filter(|e| e.1 == Ev::Exit(1)).count();
    let en = o.events.iter().filter(|e| e.1 == Ev::Enter(1)).count();
    if ex == 1 && en == 0 {
        r.known.push(("enter-missing".into(), format!("{:?}\n{}", o.events, show_case(&s.c, &i, &[]))));
    } else if (ex, en) != (1, 1) {
        r.violation(format!("{} enter and {} exit events for one invocation of r1\n{}", en, ex, show_case(&s.c, &i, &[])));
    }
}
pub fn p11(seed: u64, r: &mut Rep) {
    p11_known(r);
    let mut rng = Rng::new(seed);
    let k = match rng.below(5) {
        0 => Kind::LeftRec,
        1 => Kind::Ll1,
        2 => Kind::Preds,
        _ => Kind::General,
    };
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    for _ in 0..5 {
        let (i, pv) = match any_input(&g, &s, &mut rng, r) {
            Some(x) => x,
            None => continue,
        };
        let n = 1 + rng.below(3);
        let cfg = Cfg {
            preds: pv.clone(),
            listeners: n,
            walk: true,
            labels: rng.chance(1, 3),
            churn: rng.chance(1, 2),
            ..Default::default()
        };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        let nt = interp::common::parse_tokens(&s.sh, &i.toks, &Cfg { build_tree: false, churn: false, ..cfg.clone() });
        r.eval(&format!("{}{:?}", s.c.serialized, i.on));
        r.add("listener_events", o.events.len() as u64);
        r.add("walker_events", o.walk.len() as u64);
        let mut bad = vec![];
        bad.extend(o.issues.iter().filter(|x| x.contains("listener")).cloned());
        if let Some(m) = bad_end(&o).or(bad_end(&nt)) {
            bad.push(m);
        } else {
            let t = o.tree.as_ref().unwrap();
            let mut w = vec![];
            walk_events(t, &mut w);
            if w != o.walk {
                bad.push(format!("walker events {:?}, expected {:?}", o.walk, w));
            }
            let v: Vec<Ev> =
                w.iter().filter(|e| !matches!(e, Ev::EnterEvery(_) | Ev::ExitEvery(_))).cloned().collect();
            if v != o.visit {
                bad.push(format!("visitor events {:?}, expected {:?}", o.visit, v));
            }
            let per: Vec<Vec<Ev>> = (0..n)
                .map(|k| o.events.iter().filter(|e| e.0 == k).map(|e| e.1.clone()).collect())
                .collect();
            for p in &per[1..] {
                if *p != per[0] {
                    bad.push("attached listeners saw different events".into());
                }
            }
            // several listeners: enter in order of registration, exit in reverse order
            let enters: Vec<usize> =
                o.events.iter().filter(|e| matches!(e.1, Ev::Enter(_) | Ev::Term(..) | Ev::Err(..))).map(|e| e.0).collect();
            let exits: Vec<usize> =
                o.events.iter().filter(|e| matches!(e.1, Ev::Exit(_))).map(|e| e.0).collect();
            if enters.chunks(n).any(|c| c.iter().enumerate().any(|(a, b)| a != *b))
                || exits.chunks(n).any(|c| c.iter().enumerate().any(|(a, b)| n - 1 - a != *b))
            {
                bad.push("events are not delivered to listeners in registration order (reverse for exit)".into());
            }
            if o.errors.is_empty() {
                r.one("clean_parses");
                let mut w = vec![];
                parse_events(&s.c, t, &mut w);
                if w != per[0] {
                    bad.push(format!("events while parsing {:?}, expected {:?}", per[0], w));
                }
            } else {
                r.one("parses_with_errors");
                // leaves still arrive in tree order
                let lv: Vec<Ev> = w
                    .iter()
                    .filter(|e| matches!(e, Ev::Term(..)) || matches!(e, Ev::Err(i, _) if *i != -1))
                    .cloned()
                    .collect();
                let got: Vec<Ev> =
                    per[0].iter().filter(|e| matches!(e, Ev::Term(..) | Ev::Err(..))).cloned().collect();
                if lv != got {
                    bad.push(format!("token events {:?}, expected {:?}", got, lv));
                }
                let nodes = w.iter().filter(|e| matches!(e, Ev::Exit(_))).count();
                let ex = per[0].iter().filter(|e| matches!(e, Ev::Exit(_))).count();
                let en = per[0].iter().filter(|e| matches!(e, Ev::Enter(_))).count();
                if ex != nodes + o.left_twice as usize {
                    bad.push(format!("{} exit events for {} rule nodes", ex, nodes));
                }
                let ab = o.abandoned as usize;
                if en + ab != nodes && en != nodes {
                    bad.push(format!("{} enter events for {} rule nodes ({} abandoned before an alternative was chosen)", en, nodes, ab));
                }
                r.add("rules_abandoned_before_alternative", ab as u64);
            }
            // no tree: same events
            if nt.tree.is_some() && nt.tree.as_ref().unwrap().nodes() > 1 {
                bad.push("tree nodes although tree building is off".into());
            }
            if nt.events != o.events && !excused(&s, &i, &nt, &o, r) {
                bad.push("events depend on whether a tree is built".into());
            }
            if (nt.errors != o.errors || nt.choices != o.choices) && !excused(&s, &i, &nt, &o, r) {
                bad.push(format!("errors or decisions depend on whether a tree is built: {} / {}", errs(&o), errs(&nt)));
            }
        }
        if !bad.is_empty() {
            r.violation(format!("{}\n tree {:?}\n{}", bad.join("; "), o.tree.as_ref().map(|t| t.show()), show_case(&s.c, &i, &pv)));
            return;
        }
        r.sample(|| format!("{} listeners, {} events, {}", n, o.events.len(), show_case(&s.c, &i, &pv)));
    }
}

// ------------------------------------------------------------------ P12
pub fn p12(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = if rng.chance(1, 10) { Kind::Ll1 } else { Kind::General };
    let ll1 = matches!(k, Kind::Ll1);
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    for _ in 0..5 {
        let tys = gen::sentence(&g, &mut rng, 10);
        let hidden = rng.chance(1, 3);
        let i = mk_in(&tys, &mut rng, hidden);
        let rf = match reference(&s.f, &i, &[]) {
            Some(x) => x,
            None => {
                r.one("reference_gave_up");
                continue;
            }
        };
        if !rf.accepts {
            continue;
        }
        let exact = rng.chance(2, 3);
        let with_listener = rng.chance(1, 2);
        let cfg = Cfg {
            mode: if exact { Mode::Exact } else { Mode::Ll },
            diag_listener: with_listener,
            ..Default::default()
        };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        r.eval(&format!("{}{:?}{}", s.c.serialized, i.on, exact));
        let mut bad = vec![];
        if let Some(m) = bad_end(&o) {
            r.violation(format!("{}\n{}", m, show_case(&s.c, &i, &[])));
            return;
        }
        let msgs: Vec<&ErrEv> = o.errors.iter().filter(|e| e.kind == "inline" && e.msg.starts_with("report")).collect();
        let real = o.errors.len() - msgs.len();
        if real > 0 {
            bad.push(format!("syntax errors on a sentence {}", errs(&o)));
        }
        // group reports by decision event
        let mut cur: Vec<&Diag> = vec![];
        let mut n = 0;
        let mut want_msgs: Vec<String> = vec![];
        let txt = |a: isize, b: isize| -> String {
            (a..=b).filter(|x| (*x as usize) < i.toks.len()).map(|x| tok_text(&i, x)).collect()
        };
        for d in &o.diags {
            match d {
                Diag::Error { .. } => {}
                Diag::Choice { dec, pos, alt } => {
                    let rd = match rf.decs.get(n) {
                        Some(x) => x,
                        None => {
                            bad.push("more decisions than in the reference derivation".into());
                            break;
                        }
                    };
                    n += 1;
                    if rd.dec as isize != *dec || rd.alt as isize != *alt || i.map[rd.pos] != *pos {
                        bad.push("decision differs from the reference".into());
                        break;
                    }
                    let full = cur.iter().filter(|d| matches!(d, Diag::Full { .. })).count();
                    let fin: Vec<&&Diag> = cur.iter().filter(|d| !matches!(d, Diag::Full { .. })).collect();
                    if full > 1 || fin.len() != full || (full == 1 && !matches!(cur[0], Diag::Full { .. })) {
                        bad.push(format!("report protocol: {:?}", cur));
                        break;
                    }
                    if ll1 && full > 0 {
                        bad.push("full context prediction in an LL(1) grammar".into());
                    }
                    for c in &cur {
                        let (dd, a, b) = match c {
                            Diag::Full { dec, start, stop, alts } => {
                                r.one("full_context_attempts");
                                if !alts.contains(&(*alt as usize)) {
                                    bad.push(format!("conflicting alternatives {:?} do not contain the prediction {}", alts, alt));
                                }
                                if alts.len() < 2 {
                                    bad.push(format!("conflict between {:?}", alts));
                                }
                                (dec, start, stop)
                            }
                            Diag::Ambig { dec, start, stop, alts, exact: ex } => {
                                r.one("ambiguities_reported");
                                if exact {
                                    if *alts != rd.viable {
                                        bad.push(format!("ambiguous alternatives {:?}, really viable {:?}", alts, rd.viable));
                                    }
                                    if !*ex {
                                        bad.push("ambiguity not exact in exact mode".into());
                                    }
                                } else {
                                    if alts.first() != Some(&(*alt as usize)) || alts.len() < 2 || rd.viable.iter().any(|v| !alts.contains(v)) {
                                        bad.push(format!("ambiguous alternatives {:?}, prediction {}, viable {:?}", alts, alt, rd.viable));
                                    }
                                }
                                (dec, start, stop)
                            }
                            Diag::Sens { dec, start, stop, alt: a } => {
                                r.one("context_sensitivities_reported");
                                if a != alt || rd.viable.len() != 1 {
                                    bad.push(format!("context sensitivity with prediction {}, viable {:?}", a, rd.viable));
                                }
                                (dec, start, stop)
                            }
                            _ => continue,
                        };
                        if dd != dec || *a != *pos || b < a {
                            bad.push(format!("report {:?} for decision {} at {}", c, dec, pos));
                        }
                        let st = s.c.atn.decisions[*dec as usize];
                        let rule = s.c.atn.states[st].rule;
                        want_msgs.push(match c {
                            Diag::Full { .. } => format!("reportAttemptingFullContext d={} (r{}), input='{}'", dec, rule, txt(*a, *b)),
                            Diag::Ambig { alts, .. } => format!(
                                "reportAmbiguity d={} (r{}): ambigAlts={{{}}}, input='{}'",
                                dec,
                                rule,
                                alts.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "),
                                txt(*a, *b)
                            ),
                            _ => format!("reportContextSensitivity d={} (r{}), input='{}'", dec, rule, txt(*a, *b)),
                        });
                    }
                    if exact && rd.viable.len() > 1 && !cur.iter().any(|d| matches!(d, Diag::Ambig { .. })) {
                        bad.push(format!("alternatives {:?} of decision {} at token {} all match the whole input, but no ambiguity was reported ({:?})", rd.viable, dec, pos, cur));
                    }
                    if rd.viable.len() > 1 {
                        r.one("ambiguous_decisions");
                    }
                    cur.clear();
                }
                x => cur.push(x),
            }
        }
        if with_listener {
            let got: Vec<String> = msgs.iter().map(|e| e.msg.clone()).collect();
            if got != want_msgs {
                bad.push(format!("diagnostic listener said {:?}, expected {:?}", got, want_msgs));
            }
            r.add("diagnostic_messages", got.len() as u64);
        }
        if !bad.is_empty() {
            r.violation(format!("{}\n{}", bad.join("; "), show_case(&s.c, &i, &[])));
            return;
        }
        r.sample(|| format!("{:?}\n{}", o.diags, show_case(&s.c, &i, &[])));
    }
}

// ------------------------------------------------------------------ P13
/// the run follows the model of the documented error recovery, step by step
pub fn p13(seed: u64, r: &mut Rep) {
    use crate::model::{MNode, Model, MK};
    let mut rng = Rng::new(seed);
    let (g, s) = any_case(&mut rng);
    for _ in 0..6 {
        let mut tys = match rng.below(6) {
            0 => (0..rng.below(20)).map(|_| 1 + rng.below(g.max_tok as usize) as i32).collect(),
            _ => gen::sentence(&g, &mut rng, 16),
        };
        for _ in 0..1 + rng.below(4) {
            gen::mutate(&mut tys, g.max_tok, &mut rng);
        }
        if rng.chance(1, 10) {
            let p = rng.below(tys.len() + 1);
            tys.insert(p, g.max_tok + 1 + rng.below(3) as i32);
        }
        let hidden = rng.chance(1, 3);
        let i = mk_in(&tys, &mut rng, hidden);
        let pv = preds(&mut rng);
        if !cheap(&s.f, &i, &pv) {
            r.one("skipped_too_ambiguous");
            continue;
        }
        let cfg = Cfg {
            preds: pv.clone(),
            mode: if rng.chance(1, 4) { Mode::Sll } else { Mode::Ll },
            listeners: rng.below(2),
            labels: rng.chance(1, 3),
            stream: if hidden { 0 } else { rng.below(3) as u8 },
            ..Default::default()
        };
        let o = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        let mut bad = vec![];
        if let Some(m) = bad_end(&o) {
            bad.push(m);
        } else {
            let mut m = Model::new(&s.c, &i.on, &i.map, &o.tries, &pv);
            let tree = match m.run(0) {
                Ok(t) => Some(t),
                Err(None) => {
                    r.one("model_gave_up");
                    continue;
                }
                Err(Some(t)) => {
                    bad.push(t);
                    None
                }
            };
            r.eval(&format!("{}{:?}", s.c.serialized, i.on));
            for (k, v) in &m.counts {
                r.add(k, *v);
            }
            fn show(n: &MNode) -> String {
                let mut s = format!("(r{}", n.r);
                for k in &n.kids {
                    s += &match k {
                        MK::Tok(i) => format!(" {}", i),
                        MK::Err(i) => format!(" !{}", i),
                        MK::Miss(t) => format!(" <missing {}>", t),
                        MK::Rule(n) => format!(" {}", show(n)),
                    };
                }
                s + ")"
            }
            fn real(n: &TNode) -> String {
                match n {
                    TNode::Rule { r, kids, .. } => {
                        let mut s = format!("(r{}", r);
                        for k in kids {
                            s += " ";
                            s += &real(k);
                        }
                        s + ")"
                    }
                    TNode::Tok { idx, .. } => format!("{}", idx),
                    TNode::Err { idx, ty, .. } if *idx < 0 => format!("<missing {}>", ty),
                    TNode::Err { idx, .. } => format!("!{}", idx),
                }
            }
            let want: Vec<String> = m
                .reps
                .iter()
                .map(|e| format!("{} at {}{}", e.kind, i.map[e.at], e.expected.as_ref().map(|x| format!(" expecting {:?}", x)).unwrap_or_default()))
                .collect();
            let got: Vec<String> = o
                .errors
                .iter()
                .map(|e| {
                    let k = match e.kind {
                        "inline" if e.msg.starts_with("extraneous") => "extraneous",
                        "inline" if e.msg.starts_with("missing") => "missing",
                        k => k,
                    };
                    let x = match k {
                        "extraneous" | "missing" | "mismatch" => e
                            .expected
                            .as_ref()
                            .map(|x| format!(" expecting {:?}", x.iter().copied().collect::<std::collections::BTreeSet<_>>()))
                            .unwrap_or_default(),
                        _ => String::new(),
                    };
                    format!("{} at {}{}", k, e.at, x)
                })
                .collect();
            if want != got {
                bad.push(format!("reports {:?}, the documented recovery gives {:?}", got, want));
            }
            if let (Some(w), Some(t)) = (&tree, &o.tree) {
                let (w, t) = (show(w), real(t));
                if w != t {
                    bad.push(format!("tree {}, the documented recovery gives {}", t, w));
                }
            }
        }
        if !bad.is_empty() {
            r.violation(format!("{}\n errors {}\n tree {:?}\n{}", bad.join("; "), errs(&o), o.tree, show_case(&s.c, &i, &pv)));
            return;
        }
        r.sample(|| format!("errors {}; {}\n{}", errs(&o), o.lisp, show_case(&s.c, &i, &pv)));
    }
}

// ------------------------------------------------------------------ P14
/// every rule can be the one a parse starts with, whether it ends with EOF or not, and whether
/// others call it or not
pub fn p14(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = match rng.below(8) {
        0 => Kind::LeftRec,
        1 => Kind::Loose,
        2 => Kind::Ll1,
        3 => Kind::General,
        4 => Kind::OpenRec,
        _ => Kind::Open,
    };
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    let none: Vec<bool> = vec![];
    let fixed = rng.chance(1, 2);
    let mut start = rng.below(g.rules.len());
    if matches!(k, Kind::LeftRec | Kind::Loose | Kind::OpenRec) && rng.chance(1, 2) {
        start = g.rules.iter().position(|r| r.leftrec).unwrap_or(0);
    }
    for _ in 0..6 {
        if !fixed {
            start = rng.below(g.rules.len());
        }
        // the number of configurations explodes on long inputs of highly ambiguous grammars
        let steep = matches!(k, Kind::Loose | Kind::OpenRec);
        let mut tys: Vec<i32> = gen::sentence_of(&g, start, &mut rng, if steep { 5 } else { 10 });
        if steep {
            tys.truncate(9);
        }
        match rng.below(6) {
            0 => gen::mutate(&mut tys, g.max_tok, &mut rng),
            1 => {
                // a sentence and something else behind it
                let more = gen::sentence_of(&g, rng.below(g.rules.len()), &mut rng, 5);
                tys.extend(more);
            }
            _ => {}
        }
        let hidden = rng.chance(1, 4);
        let i = mk_in(&tys, &mut rng, hidden);
        let rf = match reference_at(&s.f, &i, &none, start) {
            Some(x) => x,
            None => {
                r.one("reference_gave_up");
                continue;
            }
        };
        let case = || format!("start rule r{}\n{}", start, show_case(&s.c, &i, &none));
        let cfg = Cfg { start_rule: start, listeners: rng.below(2), ..Default::default() };
        let cold = s.sh.fresh();
        let o = interp::common::parse_tokens(&cold, &i.toks, &cfg);
        let ex = interp::common::parse_tokens(&s.sh, &i.toks, &Cfg { mode: Mode::Exact, ..cfg.clone() });
        let sll = interp::common::parse_tokens(&s.sh, &i.toks, &Cfg { mode: Mode::Sll, ..cfg.clone() });
        let bail = interp::common::parse_tokens(&s.sh, &i.toks, &Cfg { bail: true, ..cfg.clone() });
        let warm = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        let warm2 = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        r.eval(&format!("{:?}{:?}{}", s.c.serialized, i.on, start));
        r.one(if s.f.closed[start] { "start_rule_with_eof" } else if s.f.callers(start).is_empty() { "start_rule_without_eof" } else { "start_rule_called_elsewhere" });
        let mut bad = vec![];
        for (n, o) in [("LL", &o), ("LL_EXACT", &ex), ("SLL", &sll), ("bail", &bail), ("warm", &warm)] {
            if let Some(m) = bad_end(o) {
                bad.push(format!("{}: {}", n, m));
                continue;
            }
            bad.extend(o.issues.iter().map(|x| format!("{}: {}", n, x)));
            if o.result != "ok" || !o.errors.is_empty() {
                continue;
            }
            // what was consumed is a sentence of the rule, and the tree is one of its derivations
            let t = o.tree.as_ref().unwrap();
            let mut lv = vec![];
            t.leaves(&mut lv);
            let used = i.map.iter().filter(|m| **m < o.final_index).count().min(i.on.len() - 1);
            let mut toks = i.on[..used].to_vec();
            toks.push(-1);
            let mut or = Oracle::new(&s.f, &toks, &none);
            or.limit = COST;
            match or.derive(start) {
                Ok(Some(_)) => {}
                Ok(None) => bad.push(format!("{}: {} tokens were consumed without an error, which are no sentence of the rule", n, used)),
                Err(_) => {}
            }
            let decs: Vec<Dec> = o.choices.iter().map(|c| Dec { dec: c.0, pos: 0, alt: c.2 as usize, viable: vec![] }).collect();
            if used == i.on.len() - 1 || s.f.no_eof {
                let want = oracle::tree(&s.c, &i.on, &i.map, &decs, start, false);
                if *t != want {
                    bad.push(format!("{}: tree {:?}, the decisions taken say {:?}", n, t, want));
                }
            }
            if used + 1 < i.on.len() {
                r.one("clean_prefixes");
            }
        }
        if bad.is_empty() && rf.accepts {
            if rf.fuzzy {
                r.one("sentences_not_told_apart_from_other_callers");
            } else {
                r.one("sentences_accepted");
                r.add("full_context_predictions", o.diags.iter().filter(|d| matches!(d, Diag::Full { .. })).count() as u64);
                let want = oracle::tree(&s.c, &i.on, &i.map, &rf.decs, start, false);
                for (n, o) in [("LL", &o), ("LL_EXACT", &ex), ("bail", &bail), ("warm", &warm)] {
                    if o.result != "ok" || !o.errors.is_empty() {
                        bad.push(format!("{}: sentence of the rule rejected: {} {}", n, o.result, errs(o)));
                    } else if o.tree.as_ref() != Some(&want) {
                        bad.push(format!("{}: tree {:?}, expected {:?}", n, o.tree, want));
                    }
                }
            }
        }
        if bad.is_empty() && !rf.accepts && s.f.closed[start] && (o.errors.is_empty() || bail.result == "ok") {
            bad.push("input outside of the language accepted".into());
        }
        for w in [&warm, &warm2] {
            if let (true, Some(d)) = (bad.is_empty(), same(&o, w)) {
                // (ends of input which nothing in the grammar announces)
                let k = o.tries.iter().zip(&w.tries).position(|(a, b)| a != b);
                let eof = *i.map.last().unwrap();
                let at_end = k.map_or(false, |k| o.looked[k].max(w.looked[k]) >= eof);
                if !s.f.closed[start] && at_end {
                    r.one("excused_at_eof");
                } else if !excused(&s, &i, &o, w, r) {
                    bad.push(format!("cold and warm cache differ: {}", d));
                }
            }
        }
        if !bad.is_empty() {
            r.violation(format!("{}\n{}", bad.join("; "), case()));
            return;
        }
        r.sample(|| format!("accepts={} {}", rf.accepts, case()));
    }
}

// ------------------------------------------------------------------ R01
fn shift(a: &Vec<El>, sep: i32) -> Vec<El> {
    let alts = |v: &Vec<Vec<El>>| v.iter().map(|a| shift(a, sep)).collect::<Vec<_>>();
    a.iter()
        .filter(|e| !matches!(e, El::Tok(-1)))
        .map(|e| match e {
            El::Rule(r, p) => El::Rule(r + 1, *p),
            El::Wild => El::Set(vec![(1, sep - 1)]),
            El::NotSet(v) => {
                let mut v = v.clone();
                v.push((sep, sep + 1));
                El::NotSet(v)
            }
            El::Block(v) => El::Block(alts(v)),
            El::Opt(v, g) => El::Opt(alts(v), *g),
            El::Star(v, g) => El::Star(alts(v), *g),
            El::Plus(v, g) => El::Plus(alts(v), *g),
            e => e.clone(),
        })
        .collect()
}
/// the grammar with new rules around: r0: (r1 SEP)* EOF, or r0: r0' EOF with r0' nesting itself
fn around(g: &Grammar, nest: bool) -> (Grammar, i32) {
    let sep = g.max_tok + 1;
    let mut rules = vec![];
    if nest {
        // r0 : (SEP r0 SEP2 | r1) EOF?  as its own rule at the end
        rules.push(RuleDef::new("r0", vec![vec![El::Rule(g.rules.len() + 1, 0), El::Tok(-1)]]));
    } else {
        rules.push(RuleDef::new("r0", vec![vec![El::Star(vec![vec![El::Rule(1, 0), El::Tok(sep)]], true), El::Tok(-1)]]));
    }
    for (i, r) in g.rules.iter().enumerate() {
        let mut r = r.clone();
        r.name = format!("r{}", i + 1);
        for a in r.alts.iter_mut() {
            *a = shift(a, sep);
        }
        for o in r.ops.iter_mut() {
            o.1 = shift(&o.1, sep);
        }
        rules.push(r);
    }
    if nest {
        let n = rules.len();
        rules.push(RuleDef::new(&format!("r{}", n), vec![vec![El::Tok(sep), El::Rule(n, 0), El::Tok(sep + 1)], vec![El::Tok(sep), El::Rule(1, 0), El::Tok(sep)]]));
    }
    (Grammar::parser(rules, sep + nest as i32), sep)
}
fn rel(n: &TNode, base: isize) -> String {
    match n {
        TNode::Rule { r, start, stop, kids, .. } => {
            let mut s = format!("(r{}[{}..{}]", r, start - base, if *stop < *start { -1 } else { stop - base });
            for k in kids {
                s += " ";
                s += &rel(k, base);
            }
            s + ")"
        }
        TNode::Tok { idx, ty } => format!("{}@{}", ty, idx - base),
        TNode::Err { idx, ty, .. } => format!("!{}@{}", ty, idx - base),
    }
}
/// long and deep inputs behave like the short ones they consist of
pub fn r01(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let k = loop {
        let k = pick_kind(rng);
        if !matches!(k, Kind::Preds) {
            break k;
        }
    };
    let g0 = grammar(rng, &k);
    let nest = rng.chance(1, 3);
    let (g, sep) = around(&g0, nest);
    if nest && matches!(k, Kind::LeftRec) && g0.rules[0].leftrec {
        return;
    }
    let s = session(&g);
    let none = vec![];
    // the tiles, and what a parser makes of each alone
    let mut tiles: Vec<(Vec<i32>, String, usize)> = vec![];
    let bare = Grammar::parser(g0.rules.clone(), g0.max_tok);
    for _ in 0..4 {
        let mut t = gen::sentence(&bare, rng, 10);
        t.retain(|x| *x > 0);
        let w = if nest { [vec![sep], t.clone(), vec![sep]].concat() } else { [t.clone(), vec![sep]].concat() };
        let i = mk_in(&w, rng, false);
        match reference(&s.f, &i, &none) {
            Some(x) if x.accepts => {}
            _ => continue,
        }
        let o = interp::common::parse_tokens(&interp::load(&s.c), &i.toks, &Cfg::default());
        if o.result != "ok" || !o.errors.is_empty() {
            r.violation(format!("{} {}\n{}", o.result, errs(&o), show_case(&s.c, &i, &none)));
            return;
        }
        if let Some(TNode::Rule { kids, .. }) = &o.tree {
            tiles.push((w, rel(&kids[0], 0), o.choices.len()));
        }
    }
    if tiles.is_empty() {
        return;
    }
    let cfg = Cfg {
        mode: [Mode::Ll, Mode::Ll, Mode::Exact][rng.below(3)],
        bail: rng.chance(1, 4),
        stream: rng.below(3) as u8,
        listeners: rng.below(2),
        ..Default::default()
    };
    let f = rng.below(3);
    let parse = |toks: &[TokSpec]| match f {
        0 => interp::common::parse_tokens(&s.sh, toks, &cfg),
        1 => interp::owning::parse_tokens(&s.sh, toks, &cfg),
        _ => interp::arena::parse_tokens(&s.sh, toks, &cfg),
    };
    if nest {
        for t in &tiles {
            let n = 30 + rng.below(150);
            let mut w = vec![sep; n];
            w.extend(&t.0);
            w.extend(vec![sep + 1; n]);
            let i = mk_in(&w, rng, false);
            let o = parse(&i.toks);
            r.eval(&format!("{}{:?}{}", s.c.serialized, t.0, n));
            r.add("nested_tokens", w.len() as u64);
            let mut bad = vec![];
            if o.result != "ok" || !o.errors.is_empty() {
                bad.push(format!("{} {}", o.result, errs(&o)));
            }
            let mut node = o.tree.as_ref();
            let mut depth = 0;
            while let Some(TNode::Rule { kids, start, stop, .. }) = node {
                if depth == n + 1 {
                    break;
                }
                if depth > 0 && (*start != depth as isize - 1 || *stop != (w.len() - depth) as isize) {
                    bad.push(format!("node at depth {} spans {}..={}", depth, start, stop));
                    break;
                }
                node = kids.iter().find(|k| matches!(k, TNode::Rule { .. }));
                depth += 1;
            }
            if bad.is_empty() {
                let got = node.map(|x| rel(x, n as isize)).unwrap_or_default();
                if got != t.1 {
                    bad.push(format!("the innermost part is parsed as {}, alone as {}", got, t.1));
                }
            }
            if !bad.is_empty() {
                r.violation(format!("nested {} times: {}\n{:?}\n{}", n, bad.join("; ").chars().take(1500).collect::<String>(), cfg, show_case(&s.c, &mk_in(&t.0, rng, false), &none)));
                return;
            }
        }
        r.sample(|| format!("nested: {}", show_grammar(&g)));
        return;
    }
    let m = 1 + rng.below(20);
    let unit: Vec<usize> = (0..m).map(|_| rng.below(tiles.len())).collect();
    let n = (100 + rng.below(400)) / unit.iter().map(|u| tiles[*u].0.len()).sum::<usize>().max(1) + 2;
    let mut ops = vec![];
    for (round, reps) in [1, n, 2 * n, 3 * n].into_iter().enumerate() {
        let w: Vec<i32> = (0..reps).flat_map(|_| unit.iter().flat_map(|u| tiles[*u].0.iter().copied())).collect();
        let i = mk_in(&w, rng, false);
        let o = parse(&i.toks);
        r.eval(&format!("{}{:?}{}", s.c.serialized, unit, reps));
        r.add("chained_tokens", w.len() as u64);
        let mut bad = vec![];
        if o.result != "ok" || !o.errors.is_empty() {
            bad.push(format!("{} {}", o.result, errs(&o)));
        } else if let Some(TNode::Rule { kids, .. }) = &o.tree {
            let parts: Vec<&TNode> = kids.iter().filter(|k| matches!(k, TNode::Rule { .. })).collect();
            if parts.len() != reps * m {
                bad.push(format!("{} parts, {} expected", parts.len(), reps * m));
            }
            let mut base = 0;
            for (k, p) in parts.iter().enumerate() {
                let t = &tiles[unit[k % m]];
                let got = rel(p, base);
                if got != t.1 {
                    bad.push(format!("part {} of {} is parsed as {}, alone as {}", k, parts.len(), got, t.1));
                    break;
                }
                base += t.0.len() as isize;
            }
        } else {
            bad.push("no tree".into());
        }
        if round > 0 {
            ops.push(o.stream_ops as i64);
        }
        if round == 3 && ops[2] - ops[1] != ops[1] - ops[0] {
            bad.push(format!("stream operations are not linear in the length: {:?} for n, 2n and 3n = {}", ops, 3 * n));
        }
        if !bad.is_empty() {
            r.violation(format!(
                "{} repetitions of {:?}: {}\n{:?}\n{}",
                reps,
                unit.iter().map(|u| &tiles[*u].0).collect::<Vec<_>>(),
                bad.join("; ").chars().take(1500).collect::<String>(),
                cfg,
                show_grammar(&g)
            ));
            return;
        }
    }
    r.sample(|| format!("{} x {:?}: {}", n, unit.iter().map(|u| &tiles[*u].0).collect::<Vec<_>>(), show_grammar(&g)));
}
