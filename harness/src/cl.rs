//! Lexer checks.
use antlr_rust::token_factory::{ArenaCommonFactory, ArenaOwningFactory, CommonTokenFactory, OwningTokenFactory};
use antlr_rust::InputStream;

use crate::gram::{show_grammar, El};
use crate::interp::{self, Shared};
use crate::lex::*;
use crate::rep::Rep;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SK {
    Str,
    StrOwning,
    U32,
    U32Owning,
    U16,
    U8,
    Boxed,
    BoxedOwning,
    ArenaCommon,
    ArenaOwning,
}
pub const KINDS: [SK; 10] = [
    SK::Str,
    SK::StrOwning,
    SK::U32,
    SK::U32Owning,
    SK::U16,
    SK::U8,
    SK::Boxed,
    SK::BoxedOwning,
    SK::ArenaCommon,
    SK::ArenaOwning,
];
pub fn fits(k: SK, input: &[i32]) -> bool {
    let m = input.iter().copied().max().unwrap_or(0);
    match k {
        SK::U16 => m <= 0xFFFF,
        SK::U8 => m <= 0xFF,
        _ => true,
    }
}
/// stream index of every character
pub fn units(k: SK, input: &[i32]) -> Vec<isize> {
    match k {
        SK::U32 | SK::U32Owning | SK::U16 | SK::U8 => (0..=input.len() as isize).collect(),
        _ => {
            let mut v = vec![0];
            for c in input {
                v.push(v.last().unwrap() + char::from_u32(*c as u32).unwrap().len_utf8() as isize);
            }
            v
        }
    }
}
pub fn go(sh: &Shared, k: SK, input: &[i32], case: &LexCase, limit: usize) -> Vec<LEv> {
    let s: String = input.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect();
    let v32: Vec<u32> = input.iter().map(|c| *c as u32).collect();
    let v16: Vec<u16> = input.iter().map(|c| *c as u16).collect();
    let v8: Vec<u8> = input.iter().map(|c| *c as u8).collect();
    match k {
        SK::Str => run(sh, InputStream::new(s.as_str()), &CommonTokenFactory, case, limit),
        SK::StrOwning => run(sh, InputStream::new(s.as_str()), &OwningTokenFactory, case, limit),
        SK::U32 => run(sh, InputStream::new(&v32[..]), &CommonTokenFactory, case, limit),
        SK::U32Owning => run(sh, InputStream::new(&v32[..]), &OwningTokenFactory, case, limit),
        SK::U16 => run(sh, InputStream::new(&v16[..]), &CommonTokenFactory, case, limit),
        SK::U8 => run(sh, InputStream::new(&v8[..]), &CommonTokenFactory, case, limit),
        SK::Boxed => run(sh, InputStream::new_owned(s.into_boxed_str()), &CommonTokenFactory, case, limit),
        SK::BoxedOwning => run(sh, InputStream::new_owned(s.into_boxed_str()), &OwningTokenFactory, case, limit),
        SK::ArenaCommon => {
            let tf = ArenaCommonFactory::default();
            run(sh, InputStream::new(s.as_str()), &tf, case, limit)
        }
        SK::ArenaOwning => {
            let tf = ArenaOwningFactory::default();
            run(sh, InputStream::new(s.as_str()), &tf, case, limit)
        }
    }
}
pub const LIMIT: usize = 400;

pub fn show_text(input: &[i32]) -> String {
    let s: String = input.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect();
    format!("{:?}", s)
}
pub fn show_lex(case: &LexCase, input: &[i32]) -> String {
    let mut d = String::new();
    if std::env::var("VH_DUMP").is_ok() {
        d = format!(
            "DUMP\t{:?}\t{:?}\t{:?}\t{:?}\t{}\t{}\t{}\n",
            case.c.g.rules, case.c.g.lex_actions, case.custom, input, case.mask, case.emit_hook, case.c.g.modes
        );
    }
    format!(
        "{}grammar:\n{}custom actions: {:?}, predicate mask {:#x}, emit hook {}\ninput: {}",
        d,
        show_grammar(&case.c.g),
        case.custom,
        case.mask,
        case.emit_hook,
        show_text(input)
    )
}
pub fn diff(want: &[LEv], got: &[LEv]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Some(format!("event #{}: expected {:?}\n            observed {:?}", i, want.get(i), got.get(i)))
}
pub fn opts(rng: &mut Rng) -> LOpts {
    LOpts {
        nongreedy: rng.chance(1, 2),
        cmds: rng.chance(2, 3),
        customs: rng.chance(1, 2),
        preds: rng.chance(1, 4),
        skip_more: rng.chance(2, 3),
        max_cp: *rng.pick(&[0x10ffff, 0x10ffff, 0xffff, 0xff]),
        emit: rng.chance(1, 3),
    }
}
pub fn pick_kind(rng: &mut Rng, input: &[i32]) -> SK {
    loop {
        let k = *rng.pick(&KINDS);
        if fits(k, input) {
            return k;
        }
    }
}
fn tally(r: &mut Rep, ev: &[LEv]) {
    for e in ev {
        match e {
            LEv::Tok { .. } => r.one("tokens"),
            LEv::Err { .. } => r.one("lexer_errors"),
            LEv::Act { .. } => r.one("actions_run"),
            LEv::Emit { .. } => r.one("emits"),
            LEv::Stuck => r.one("stuck"),
        }
    }
}

/// L01: longest match, first rule; non greedy subrules as documented
pub fn l01(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let o = LOpts {
        nongreedy: rng.chance(1, 2),
        preds: rng.chance(1, 4),
        max_cp: *rng.pick(&[0x10ffff, 0x10ffff, 0xffff, 0xff]),
        ..Default::default()
    };
    let case = gen(&mut rng, &o);
    let sh = interp::load(&case.c);
    for _ in 0..6 {
        let input = gen_input(&mut rng, &case, o.max_cp);
        let k = pick_kind(&mut rng, &input);
        let u = units(k, &input);
        let mut m = Model::new(&case, &input);
        let want = match m.lex(&u, LIMIT) {
            Some(w) => w,
            None => {
                r.one("reference_gave_up");
                continue;
            }
        };
        let got = go(&sh, k, &input, &case, LIMIT);
        r.eval(&format!("{}{:?}", case.c.serialized, input));
        r.add("nongreedy_prunings", m.ng_skips as u64);
        r.add("predicates_evaluated", m.preds as u64);
        r.add("recursive_fragment_depth>2", (m.max_stack > 2) as u64);
        tally(r, &got);
        if let Some(d) = diff(&want, &got) {
            r.violation(format!("tokens differ from the reference ({:?})\n{}\n{}", k, d, show_lex(&case, &input)));
            return;
        }
        if !o.nongreedy && !o.preds {
            // declarative: maximal munch, ties go to the first rule
            let mut e = Ends::new(&case.c.g, &input);
            let n = input.len();
            for t in &got {
                if let LEv::Tok { ty, start, stop, .. } = t {
                    if *ty < 1 {
                        continue;
                    }
                    let s = u.iter().position(|x| x == start).unwrap();
                    let mut best: Option<(usize, i32)> = None;
                    for (i, ru) in case.c.g.rules.iter().enumerate() {
                        if ru.fragment {
                            continue;
                        }
                        if let Some(x) = e.rule(i, s).into_iter().max() {
                            if best.map_or(true, |b| x > b.0) {
                                best = Some((x, ru.ttype));
                            }
                        }
                    }
                    r.one("maximal_munch_judged");
                    let b = best.map(|b| (b.0.min(n), b.1 as isize));
                    let g = u.iter().position(|x| *x == stop + 1).map(|p| (p, *ty));
                    if b != g {
                        r.violation(format!(
                            "longest match at {} is (end, type) {:?}, the lexer took {:?}\n{}",
                            s,
                            b,
                            g,
                            show_lex(&case, &input)
                        ));
                        return;
                    }
                }
            }
            // an error is only reported where no rule matches
            for t in &got {
                if let LEv::Err { start, .. } = t {
                    let s = u.iter().position(|x| x == start).unwrap();
                    r.one("errors_judged");
                    if let Some(ru) = (0..case.c.g.rules.len()).find(|i| !case.c.g.rules[*i].fragment && !e.rule(*i, s).is_empty()) {
                        r.violation(format!("error at {} although rule {} matches there\n{}", s, ru, show_lex(&case, &input)));
                        return;
                    }
                }
            }
        }
        r.sample(|| format!("{} -> {} events", show_lex(&case, &input), got.len()));
    }
}

/// L02: tokens and error chunks partition the input, positions are right. No reference lexer.
pub fn l02(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let mut o = opts(&mut rng);
    o.emit = false;
    o.customs = false;
    let mut case = gen(&mut rng, &o);
    case.emit_hook = 0;
    // no skip: everything must then show up
    let mut g = case.c.g.clone();
    for a in g.lex_actions.iter_mut() {
        if matches!(a, crate::gram::LexAct::Skip | crate::gram::LexAct::Type(-1)) {
            *a = crate::gram::LexAct::Channel(9);
        }
    }
    let longer = rng.chance(1, 3);
    case.c = std::sync::Arc::new(crate::gram::compile(&g));
    let eof_only = g.rules.iter().any(|x| x.alts.iter().any(|a| a.iter().any(|e| matches!(e, El::Tok(-1)))));
    let sh = interp::load(&case.c);
    for _ in 0..6 {
        let mut input = gen_input(&mut rng, &case, o.max_cp);
        if longer {
            for _ in 0..10 {
                let x = gen_input(&mut rng, &case, o.max_cp);
                input.extend(x);
            }
        }
        let k = pick_kind(&mut rng, &input);
        let u = units(k, &input);
        let lc = line_cols(&input);
        // only to leave out grammars which blow up exponentially
        if Model::new(&case, &input).lex(&u, 6 * input.len() + 40).is_none() {
            r.one("too_expensive");
            continue;
        }
        let got = go(&sh, k, &input, &case, 6 * input.len() + 40);
        r.eval(&format!("{}{:?}", case.c.serialized, input));
        tally(r, &got);
        let n = input.len();
        let mut pos = 0usize;
        let mut bad = String::new();
        let txt = |a: usize, b: usize| -> String { input[a..b].iter().map(|c| char::from_u32(*c as u32).unwrap()).collect() };
        let mut eof = 0;
        for e in &got {
            match e {
                LEv::Tok { ty, start, stop, line, col, text, .. } => {
                    if *start != u[pos] {
                        bad = format!("token starts at {}, the previous one ended before {}", start, u[pos]);
                        break;
                    }
                    let q = match u.iter().position(|x| *x == stop + 1) {
                        Some(q) => q,
                        None => {
                            bad = format!("token ends at {}, inside of a character", stop);
                            break;
                        }
                    };
                    if (*line, *col) != lc[pos] {
                        bad = format!("token at {} claims line/column {}:{}, it is {:?}", start, line, col, lc[pos]);
                        break;
                    }
                    if *ty == -1 {
                        eof += 1;
                        if q != n || (eof == 2 && pos != n) {
                            bad = "EOF before the end of the input".into();
                            break;
                        }
                        if text != "<EOF>" {
                            bad = format!("EOF has text {:?}", text);
                            break;
                        }
                    } else if q <= pos && !(eof_only && pos == n) {
                        bad = format!("empty or negative token {}..{}", start, stop);
                        break;
                    } else if pos < n && *text != txt(pos, q) {
                        bad = format!("text {:?} is not the input at {}..{}", text, start, stop);
                        break;
                    }
                    pos = q;
                }
                LEv::Err { line, col, msg, .. } => {
                    let m = "token recognition error at: '";
                    if !msg.starts_with(m) || !msg.ends_with('\'') {
                        bad = format!("message {:?}", msg);
                        break;
                    }
                    let t = &msg[m.len()..msg.len() - 1];
                    let q = pos + t.chars().count();
                    if q > n || txt(pos, q) != t || t.is_empty() {
                        bad = format!("error chunk {:?} is not the input at {}", t, u[pos]);
                        break;
                    }
                    if (*line, *col) != lc[pos] {
                        bad = format!("error chunk at {} claims line/column {}:{}, it is {:?}", u[pos], line, col, lc[pos]);
                        break;
                    }
                    pos = q;
                }
                LEv::Stuck => {
                    bad = "lexer makes no progress".into();
                    break;
                }
                _ => {}
            }
        }
        if bad.is_empty() && (pos != n || eof != 2) {
            bad = format!("{} of {} characters covered", pos, n);
        }
        if !bad.is_empty() {
            r.violation(format!("{} ({:?})\nevents {:?}\n{}", bad, k, got, show_lex(&case, &input)));
            return;
        }
        r.add("characters_covered", n as u64);
        r.sample(|| show_lex(&case, &input));
    }
}

/// L03: commands, modes, embedded actions and predicates
pub fn l03(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let mut o = opts(&mut rng);
    o.cmds |= !o.customs;
    let case = gen(&mut rng, &o);
    let sh = interp::load(&case.c);
    for _ in 0..6 {
        let input = gen_input(&mut rng, &case, o.max_cp);
        let k = pick_kind(&mut rng, &input);
        let u = units(k, &input);
        let mut m = Model::new(&case, &input);
        let want = match m.lex(&u, LIMIT) {
            Some(w) => w,
            None => {
                r.one("reference_gave_up");
                continue;
            }
        };
        let got = go(&sh, k, &input, &case, LIMIT);
        r.eval(&format!("{}{:?}", case.c.serialized, input));
        tally(r, &got);
        r.add("predicates_evaluated", m.preds as u64);
        for e in &got {
            if let LEv::Tok { mode, stack, ch, .. } = e {
                r.add("tokens_in_other_modes", (*mode > 0) as u64);
                r.add("tokens_with_mode_stack", (!stack.is_empty()) as u64);
                r.add("tokens_on_other_channels", (*ch > 0) as u64);
            }
        }
        if let Some(d) = diff(&want, &got) {
            r.violation(format!("events differ from the reference ({:?})\n{}\n{}", k, d, show_lex(&case, &input)));
            return;
        }
        r.sample(|| show_lex(&case, &input));
    }
}

/// L04: shared DFA caches never change what a lexer does. No reference lexer: cold run is the oracle.
pub fn l04(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let o = opts(&mut rng);
    let mut case = gen(&mut rng, &o);
    let sh = interp::load(&case.c);
    let mut hist: Vec<(Vec<i32>, SK, u64)> = vec![];
    for i in 0..10 {
        let (input, k, mask) = if i > 4 && rng.chance(1, 3) {
            rng.pick(&hist).clone()
        } else {
            let input = gen_input(&mut rng, &case, o.max_cp);
            let k = pick_kind(&mut rng, &input);
            (input, k, rng.next())
        };
        hist.push((input.clone(), k, mask));
        case.mask = mask;
        if Model::new(&case, &input).lex(&units(k, &input), LIMIT).is_none() {
            r.one("too_expensive");
            continue;
        }
        let before = sh.dfa_states();
        let warm = go(&sh, k, &input, &case, LIMIT);
        let cold = go(&sh.fresh(), k, &input, &case, LIMIT);
        r.eval(&format!("{}{:?}{}", case.c.serialized, input, i));
        r.add("cached_states", before as u64);
        r.add("new_states", (sh.dfa_states() - before) as u64);
        tally(r, &warm);
        if let Some(d) = diff(&cold, &warm) {
            r.violation(format!(
                "run #{} with shared caches differs from a run with empty caches ({:?})\n{}\n{}\nhistory {:?}",
                i,
                k,
                d,
                show_lex(&case, &input),
                hist.iter().map(|h| show_text(&h.0)).collect::<Vec<_>>()
            ));
            return;
        }
        r.sample(|| show_lex(&case, &input));
    }
}
pub fn dump(seed: u64) {
    let mut rng = Rng::new(seed);
    let o = opts(&mut rng);
    let case = gen(&mut rng, &o);
    println!("{}", show_lex(&case, &[]));
}
