//! Memory: everything is given back, caches stop growing; also the workload for the sanitizers.
use crate::alloc::live;
use crate::cl;
use crate::cp::*;
use crate::gen;
use crate::gram::*;
use crate::interp::{self, Cfg, Mode, Shared};
use crate::lex;
use crate::out::*;
use crate::rep::Rep;
use crate::rng::Rng;

fn modes(k: &Kind, rng: &mut Rng) -> Mode {
    if matches!(k, Kind::Preds) {
        Mode::Ll
    } else {
        [Mode::Sll, Mode::Ll, Mode::Ll, Mode::Exact][rng.below(4)]
    }
}
fn cfgs(k: &Kind, rng: &mut Rng, pv: Vec<bool>, hidden: bool) -> Cfg {
    Cfg {
        preds: pv,
        mode: modes(k, rng),
        bail: rng.chance(1, 4),
        listeners: rng.below(3),
        build_tree: rng.chance(4, 5),
        diag_listener: rng.chance(1, 2),
        walk: rng.chance(1, 2),
        stream: if hidden { 0 } else { rng.below(3) as u8 },
        churn: rng.chance(1, 3),
        ..Default::default()
    }
}
fn parse(sh: &Shared, f: usize, i: &In, cfg: &Cfg) -> Outcome {
    match f {
        0 => interp::common::parse_tokens(sh, &i.toks, cfg),
        1 => interp::owning::parse_tokens(sh, &i.toks, cfg),
        _ => interp::arena::parse_tokens(sh, &i.toks, cfg),
    }
}
/// X02: whatever a run allocates is freed once parser, tree, stream and caches are gone
pub fn x02(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    match rng.below(5) {
        0 | 1 => {
            let k = pick_kind(rng);
            let g = grammar(rng, &k);
            let s = session(&g);
            let tys = gen::input(&g, rng, 12);
            let hidden = rng.chance(1, 3);
            let i = mk_in(&tys, rng, hidden);
            let pv = preds(rng);
            if !cheap(&s.f, &i, &pv) {
                return;
            }
            let cfg = cfgs(&k, rng, pv, hidden);
            let f = rng.below(3);
            balance(r, "parse", &mut |r| {
                let sh = interp::load(&s.c);
                let o = parse(&sh, f, &i, &cfg);
                if let Some(r) = r {
                    r.one(if o.errors.is_empty() { "clean_parses" } else { "parses_with_errors" });
                    if o.result != "ok" {
                        r.one("cancelled_parses");
                    }
                }
            }, &|| format!("{} {:?}", show_case(&s.c, &i, &cfg.preds), cfg));
            r.eval(&format!("{}{:?}{:?}", s.c.serialized, i.on, cfg.mode));
            r.sample(|| show_case(&s.c, &i, &cfg.preds));
        }
        2 | 3 => {
            let o = cl::opts(rng);
            let case = lex::gen(rng, &o);
            let input = lex::gen_input(rng, &case, o.max_cp);
            let k = cl::pick_kind(rng, &input);
            if lex::Model::new(&case, &input).lex(&cl::units(k, &input), cl::LIMIT).is_none() {
                return;
            }
            balance(r, "lexing", &mut |r| {
                let sh = interp::load(&case.c);
                let v = cl::go(&sh, k, &input, &case, cl::LIMIT);
                if let Some(r) = r {
                    r.add("lexer_events", v.len() as u64);
                }
            }, &|| cl::show_lex(&case, &input));
            r.eval(&format!("{}{:?}{:?}", case.c.serialized, input, k));
        }
        _ => {
            // streams and trees kept, dropped and used in the workloads of the other checks
            let f: fn(u64, &mut Rep) = *rng.pick(&[
                crate::cs::s01 as fn(u64, &mut Rep),
                crate::cs::s02,
                crate::cx::s03,
                crate::cp::p05,
                crate::cp::p11,
                crate::cd::d01,
                crate::cd::d02,
            ]);
            let sd = rng.next();
            balance(r, "other workload", &mut |_| {
                let mut q = Rep::default();
                f(sd, &mut q);
            }, &|| format!("seed {}", sd));
            r.one("other_workloads");
            r.eval(&format!("{}", sd));
        }
    }
}
fn balance(r: &mut Rep, what: &str, f: &mut dyn FnMut(Option<&mut Rep>), show: &dyn Fn() -> String) {
    // the first run also initialises statics and per thread data
    f(Some(r));
    let mut d = (0, 0);
    for _ in 0..2 {
        let a = live();
        f(None);
        let b = live();
        d = (b.0 - a.0, b.1 - a.1);
        r.one("memory_balances");
        if d == (0, 0) {
            return;
        }
    }
    r.violation(format!("{} bytes in {} blocks are not freed after {}: {}", d.0, d.1, what, show()));
}

/// the workload for the undefined behaviour interpreter: small, every factory, stream and strategy
pub fn x02m(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    match rng.below(7) {
        0..=3 => {
            let k = pick_kind(rng);
            let g = grammar(rng, &k);
            let s = session(&g);
            let tys = gen::input(&g, rng, 6);
            let hidden = rng.chance(1, 3);
            let i = mk_in(&tys, rng, hidden);
            let pv = preds(rng);
            if g.rules.len() > 4 || i.on.len() > 12 || !cheap(&s.f, &i, &pv) {
                return;
            }
            let cfg = Cfg { walk: true, listeners: 2, ..cfgs(&k, rng, pv, hidden) };
            let o = parse(&s.sh, rng.below(3), &i, &cfg);
            r.one(if o.errors.is_empty() { "clean_parses" } else { "parses_with_errors" });
            r.eval(&format!("{}{:?}{:?}", s.c.serialized, i.on, cfg.mode));
            r.sample(|| show_case(&s.c, &i, &cfg.preds));
        }
        4 | 5 => {
            let o = cl::opts(rng);
            let case = lex::gen(rng, &o);
            let mut input = lex::gen_input(rng, &case, o.max_cp);
            input.truncate(10);
            let k = cl::pick_kind(rng, &input);
            let sh = interp::load(&case.c);
            let v = cl::go(&sh, k, &input, &case, 60);
            r.add("lexer_events", v.len() as u64);
            r.eval(&format!("{}{:?}{:?}", case.c.serialized, input, k));
        }
        _ => {
            let f: fn(u64, &mut Rep) = *rng.pick(&[crate::cs::s01 as fn(u64, &mut Rep), crate::cs::s02]);
            let mut q = Rep::default();
            f(rng.next(), &mut q);
            r.one("stream_histories");
            r.eval(&format!("{}", seed));
        }
    }
}

/// X03: repeating inputs adds nothing to the caches
pub fn x03(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    if rng.chance(1, 3) {
        return lexer_caches(rng, r);
    }
    let k = pick_kind(rng);
    let g = grammar(rng, &k);
    let s = session(&g);
    let mut runs = vec![];
    for _ in 0..4 {
        if let Some((i, pv)) = any_input(&g, &s, rng, r) {
            let cfg = Cfg { preds: pv, mode: modes(&k, rng), bail: rng.chance(1, 6), ..Default::default() };
            runs.push((i, cfg));
        }
    }
    let sh = interp::load(&s.c);
    let mut sizes = vec![];
    for _ in 0..4 {
        let a = live();
        let mut ord: Vec<usize> = (0..runs.len()).collect();
        rng.shuffle(&mut ord);
        for n in ord.iter() {
            parse(&sh, 0, &runs[*n].0, &runs[*n].1);
        }
        drop(ord);
        let b = live();
        sizes.push((sh.dfa_states(), sh.cache_len(), b.0 - a.0));
    }
    r.eval(&format!("{}{:?}", s.c.serialized, runs.iter().map(|x| &x.0.on).collect::<Vec<_>>()));
    r.add("cached_states", sizes[0].0 as u64);
    r.add("cached_contexts", sizes[0].1 as u64);
    r.one("parser_caches");
    r.sample(|| format!("(states, contexts, bytes gained) per round {:?}, {}", sizes, show_grammar(&g)));
    // hash tables may still be grown in the second round
    let bad = sizes[3].0 != sizes[1].0 || sizes[3].1 != sizes[1].1 || sizes[3].2 > 0 && sizes[2].2 > 0;
    if bad || sizes[1].0 != sizes[0].0 || sizes[1].1 != sizes[0].1 {
        r.violation(format!(
            "caches grow although the inputs repeat: (states, contexts, bytes gained) per round {:?}\n{}\n{}",
            sizes,
            show_grammar(&g),
            runs.iter().map(|x| format!("{:?} {:?}", x.0.on, x.1)).collect::<Vec<_>>().join("\n")
        ));
    }
}
fn lexer_caches(rng: &mut Rng, r: &mut Rep) {
    let o = cl::opts(rng);
    let case = lex::gen(rng, &o);
    let mut runs = vec![];
    for _ in 0..4 {
        let input = lex::gen_input(rng, &case, o.max_cp);
        let k = cl::pick_kind(rng, &input);
        if lex::Model::new(&case, &input).lex(&cl::units(k, &input), cl::LIMIT).is_some() {
            runs.push((input, k));
        }
    }
    let sh = interp::load(&case.c);
    let mut sizes = vec![];
    for _ in 0..4 {
        let a = live();
        for (i, k) in &runs {
            cl::go(&sh, *k, i, &case, cl::LIMIT);
        }
        let b = live();
        sizes.push((sh.dfa_states(), sh.cache_len(), b.0 - a.0));
    }
    r.eval(&format!("{}{:?}", case.c.serialized, runs));
    r.add("cached_states", sizes[0].0 as u64);
    r.one("lexer_caches");
    if sizes[1].0 != sizes[0].0 || sizes[3].0 != sizes[0].0 || sizes[3].1 != sizes[0].1 || sizes[3].2 > 0 && sizes[2].2 > 0 {
        r.violation(format!(
            "lexer caches grow although the texts repeat: (states, contexts, bytes gained) per round {:?}\n{}",
            sizes,
            runs.iter().map(|x| cl::show_lex(&case, &x.0)).collect::<Vec<_>>().join("\n")
        ));
    }
}
