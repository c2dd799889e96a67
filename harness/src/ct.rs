//! Concurrent use: threads which share a grammar's caches get what they get alone.
use std::sync::atomic::AtomicU64;
use std::sync::{Arc, Barrier};

use crate::cl;
use crate::cp::{self, *};
use crate::gram::*;
use crate::interp::{self, Cfg, Mode};
use crate::lex;
use crate::out::*;
use crate::rep::{hash, Rep};
use crate::rng::{mix, Rng};

/// runs f(thread, Rng) in n threads at once; returns the results and the observed interleaving
fn together<T: Send>(n: usize, seed: u64, f: impl Fn(usize, &mut Rng) -> T + Sync) -> (Vec<T>, String) {
    let counter = Arc::new(AtomicU64::new(0));
    let bar = Barrier::new(n);
    let mut all: Vec<(T, Vec<u64>)> = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (f, bar, counter) = (&f, &bar, counter.clone());
                std::thread::Builder::new()
                    .stack_size(128 << 20)
                    .spawn_scoped(sc, move || {
                        let mut rng = Rng::new(mix(seed, 1000 + t as u64));
                        SCHED.with(|s| {
                            *s.borrow_mut() = Some(Sched { rng: Rng::new(mix(seed, t as u64)), counter, tickets: vec![] })
                        });
                        bar.wait();
                        let v = f(t, &mut rng);
                        let s = SCHED.with(|s| s.borrow_mut().take().unwrap());
                        (v, s.tickets)
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(x) => all.push(x),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
    });
    let mut order: Vec<(u64, usize)> = all.iter().enumerate().flat_map(|(t, x)| x.1.iter().map(move |k| (*k, t))).collect();
    order.sort();
    let trace: String = order.iter().map(|x| (b'a' + x.1 as u8) as char).collect();
    (all.into_iter().map(|x| x.0).collect(), trace)
}
fn switches(t: &str) -> u64 {
    t.as_bytes().windows(2).filter(|w| w[0] != w[1]).count() as u64
}
const THREADS: usize = 4;

pub fn x01(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    if rng.chance(1, 3) {
        lexers(seed, &mut rng, r)
    } else {
        parsers(seed, &mut rng, r)
    }
}
fn parsers(seed: u64, rng: &mut Rng, r: &mut Rep) {
    let k = pick_kind(rng);
    let has_preds = matches!(k, Kind::Preds);
    let g = grammar(rng, &k);
    let s = session(&g);
    let mut runs = vec![];
    for _ in 0..4 {
        if let Some((i, pv)) = any_input(&g, &s, rng, r) {
            let mode = if has_preds { Mode::Ll } else { [Mode::Sll, Mode::Ll, Mode::Ll, Mode::Exact][rng.below(4)] };
            let bail = rng.chance(1, 6);
            runs.push((i, Cfg { preds: pv, mode, bail, listeners: 1, ..Default::default() }));
        }
    }
    if runs.is_empty() {
        return;
    }
    let alone: Vec<Outcome> = runs.iter().map(|(i, cfg)| interp::common::parse_tokens(&interp::load(&s.c), &i.toks, cfg)).collect();
    // nothing is initialised yet, not even what belongs to the network
    let shared = interp::load(&s.c);
    let rounds = 2;
    let (res, trace) = together(THREADS, seed, |_, rng| {
        let mut out = vec![];
        for _ in 0..rounds {
            let mut ord: Vec<usize> = (0..runs.len()).collect();
            rng.shuffle(&mut ord);
            for k in ord {
                let (i, cfg) = &runs[k];
                let o = interp::common::parse_tokens(&shared, &i.toks, cfg);
                if let Some(d) = cp::same(&alone[k], &o) {
                    if cp::excused(&s, i, &alone[k], &o, &mut Rep::default()) {
                        continue;
                    }
                    return Err((k, d));
                }
                out.push(o.errors.len());
            }
        }
        Ok(out)
    });
    r.eval(&format!("{}{}", s.c.serialized, trace));
    r.add("thread_switches_observed", switches(&trace));
    r.distinct.insert(hash(&trace));
    r.add("shared_cache_states", shared.dfa_states() as u64);
    for (t, x) in res.into_iter().enumerate() {
        match x {
            Ok(v) => r.add("concurrent_parses", v.len() as u64),
            Err((k, d)) => {
                r.violation(format!(
                    "thread {} of {}: alone / together with others differ: {}\n{}",
                    t,
                    THREADS,
                    d,
                    show_case(&s.c, &runs[k].0, &runs[k].1.preds)
                ));
                return;
            }
        }
    }
    // and the caches they leave behind are good
    for (k, (i, cfg)) in runs.iter().enumerate() {
        let o = interp::common::parse_tokens(&shared, &i.toks, cfg);
        r.one("parses_on_caches_left_behind");
        if let Some(d) = cp::same(&alone[k], &o) {
            if cp::excused(&s, i, &alone[k], &o, r) {
                continue;
            }
            r.violation(format!("afterwards, on the caches left by {} threads: {}\n{}", THREADS, d, show_case(&s.c, i, &cfg.preds)));
            return;
        }
    }
    r.sample(|| format!("interleaving {}..., {}", &trace[..trace.len().min(60)], show_grammar(&g)));
}
fn lexers(seed: u64, rng: &mut Rng, r: &mut Rep) {
    let o = cl::opts(rng);
    let case = lex::gen(rng, &o);
    let mut runs: Vec<(Vec<i32>, cl::SK, lex::LexCase)> = vec![];
    for _ in 0..5 {
        let input = lex::gen_input(rng, &case, o.max_cp);
        let k = cl::pick_kind(rng, &input);
        let mut case = case.clone();
        case.mask = rng.next();
        if lex::Model::new(&case, &input).lex(&cl::units(k, &input), cl::LIMIT).is_some() {
            runs.push((input, k, case));
        }
    }
    if runs.is_empty() {
        return;
    }
    let alone: Vec<_> = runs.iter().map(|(i, k, c)| cl::go(&interp::load(&c.c), *k, i, c, cl::LIMIT)).collect();
    let shared = interp::load(&case.c);
    let (res, trace) = together(THREADS, seed, |_, rng| {
        let mut n = 0;
        for _ in 0..2 {
            let mut ord: Vec<usize> = (0..runs.len()).collect();
            rng.shuffle(&mut ord);
            for j in ord {
                let (i, k, c) = &runs[j];
                let got = cl::go(&shared, *k, i, c, cl::LIMIT);
                sched_point();
                if let Some(d) = cl::diff(&alone[j], &got) {
                    return Err((j, d));
                }
                n += 1;
            }
        }
        Ok(n)
    });
    r.eval(&format!("{}{}", case.c.serialized, trace));
    r.add("thread_switches_observed", switches(&trace));
    r.add("shared_cache_states", shared.dfa_states() as u64);
    for (t, x) in res.into_iter().enumerate() {
        match x {
            Ok(n) => r.add("concurrent_lexings", n),
            Err((j, d)) => {
                r.violation(format!(
                    "lexer thread {}: alone / together with others differ: {}\n{}",
                    t,
                    d,
                    cl::show_lex(&runs[j].2, &runs[j].0)
                ));
                return;
            }
        }
    }
    for (j, (i, k, c)) in runs.iter().enumerate() {
        if let Some(d) = cl::diff(&alone[j], &cl::go(&shared, *k, i, c, cl::LIMIT)) {
            r.violation(format!("afterwards, on the caches left behind: {}\n{}", d, cl::show_lex(c, i)));
            return;
        }
    }
}
