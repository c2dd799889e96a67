//! Cross-cutting checks: the outcome of a parse does not depend on the token stream, the token
//! factory, the encoding of the text, or on what other threads do.
use std::sync::Arc;

use antlr_rust::token_factory::{ArenaCommonFactory, CommonTokenFactory, OwningTokenFactory};
use antlr_rust::InputStream;

use crate::cp::*;
use crate::gen;
use crate::gram::*;
use crate::interp::{self, Cfg, Mode, Shared};
use crate::lex;
use crate::out::*;
use crate::rep::Rep;
use crate::rng::Rng;

/// letters which stand for token types in texts
const LETTERS: [u32; 19] = [
    0x61, 0x62, 0x3b1, 0x4e00, 0x1d6fc, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x63, 0x64, 0x65, 0xe9, 0xff, 0x100, 0xe000,
];
/// lexer grammar with one rule per token type; blanks are hidden, `#...#` is skipped
pub fn lexer_for(max_tok: i32, rng: &mut Rng, cap: u32) -> (lex::LexCase, Vec<char>) {
    let mut letters: Vec<char> = LETTERS.iter().filter(|c| **c <= cap).map(|c| char::from_u32(*c).unwrap()).collect();
    // (enough in every encoding)
    letters.extend(('A'..='Z').chain('f'..='z').chain('<'..='@'));
    rng.shuffle(&mut letters);
    letters.truncate(max_tok as usize);
    assert!(letters.len() == max_tok as usize);
    let mut rules = vec![];
    for (i, c) in letters.iter().enumerate() {
        let digits = vec![vec![El::Range('0' as i32, '9' as i32)]];
        let mut r = RuleDef::new(&format!("T{}", i + 1), vec![vec![El::Tok(*c as i32), El::Star(digits, true)]]);
        r.ttype = i as i32 + 1;
        rules.push(r);
    }
    let mut r = RuleDef::new("WS", vec![vec![El::Plus(vec![vec![El::Set(vec![(9, 10), (13, 13), (32, 32)])]], true), El::Act(0)]]);
    r.ttype = max_tok + 1;
    rules.push(r);
    let mut r = RuleDef::new("SKIP", vec![vec![El::Tok('#' as i32), El::Star(vec![vec![El::Wild]], false), El::Tok('#' as i32), El::Act(1)]]);
    r.ttype = max_tok + 2;
    rules.push(r);
    let g = Grammar { is_lexer: true, rules, max_tok: max_tok + 2, modes: 1, lex_actions: vec![LexAct::Channel(1), LexAct::Skip] };
    (lex::LexCase { c: Arc::new(compile(&g)), custom: vec![], mask: 0, emit_hook: 0 }, letters)
}
/// text for a sequence of token types, and the tokens (with character positions) it consists of
pub fn text_for(on: &[i32], letters: &[char], rng: &mut Rng, noise: bool) -> (String, Vec<TokSpec>) {
    let mut s = String::new();
    let mut toks: Vec<TokSpec> = vec![];
    let (mut line, mut col, mut pos) = (1isize, 0isize, 0isize);
    let mut put = |s: &mut String, t: &str, spec: Option<(i32, isize)>, toks: &mut Vec<TokSpec>| {
        let n = t.chars().count() as isize;
        if let Some((ty, ch)) = spec {
            toks.push(TokSpec { ty, ch, text: t.to_string(), start: pos, stop: pos + n - 1, line, col });
        }
        for c in t.chars() {
            if c == '\n' {
                line += 1;
                col = 0;
            } else {
                col += 1;
            }
        }
        pos += n;
        s.push_str(t);
    };
    let ws = letters.len() as i32 + 1;
    for t in on {
        let mut last = 0;
        while rng.chance(1, 3) {
            match rng.below(if noise { 5 } else { 4 }) {
                0 | 1 if last != 1 => {
                    let w = *rng.pick(&[" ", "\n", "\t", "\r\n", "  ", "\n\n "]);
                    put(&mut s, w, Some((ws, 1)), &mut toks);
                    last = 1;
                }
                2 => {
                    put(&mut s, *rng.pick(&["##", "#é\n#", "#a1 #"]), None, &mut toks);
                    last = 2;
                }
                4 => {
                    put(&mut s, "!", None, &mut toks);
                    last = 3;
                }
                _ => {}
            }
        }
        if *t > 0 {
            let mut w = letters[*t as usize - 1].to_string();
            while rng.chance(1, 4) {
                w.push((b'0' + rng.below(10) as u8) as char);
            }
            put(&mut s, &w, Some((*t, 0)), &mut toks);
        }
    }
    (s, toks)
}

/// S03: streams, factories and encodings do not matter
pub fn s03(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let k = pick_kind(&mut rng);
    let g = grammar(&mut rng, &k);
    let s = session(&g);
    let cap = *rng.pick(&[0x10ffff, 0x10ffff, 0xffff]);
    let (lc, letters) = lexer_for(g.max_tok.max(1), &mut rng, cap);
    let lsh = interp::load(&lc.c);
    for _ in 0..4 {
        let tys: Vec<i32> = gen::input(&g, &mut rng, 12).into_iter().filter(|t| *t > 0 && *t <= g.max_tok).collect();
        let pv = preds(&mut rng);
        let mut i = mk_in(&tys, &mut rng, false);
        if !cheap(&s.f, &i, &pv) {
            r.one("skipped_too_ambiguous");
            continue;
        }
        let mode = if matches!(k, Kind::Preds) { Mode::Ll } else { *rng.pick(&[Mode::Ll, Mode::Ll, Mode::Sll, Mode::Exact]) };
        let cfg = Cfg {
            preds: pv.clone(),
            mode,
            bail: rng.chance(1, 5),
            listeners: rng.below(3),
            labels: rng.chance(1, 3),
            build_tree: rng.chance(5, 6),
            ..Default::default()
        };
        r.eval(&format!("{}{:?}", s.c.serialized, i.on));
        let a = interp::common::parse_tokens(&s.sh, &i.toks, &cfg);
        let mut all = vec![];
        for st in 0..3u8 {
            let c2 = Cfg { stream: st, ..cfg.clone() };
            if st > 0 {
                all.push((format!("stream {}", st), interp::common::parse_tokens(&s.sh, &i.toks, &c2)));
            }
            all.push((format!("owning tokens, stream {}", st), interp::owning::parse_tokens(&s.sh, &i.toks, &c2)));
            all.push((format!("arena tokens, stream {}", st), interp::arena::parse_tokens(&s.sh, &i.toks, &c2)));
        }
        for (n, o) in &all {
            r.one("streams_and_factories_compared");
            if let Some(d) = same(&a, o) {
                if excused(&s, &i, &a, o, r) {
                    continue;
                }
                r.violation(format!(
                    "CommonTokenStream with CommonTokenFactory / {} differ: {}\n{:?}\n{}",
                    n,
                    d,
                    cfg,
                    show_case(&s.c, &i, &pv)
                ));
                return;
            }
        }
        if !a.errors.is_empty() {
            r.one("parses_with_errors");
        }
        // the whole way from the text
        let mut on = tys.clone();
        on.push(-1);
        let noise = rng.chance(1, 4);
        let (text, toks) = text_for(&on, &letters, &mut rng, noise);
        i.toks = toks;
        i.map = i.toks.iter().enumerate().filter(|t| t.1.ch == 0).map(|t| t.0 as isize).collect();
        i.map.push(i.toks.len() as isize);
        // position of EOF
        let eof_line = 1 + text.matches('\n').count() as isize;
        let eof_col = text.rsplit('\n').next().unwrap().chars().count() as isize;
        let mut a = interp::common::parse_tokens_eof(&s.sh, &i.toks, &cfg, (text.chars().count() as isize, eof_line, eof_col));
        let v32: Vec<u32> = text.chars().map(|c| c as u32).collect();
        let v16: Vec<u16> = v32.iter().map(|c| *c as u16).collect();
        let mut all: Vec<(&str, Outcome)> = vec![];
        macro_rules! way {
            ($n:expr, $m:ident, $f:expr, $in:expr) => {{
                let f = $f;
                let src = lex::source(&lsh, $in, &f, &lc);
                all.push(($n, interp::$m::parse_source(&s.sh, interp::$m::DynSrc(Box::new(src)), &cfg)));
            }};
        }
        way!("str, common tokens", common, CommonTokenFactory, InputStream::new(&text[..]));
        way!("str, owning tokens", owning, OwningTokenFactory, InputStream::new(&text[..]));
        way!("str, arena tokens", arena, ArenaCommonFactory::default(), InputStream::new(&text[..]));
        way!("u32, common tokens", common, CommonTokenFactory, InputStream::new(&v32[..]));
        way!("u32, owning tokens", owning, OwningTokenFactory, InputStream::new(&v32[..]));
        way!("Box<str>, common tokens", common, CommonTokenFactory, InputStream::new_owned(text.clone().into_boxed_str()));
        if cap <= 0xffff {
            way!("u16, arena tokens", arena, ArenaCommonFactory::default(), InputStream::new(&v16[..]));
        }
        // debug output with indexes, which depend on the encoding
        a.inner_error = Default::default();
        for (n, o) in all.iter_mut() {
            o.inner_error = Default::default();
            r.one("encodings_compared");
            if let Some(d) = same(&a, &*o) {
                if excused(&s, &i, &a, o, r) {
                    continue;
                }
                r.violation(format!(
                    "parse of a token list / of the text it comes from ({}) differ: {}\ntext {:?}\n{:?}\n{}",
                    n,
                    d,
                    text,
                    cfg,
                    show_case(&s.c, &i, &pv)
                ));
                return;
            }
        }
        r.sample(|| format!("{} variants of parsing {:?}; {}", all.len(), text, show_case(&s.c, &i, &pv)));
    }
}
#[allow(dead_code)]
fn unused(_: &Shared) {}
