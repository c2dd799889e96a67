//! Checks of character streams and token streams against simple models.
use std::borrow::{Borrow, Cow};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use antlr_rust::char_stream::{CharStream, InputData};
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::{IntStream, IterWrapper, EOF};
use antlr_rust::token::Token;
use antlr_rust::token_factory::*;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::{InputStream, TokenSource};

use crate::rep::Rep;
use crate::rng::Rng;

// ------------------------------------------------------------------ character streams
fn rand_cp(rng: &mut Rng, max: u32) -> u32 {
    loop {
        let c = match rng.below(8) {
            0..=2 => b'a' as u32 + rng.below(6) as u32,
            3 => rng.below(0x80) as u32,
            4 => 0x80 + rng.below(0x780) as u32,
            5 => *rng.pick(&[0u32, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff]),
            6 => 0x800 + rng.below(0xf800) as u32,
            _ => 0x10000 + rng.below(0x100000) as u32,
        };
        if c <= max && char::from_u32(c).is_some() {
            return c;
        }
    }
}
/// text of type T as the code points of the original
trait Pts {
    fn pts(&self) -> Vec<u32>;
}
impl Pts for str {
    fn pts(&self) -> Vec<u32> {
        self.chars().map(|c| c as u32).collect()
    }
}
impl Pts for String {
    fn pts(&self) -> Vec<u32> {
        self.as_str().pts()
    }
}
impl<'a> Pts for Cow<'a, str> {
    fn pts(&self) -> Vec<u32> {
        (**self).pts()
    }
}
impl<T: Copy + Into<u32>> Pts for [T] {
    fn pts(&self) -> Vec<u32> {
        self.iter().map(|x| (*x).into()).collect()
    }
}
impl<T: Copy + Into<u32>> Pts for Vec<T> {
    fn pts(&self) -> Vec<u32> {
        self[..].pts()
    }
}
impl<'a, T: Copy + Into<u32>> Pts for Cow<'a, [T]>
where
    [T]: ToOwned,
{
    fn pts(&self) -> Vec<u32> {
        (**self).pts()
    }
}
impl<'a, X: Pts + ?Sized> Pts for &'a X {
    fn pts(&self) -> Vec<u32> {
        (**self).pts()
    }
}

/// drives one stream with random operations. `off` = index of every character (and the end)
fn drive_chars<D: Pts, S: CharStream<D>>(
    s: &mut S,
    cps: &[u32],
    off: &[isize],
    rng: &mut Rng,
    n_ops: usize,
    r: &mut Rep,
    name: &str,
    reset: Option<fn(&mut S)>,
) -> bool {
    let n = cps.len();
    let mut p = 0usize;
    let mut marks: Vec<(isize, usize)> = vec![];
    let mut hist: Vec<String> = vec![];
    macro_rules! bad {
        ($($a:tt)*) => {{
            let h = if hist.len() > 30 { &hist[hist.len() - 30..] } else { &hist[..] };
            r.violation(format!("{}\nstream {} over {:x?} (indexes {:?})\nlast operations {:?}", format!($($a)*), name, cps, off, h));
            return false;
        }};
    }
    for _ in 0..n_ops {
        if s.index() != off[p] {
            bad!("index() is {}, it should be {}", s.index(), off[p]);
        }
        if s.size() != off[n] {
            bad!("size() is {}, it should be {}", s.size(), off[n]);
        }
        match rng.below(12) {
            0..=2 => {
                if p < n {
                    hist.push("consume".into());
                    let a = s.la(1);
                    s.consume();
                    p += 1;
                    if s.la(-1) != a {
                        bad!("la(-1) after consuming {} is {}", a, s.la(-1));
                    }
                    r.one("consumed");
                }
            }
            3 | 4 => {
                let k = 1 + rng.below(6) as isize;
                hist.push(format!("la({})", k));
                let w = cps.get(p + k as usize - 1).map_or(EOF, |c| *c as isize);
                let g = s.la(k);
                r.one("lookaheads");
                if w != g {
                    bad!("la({}) at #{} is {}, it should be {}", k, p, g, w);
                }
            }
            5 => {
                let k = 1 + rng.below(5);
                hist.push(format!("la(-{})", k));
                let g = s.la(-(k as isize));
                r.one("lookbacks");
                let w = if k <= p { cps[p - k] as isize } else { EOF };
                if w != g {
                    bad!("la(-{}) at #{} is {}, it should be {}", k, p, g, w);
                }
            }
            6 => {
                // seek to any position which the stream can report
                let q = rng.below(n + 1);
                hist.push(format!("seek #{}", q));
                s.seek(off[q]);
                p = q;
                r.one("seeks");
            }
            7 => {
                let m = s.mark();
                hist.push(format!("mark -> {}", m));
                marks.push((m, p));
            }
            8 => {
                if let Some((m, q)) = marks.pop() {
                    hist.push(format!("release {}", m));
                    if rng.chance(1, 2) {
                        s.seek(off[q]);
                        p = q;
                    }
                    s.release(m);
                }
            }
            9 => {
                if let Some(f) = reset {
                    if rng.chance(1, 3) {
                        hist.push("reset".into());
                        f(s);
                        p = 0;
                    }
                }
            }
            _ => {
                // text of any interval of whole characters, also empty ones
                let a = rng.below(n + 1);
                let b = a + rng.below(n - a + 1);
                let (x, y) = if a == b {
                    (off[a], off[a] - 1)
                } else if rng.chance(1, 2) {
                    // last index of the last character, as in tokens
                    (off[a], off[b] - 1)
                } else {
                    // first index of the last character
                    (off[a], off[b - 1])
                };
                if a == b && a == n {
                    continue;
                }
                hist.push(format!("get_text({}, {})", x, y));
                let g = s.get_text(x, y).pts();
                r.one("texts");
                if g != cps[a..b] {
                    bad!("get_text({}, {}) is {:x?}, it should be {:x?}", x, y, g, &cps[a..b]);
                }
            }
        }
    }
    // the rest of the stream as an iterator, which stays at the end
    let mut it = IterWrapper(s);
    let mut v = vec![];
    while let Some(x) = it.next() {
        v.push(x as u32);
        if v.len() > n {
            break;
        }
    }
    hist.push("iterate".into());
    if v != cps[p..] {
        bad!("iterating from #{} gives {:x?}", p, v);
    }
    if it.next().is_some() {
        bad!("iterator goes on after its end");
    }
    r.one("iterations");
    if s.la(1) != EOF || s.index() != off[n] {
        bad!("not at the end after iterating");
    }
    true
}

/// S01: character streams
pub fn s01(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let kind = rng.below(9);
    let max = match kind {
        4 => 0xff,
        3 => 0xffff,
        _ => 0x10ffff,
    };
    let n = if rng.chance(1, 10) { rng.below(2) } else { rng.below(30) };
    let cps: Vec<u32> = (0..n).map(|_| rand_cp(&mut rng, max)).collect();
    let s: String = cps.iter().map(|c| char::from_u32(*c).unwrap()).collect();
    let unit: Vec<isize> = (0..=n as isize).collect();
    let mut utf8 = vec![0];
    for c in s.chars() {
        utf8.push(utf8.last().unwrap() + c.len_utf8() as isize);
    }
    let ops = 20 + rng.below(80);
    let v8: Vec<u8> = cps.iter().map(|c| *c as u8).collect();
    let v16: Vec<u16> = cps.iter().map(|c| *c as u16).collect();
    let v32 = cps.clone();
    r.eval(&format!("{}{:?}{}", kind, cps, seed));
    r.sample(|| format!("stream kind {} over {:?}, {} random operations", kind, s, ops));
    macro_rules! go {
        ($e:expr, $D:ty, $off:expr, $name:expr) => {{
            let mut st = $e;
            drive_chars::<$D, _>(&mut st, &cps, $off, &mut rng, ops, r, $name, Some(|x| x.reset()))
        }};
    }
    match kind {
        0 => go!(InputStream::new(&s[..]), Cow<'_, str>, &utf8, "str/Cow"),
        1 => go!(InputStream::new(&s[..]), String, &utf8, "str/String"),
        2 => go!(InputStream::new(&s[..]), &str, &utf8, "str/str"),
        3 => go!(InputStream::new(&v16[..]), Cow<'_, [u16]>, &unit, "u16/Cow"),
        4 => {
            if rng.chance(1, 2) {
                go!(InputStream::new(&v8[..]), &[u8], &unit, "u8/slice")
            } else {
                go!(InputStream::new(&v8[..]), Cow<'_, str>, &unit, "u8/Cow str")
            }
        }
        5 => go!(InputStream::new(&v32[..]), String, &unit, "u32/String"),
        6 => go!(InputStream::new(&v32[..]), Cow<'_, str>, &unit, "u32/Cow str"),
        7 => go!(InputStream::new_owned(s.clone().into_boxed_str()), String, &utf8, "Box str"),
        _ => go!(InputStream::new_owned(v32.clone().into_boxed_slice()), Vec<u32>, &unit, "Box u32"),
    };
    // conversions of the data types
    let d = <str as InputData>::from_text(&s);
    if d.pts() != cps || d.to_display() != s {
        r.violation(format!("str::from_text/to_display change {:?}", s));
    }
    let d = <[u32] as InputData>::from_text(&s);
    if d != cps || d.to_display() != s {
        r.violation(format!("[u32]::from_text/to_display change {:?}", s));
    }
}

// ------------------------------------------------------------------ token streams
#[derive(Clone, Debug)]
pub struct T {
    pub ty: isize,
    pub ch: isize,
    pub text: String,
}
/// token source; counts requests, also the ones after EOF
pub struct Src<'i, TF: TokenFactory<'i>> {
    toks: Rc<Vec<T>>,
    pos: usize,
    tf: &'i TF,
    after_eof: Rc<Cell<usize>>,
    fetched: Rc<Cell<usize>>,
}
impl<'i, TF: TokenFactory<'i, Data = str> + 'i> TokenSource<'i> for Src<'i, TF>
where
    InputStream<Box<str>>: CharStream<TF::From>,
{
    type TF = TF;
    fn next_token(&mut self) -> TF::Tok {
        let i = self.pos.min(self.toks.len() - 1);
        if self.pos >= self.toks.len() {
            self.after_eof.set(self.after_eof.get() + 1);
        }
        self.pos += 1;
        self.fetched.set(self.pos);
        let t = &self.toks[i];
        self.tf.create(
            None::<&mut InputStream<Box<str>>>,
            t.ty,
            Some(t.text.clone()),
            t.ch,
            i as isize,
            i as isize,
            1,
            i as isize,
        )
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "src".into()
    }
    fn get_token_factory(&self) -> &'i TF {
        self.tf
    }
}
struct Mdl {
    toks: Rc<Vec<T>>,
    /// None: all tokens are visible
    channel: Option<isize>,
    p: usize,
}
impl Mdl {
    fn on(&self, i: usize) -> bool {
        self.toks[i].ty == EOF || self.channel.map_or(true, |c| self.toks[i].ch == c)
    }
    fn first(&self) -> usize {
        (0..self.toks.len()).find(|i| self.on(*i)).unwrap()
    }
    fn next(&self, i: usize) -> usize {
        (i + 1..self.toks.len()).find(|i| self.on(*i)).unwrap_or(self.toks.len() - 1)
    }
    fn lt(&self, k: isize) -> Option<usize> {
        if k > 0 {
            let mut i = self.p;
            for _ in 1..k {
                i = self.next(i);
            }
            Some(i)
        } else {
            let mut i = self.p;
            for _ in 0..-k {
                i = (0..i).rev().find(|i| self.on(*i))?;
            }
            Some(i)
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Common,
    Buffered,
    Unbuffered,
}
trait Reset {
    fn do_reset(&mut self);
    fn ints(&mut self) -> Vec<isize>;
    /// types of the tokens an iterator over the tokens delivers
    fn toks(&mut self) -> Option<Vec<(isize, isize, String)>>;
}
impl<'i, S: TokenSource<'i>> Reset for CommonTokenStream<'i, S> {
    fn do_reset(&mut self) {
        self.reset()
    }
    fn ints(&mut self) -> Vec<isize> {
        self.iter().take(200).collect()
    }
    fn toks(&mut self) -> Option<Vec<(isize, isize, String)>> {
        None
    }
}
impl<'i, S: TokenSource<'i>> Reset for UnbufferedTokenStream<'i, S> {
    fn do_reset(&mut self) {}
    fn ints(&mut self) -> Vec<isize> {
        self.iter().take(200).collect()
    }
    fn toks(&mut self) -> Option<Vec<(isize, isize, String)>> {
        Some(self.token_iter().take(200).map(|t| (t.get_token_index(), t.get_token_type(), t.text.clone())).collect())
    }
}
#[allow(clippy::too_many_arguments)]
fn drive_toks<'i, TF, S>(
    s: &mut S,
    m: &mut Mdl,
    kind: K,
    rng: &mut Rng,
    n_ops: usize,
    r: &mut Rep,
    what: &str,
    fetched: &Cell<usize>,
    after_eof: &Cell<usize>,
) where
    TF: TokenFactory<'i, Data = str> + 'i,
    S: TokenStream<'i, TF = TF> + Reset,
{
    let toks = m.toks.clone();
    let n = toks.len();
    let mut marks: Vec<(isize, usize)> = vec![];
    // first index which must still be there
    let mut keep = 0usize;
    let mut visited = vec![m.p];
    let mut hist: Vec<String> = vec![];
    let mut ahead = m.p;
    macro_rules! bad {
        ($($a:tt)*) => {{
            let h = if hist.len() > 40 { &hist[hist.len() - 40..] } else { &hist[..] };
            r.violation(format!("{}\n{:?} stream, {}\ntokens {:?}\nlast operations {:?}", format!($($a)*), kind, what,
                toks.iter().map(|t| (t.ty, t.ch)).collect::<Vec<_>>(), h));
            return;
        }};
    }
    let is = |t: &TF::Tok, i: usize| -> bool {
        let t: &TF::Inner = t.borrow();
        let w = &toks[i];
        let text = if w.ty == EOF { "<EOF>" } else { &w.text };
        t.get_token_type() == w.ty && t.get_channel() == w.ch && t.get_text() == text && t.get_token_index() == i as isize
    };
    for _ in 0..n_ops {
        if s.index() != m.p as isize {
            bad!("index() is {}, it should be {}", s.index(), m.p);
        }
        match rng.below(13) {
            0..=3 => {
                if toks[m.p].ty != EOF {
                    hist.push("consume".into());
                    let before = m.p;
                    s.consume();
                    m.p = m.next(m.p);
                    visited.push(m.p);
                    r.one("consumed");
                    match s.lt(-1) {
                        Some(t) if is(t, before) => {}
                        t => bad!("lt(-1) after consuming token {} is {:?}", before, t),
                    }
                    if marks.is_empty() && kind == K::Unbuffered {
                        keep = m.p;
                        // only what was looked at is kept
                        ahead = ahead.max(m.p);
                    }
                }
            }
            4 | 5 => {
                let k = 1 + rng.below(7) as isize;
                hist.push(format!("la/lt({})", k));
                let i = m.lt(k).unwrap();
                ahead = ahead.max(i);
                let g = s.la(k);
                r.one("lookaheads");
                if g != toks[i].ty {
                    bad!("la({}) at {} is {}, it should be {}", k, m.p, g, toks[i].ty);
                }
                match s.lt(k) {
                    Some(t) if is(t, i) => {}
                    t => bad!("lt({}) at {} is {:?}, it should be token {}", k, m.p, t, i),
                }
            }
            6 => {
                let k = if kind == K::Unbuffered && marks.is_empty() { 1 } else { 1 + rng.below(4) };
                let w = m.lt(-(k as isize));
                // an unbuffered stream only has to know the last token, and what was marked
                if k > 1 && kind == K::Unbuffered && w.map_or(true, |w| w < keep) {
                    continue;
                }
                if w.is_none() && k > 1 && kind != K::Common {
                    continue;
                }
                hist.push(format!("lt(-{})", k));
                r.one("lookbacks");
                match (s.lt(-(k as isize)), w) {
                    (None, None) => {}
                    (Some(t), Some(w)) if is(t, w) => {}
                    (t, w) => bad!("lt(-{}) at {} is {:?}, it should be token {:?}", k, m.p, t, w),
                }
                let g = s.la(-(k as isize));
                let wt = w.map_or(0, |w| toks[w].ty);
                if w.is_some() && g != wt {
                    bad!("la(-{}) at {} is {}, it should be {}", k, m.p, g, wt);
                }
            }
            7 | 8 => {
                // back (or forward) to a position in the marked region
                let q = if kind == K::Unbuffered && marks.is_empty() {
                    if rng.chance(1, 2) {
                        m.p
                    } else {
                        continue;
                    }
                } else if rng.chance(1, 6) && kind != K::Common {
                    // further than ever before, perhaps past the end
                    m.p + rng.below(8)
                } else {
                    let c: Vec<usize> = visited.iter().copied().filter(|v| *v >= keep).collect();
                    if c.is_empty() {
                        continue;
                    }
                    *rng.pick(&c)
                };
                hist.push(format!("seek({})", q));
                s.seek(q as isize);
                m.p = q.min(n - 1);
                ahead = ahead.max(m.p);
                visited.push(m.p);
                r.one("seeks");
            }
            9 => {
                let k = s.mark();
                hist.push(format!("mark -> {}", k));
                if marks.is_empty() && kind == K::Unbuffered {
                    keep = m.p;
                }
                marks.push((k, m.p));
            }
            10 => {
                if let Some((k, q)) = marks.pop() {
                    if rng.chance(2, 3) {
                        hist.push(format!("seek({})", q));
                        s.seek(q as isize);
                        m.p = q;
                    }
                    hist.push(format!("release({})", k));
                    s.release(k);
                    if marks.is_empty() && kind == K::Unbuffered {
                        keep = m.p;
                    }
                }
            }
            11 => {
                // tokens by index, texts
                let hi = if kind == K::Unbuffered { ahead } else { fetched.get().min(n) - 1 };
                let lo = if kind == K::Unbuffered { keep } else { 0 };
                if hi < lo {
                    continue;
                }
                let a = lo + rng.below(hi - lo + 1);
                let b = a + rng.below(hi - a + 1);
                hist.push(format!("get({}) text({}..={})", a, a, b));
                let t = s.get(a as isize);
                if !is(t, a) {
                    bad!("get({}) is {:?}", a, t);
                }
                let t = s.get_text_from_interval(a as isize, b as isize);
                let w: String = (a..=b).filter(|i| toks[*i].ty != EOF).map(|i| toks[i].text.as_str()).collect();
                r.one("texts");
                if t != w {
                    bad!("text of {}..={} is {:?}, it should be {:?}", a, b, t, w);
                }
                if kind != K::Unbuffered {
                    let w: String =
                        (0..fetched.get().min(n)).filter(|i| toks[*i].ty != EOF).map(|i| toks[i].text.as_str()).collect();
                    if s.get_all_text() != w {
                        bad!("get_all_text() is {:?}, it should be {:?}", s.get_all_text(), w);
                    }
                }
            }
            _ => {
                if kind == K::Common && rng.chance(1, 3) {
                    hist.push("reset".into());
                    s.do_reset();
                    m.p = m.first();
                    r.one("resets");
                }
            }
        }
        // the source is asked for each token once, and no more after EOF
        if after_eof.get() > 0 {
            bad!("token source asked for a token after EOF");
        }
        // without marks an unbuffered stream keeps only a bounded window
        if kind == K::Unbuffered && marks.is_empty() {
            r.one("windows_measured");
            let need = ahead.saturating_sub(m.p) as isize;
            if s.size() > 2 * need + 4 && s.size() > 12 {
                // generous: tokens may be dropped lazily, but not never
                let before = s.size();
                if before > 40 {
                    bad!("{} tokens kept without any mark, lookahead needs {}", before, need + 2);
                }
            }
        }
    }
    let rest: Vec<usize> = {
        let mut v = vec![];
        let mut i = m.p;
        while toks[i].ty != EOF {
            v.push(i);
            i = m.next(i);
        }
        v.push(i);
        v
    };
    if rng.chance(1, 2) {
        hist.push("token_iter".into());
        if let Some(g) = s.toks() {
            let w: Vec<_> = rest
                .iter()
                .map(|i| (*i as isize, toks[*i].ty, toks[*i].text.clone()))
                .collect();
            r.one("iterations");
            if g != w {
                bad!("token_iter gives {:?}, it should be {:?}", g, w);
            }
            return;
        }
    }
    hist.push("iter".into());
    let g = s.ints();
    let w: Vec<isize> = rest.iter().map(|i| toks[*i].ty).filter(|t| *t != EOF).collect();
    r.one("iterations");
    if g != w {
        bad!("iter gives {:?}, it should be {:?}", g, w);
    }
    if s.la(1) != EOF {
        bad!("not at EOF after iterating");
    }
    if !s.ints().is_empty() {
        bad!("iterator delivers something after the end");
    }
    if after_eof.get() > 0 {
        bad!("token source asked for a token after EOF");
    }
}
fn with_tf<'i, TF>(tf: &'i TF, toks: Vec<T>, rng: &mut Rng, r: &mut Rep, fname: &str)
where
    TF: TokenFactory<'i, Data = str> + 'i,
    InputStream<Box<str>>: CharStream<TF::From>,
{
    let toks = Rc::new(toks);
    let fetched = Rc::new(Cell::new(0));
    let after = Rc::new(Cell::new(0));
    let src = Src { toks: toks.clone(), pos: 0, tf, after_eof: after.clone(), fetched: fetched.clone() };
    let ops = 20 + rng.below(150);
    let k = *rng.pick(&[K::Common, K::Common, K::Buffered, K::Unbuffered, K::Unbuffered]);
    r.one(&format!("streams_{:?}", k));
    match k {
        K::Common => {
            let ch = if rng.chance(1, 3) { rng.below(3) as isize } else { 0 };
            let mut m = Mdl { toks, channel: Some(ch), p: 0 };
            m.p = m.first();
            let mut s = if ch == 0 && rng.chance(1, 2) { CommonTokenStream::new(src) } else { CommonTokenStream::with_channel(src, ch) };
            drive_toks(&mut s, &mut m, k, rng, ops, r, &format!("channel {}, {}", ch, fname), &fetched, &after);
        }
        K::Buffered => {
            let mut m = Mdl { toks, channel: None, p: 0 };
            let mut s = UnbufferedTokenStream::new_buffered(src);
            s.la(1);
            drive_toks(&mut s, &mut m, k, rng, ops, r, fname, &fetched, &after);
        }
        K::Unbuffered => {
            let mut m = Mdl { toks, channel: None, p: 0 };
            let mut s = UnbufferedTokenStream::new_unbuffered(src);
            s.la(1);
            drive_toks(&mut s, &mut m, k, rng, ops, r, fname, &fetched, &after);
        }
    }
}
/// S02: token streams
pub fn s02(seed: u64, r: &mut Rep) {
    let mut rng = Rng::new(seed);
    let n = if rng.chance(1, 8) { rng.below(2) } else if rng.chance(1, 6) { rng.below(120) } else { rng.below(20) };
    let hidden = rng.below(4);
    let mut toks: Vec<T> = (0..n)
        .map(|i| T {
            ty: 1 + rng.below(5) as isize,
            ch: if rng.chance(hidden, 5) { 1 + rng.below(2) as isize } else { 0 },
            text: format!("{}{}", *rng.pick(&["a", "é", "", "x y"]), i),
        })
        .collect();
    toks.push(T { ty: EOF, ch: if rng.chance(1, 8) { 1 } else { 0 }, text: "<EOF>".into() });
    r.eval(&format!("{:?}{}", toks, seed));
    r.sample(|| format!("tokens (type, channel) {:?}", toks.iter().map(|t| (t.ty, t.ch)).collect::<Vec<_>>()));
    let res = catch_unwind(AssertUnwindSafe(|| match rng.below(4) {
        0 => with_tf(&CommonTokenFactory, toks.clone(), &mut rng, r, "CommonTokenFactory"),
        1 => with_tf(&OwningTokenFactory, toks.clone(), &mut rng, r, "OwningTokenFactory"),
        2 => {
            let tf = ArenaCommonFactory::default();
            with_tf(&tf, toks.clone(), &mut rng, r, "ArenaCommonFactory")
        }
        _ => {
            let tf = ArenaOwningFactory::default();
            with_tf(&tf, toks.clone(), &mut rng, r, "ArenaOwningFactory")
        }
    }));
    if let Err(e) = res {
        r.violation(format!(
            "panic {:?} in a sequence of permitted operations\ntokens {:?}",
            crate::panic_text(&e),
            toks.iter().map(|t| (t.ty, t.ch)).collect::<Vec<_>>()
        ));
    }
}
