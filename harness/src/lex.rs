//! Lexers: generator, driver of the runtime under test, reference model.
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

use antlr_rust::char_stream::{CharStream, InputData};
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::ANTLRError;
use antlr_rust::lexer::{BaseLexer, Lexer, LexerRecog};
use antlr_rust::lexer_atn_simulator::LexerATNSimulator;
use antlr_rust::parser::ParserNodeType;
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::token::Token;
use antlr_rust::token_factory::TokenFactory;
use antlr_rust::TokenSource;

use crate::gram::*;
use crate::interp::Shared;
use crate::rng::Rng;

/// what an embedded lexer action does besides being recorded
#[derive(Clone, Debug, PartialEq)]
pub enum Custom {
    Record,
    SetType(i32),
    SetChannel(i32),
    SetText(String),
    AppendText,
    PushMode(usize),
    PopMode,
    Mode(usize),
    More,
    Skip,
    /// sets `lexer.token`
    Emit(i32),
}
#[derive(Clone, Debug)]
pub struct LexCase {
    pub c: Arc<Compiled>,
    pub custom: Vec<Custom>,
    pub mask: u64,
    /// what before_emit does: 0 nothing, 1 changes the type of tokens on channel 2, 2 sets text
    pub emit_hook: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub enum LEv {
    Tok { ty: isize, ch: isize, start: isize, stop: isize, line: isize, col: isize, text: String, mode: usize, stack: Vec<usize> },
    Err { line: isize, col: isize, msg: String, start: isize },
    Act { rule: isize, idx: isize, at: isize, text: String, line: isize, col: isize },
    Emit { ty: isize, ch: isize },
    Stuck,
}
pub fn pred_value(mask: u64, idx: i32, line: isize, col: isize) -> bool {
    mask >> ((line * 5 + col + idx as isize * 3) % 16) & 1 == 1
}

pub struct Ext {
    log: Rc<RefCell<Vec<LEv>>>,
    case: Rc<LexCase>,
}
pub type BL<'i, I, TF> = BaseLexer<'i, Ext, I, TF>;

impl<'i, I: CharStream<TF::From>, TF: TokenFactory<'i> + 'i> Actions<'i, BL<'i, I, TF>> for Ext {
    fn sempred(
        _l: Option<&<<BL<'i, I, TF> as Recognizer<'i>>::Node as ParserNodeType<'i>>::Type>,
        _rule: isize,
        idx: isize,
        lx: &mut BL<'i, I, TF>,
    ) -> bool {
        crate::out::sched_point();
        pred_value(lx.case.mask, idx as i32, lx.get_line(), lx.get_char_position_in_line())
    }
    fn action(
        _l: Option<&<<BL<'i, I, TF> as Recognizer<'i>>::Node as ParserNodeType<'i>>::Type>,
        rule: isize,
        idx: isize,
        lx: &mut BL<'i, I, TF>,
    ) {
        let text = lx.get_text().to_display();
        let at = lx.get_char_index();
        let ev = LEv::Act { rule, idx, at, text: text.clone(), line: lx.get_line(), col: lx.get_char_position_in_line() };
        lx.log.borrow_mut().push(ev);
        let case = lx.case.clone();
        match &case.custom[idx as usize] {
            Custom::Record => {}
            Custom::SetType(t) => lx.set_type(*t as isize),
            Custom::SetChannel(t) => lx.set_channel(*t as isize),
            Custom::SetText(s) => lx.set_text(TF::Data::from_text(s)),
            Custom::AppendText => lx.set_text(TF::Data::from_text(&(text + "+"))),
            Custom::PushMode(m) => lx.push_mode(*m),
            Custom::PopMode => {
                lx.pop_mode();
            }
            Custom::Mode(m) => lx.set_mode(*m),
            Custom::More => lx.more(),
            Custom::Skip => lx.skip(),
            Custom::Emit(t) => {
                let (s, l, c) = (lx.token_start_char_index, lx.token_start_line, lx.token_start_column);
                let tok = lx.get_token_factory().create(
                    None::<&mut I>,
                    *t as isize,
                    Some(TF::Data::from_text(&format!("emit{}", t))),
                    3,
                    s,
                    at - 1,
                    l,
                    c,
                );
                lx.token = Some(tok);
            }
        }
    }
}
impl<'i, I: CharStream<TF::From>, TF: TokenFactory<'i> + 'i> LexerRecog<'i, BL<'i, I, TF>> for Ext {
    fn before_emit(lx: &mut BL<'i, I, TF>) {
        crate::out::sched_point();
        let ev = LEv::Emit { ty: lx.token_type, ch: lx.channel };
        lx.log.borrow_mut().push(ev);
        match lx.case.emit_hook {
            1 if lx.channel == 2 => lx.token_type = 29,
            2 if lx.channel == 2 => lx.text = Some(TF::Data::from_text("hooked")),
            _ => {}
        }
    }
}
struct LEl(Rc<RefCell<Vec<LEv>>>);
impl<'i, I: CharStream<TF::From>, TF: TokenFactory<'i> + 'i> ErrorListener<'i, BL<'i, I, TF>> for LEl {
    fn syntax_error(
        &self,
        _r: &BL<'i, I, TF>,
        _s: Option<&TF::Inner>,
        line: isize,
        col: isize,
        msg: &str,
        e: Option<&ANTLRError>,
    ) {
        let start = match e {
            Some(ANTLRError::LexerNoAltError { start_index }) => *start_index,
            _ => -99,
        };
        self.0.borrow_mut().push(LEv::Err { line, col, msg: msg.to_string(), start });
    }
}

/// a lexer to be used as token source; errors are not reported anywhere
pub fn source<'i, I, TF>(sh: &Shared, input: I, tf: &'i TF, case: &LexCase) -> BL<'i, I, TF>
where
    I: CharStream<TF::From>,
    TF: TokenFactory<'i> + 'i,
{
    let ext = Ext { log: Rc::new(RefCell::new(vec![])), case: Rc::new(case.clone()) };
    let sim = LexerATNSimulator::new_lexer_atnsimulator(sh.atn.clone(), sh.dfa.clone(), sh.cache.clone());
    let mut lx: BL<'i, I, TF> = BaseLexer::new_base_lexer(input, sim, ext, tf);
    lx.remove_error_listeners();
    lx
}

/// runs the lexer under test until it has returned EOF (and `after` tokens more)
pub fn run<'i, I, TF>(sh: &Shared, input: I, tf: &'i TF, case: &LexCase, limit: usize) -> Vec<LEv>
where
    I: CharStream<TF::From>,
    TF: TokenFactory<'i> + 'i,
{
    let log = Rc::new(RefCell::new(vec![]));
    let ext = Ext { log: log.clone(), case: Rc::new(case.clone()) };
    let sim = LexerATNSimulator::new_lexer_atnsimulator(sh.atn.clone(), sh.dfa.clone(), sh.cache.clone());
    let mut lx: BL<'i, I, TF> = BaseLexer::new_base_lexer(input, sim, ext, tf);
    lx.remove_error_listeners();
    lx.add_error_listener(Box::new(LEl(log.clone())));
    let mut eofs = 0;
    loop {
        let t = lx.next_token();
        let t: &TF::Inner = t.borrow();
        let ty = t.get_token_type();
        log.borrow_mut().push(LEv::Tok {
            ty,
            ch: t.get_channel(),
            start: t.get_start(),
            stop: t.get_stop(),
            line: t.get_line(),
            col: t.get_column(),
            text: t.get_text().to_display(),
            mode: lx.mode,
            stack: lx.mode_stack.clone(),
        });
        if ty == -1 {
            eofs += 1;
        }
        if eofs >= 2 {
            break;
        }
        if RefCell::borrow(&log).len() > limit {
            log.borrow_mut().push(LEv::Stuck);
            break;
        }
    }
    drop(lx);
    let v = RefCell::borrow(&log).clone();
    v
}

// ------------------------------------------------------------------ reference model
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Cf {
    st: usize,
    alt: usize,
    stack: Vec<usize>,
    ng: bool,
    acts: Vec<(usize, Option<usize>)>,
}
pub struct Model<'a> {
    pub case: &'a LexCase,
    pub input: &'a [i32],
    /// line and column of every position
    pub lc: Vec<(isize, isize)>,
    /// counts simulated configurations; gives up beyond a bound
    pub work: usize,
    pub max_stack: usize,
    pub ng_skips: usize,
    pub preds: usize,
}
pub fn line_cols(input: &[i32]) -> Vec<(isize, isize)> {
    let mut v = vec![(1, 0)];
    for c in input {
        let (l, k) = *v.last().unwrap();
        v.push(if *c == 10 { (l + 1, 0) } else { (l, k + 1) });
    }
    v
}
fn terminal(e: &Edge) -> bool {
    matches!(e.ty, T_ATOM | T_RANGE | T_SET | T_NOTSET | T_WILD)
}
fn matches_sym(e: &Edge, t: i32) -> bool {
    let inset = || e.set.iter().any(|(a, b)| *a <= t && t <= *b);
    match e.ty {
        T_ATOM => {
            if e.a3 == 1 {
                t == -1
            } else {
                t == e.a1
            }
        }
        T_RANGE => e.a1 <= t && t <= e.a2,
        T_SET => inset(),
        T_NOTSET => t >= 0 && !inset(),
        T_WILD => t >= 0,
        _ => false,
    }
}
pub struct Match {
    pub end: usize,
    pub rule: usize,
    pub acts: Vec<(usize, Option<usize>)>,
}
pub enum MatchRes {
    Ok(Match),
    /// position of the first character which could not be consumed
    Dead(usize),
}
impl<'a> Model<'a> {
    pub fn new(case: &'a LexCase, input: &'a [i32]) -> Model<'a> {
        Model { case, input, lc: line_cols(input), work: 0, max_stack: 0, ng_skips: 0, preds: 0 }
    }
    fn closure(&mut self, c: Cf, out: &mut Vec<Cf>, seen: &mut HashSet<Cf>, mut acc: bool, pos: usize, eof: bool) -> Option<bool> {
        self.work += 1;
        if self.work > 60_000 || c.stack.len() > 200 {
            return None;
        }
        self.max_stack = self.max_stack.max(c.stack.len());
        let a = &self.case.c.atn;
        let st = &a.states[c.st];
        if st.ty == S_RULE_STOP {
            if c.stack.is_empty() {
                if seen.insert(c.clone()) {
                    out.push(c);
                }
                return Some(true);
            }
            let mut d = c.clone();
            d.st = d.stack.pop().unwrap();
            d.ng |= a.states[d.st].nongreedy;
            return self.closure(d, out, seen, acc, pos, eof);
        }
        if st.edges.iter().any(terminal) {
            if !acc || !c.ng {
                if seen.insert(c.clone()) {
                    out.push(c.clone());
                }
            } else {
                self.ng_skips += 1;
            }
        }
        for e in &st.edges {
            let mut d = c.clone();
            d.st = e.target;
            d.ng |= a.states[e.target].nongreedy;
            match e.ty {
                T_EPS => {}
                T_RULE => d.stack.push(e.follow),
                T_PRED => {
                    self.preds += 1;
                    let (l, k) = self.lc[pos];
                    if !pred_value(self.case.mask, e.a2, l, k) {
                        continue;
                    }
                }
                T_ACTION => {
                    if d.stack.is_empty() {
                        d.acts.push((e.a2 as usize, None));
                    }
                }
                T_ATOM | T_RANGE | T_SET => {
                    if !(eof && matches_sym(e, -1)) {
                        continue;
                    }
                }
                _ => continue,
            }
            acc = self.closure(d, out, seen, acc, pos, eof)?;
        }
        Some(acc)
    }
    /// one match from `start` in `mode`; None: too expensive to simulate
    pub fn match_at(&mut self, mode: usize, start: usize) -> Option<MatchRes> {
        let a = &self.case.c.atn;
        let n = self.input.len();
        let mut cur = vec![];
        let mut seen = HashSet::new();
        for (i, e) in a.states[a.mode_start[mode]].edges.iter().enumerate() {
            let c = Cf { st: e.target, alt: i + 1, stack: vec![], ng: false, acts: vec![] };
            self.closure(c, &mut cur, &mut seen, false, start, false)?;
        }
        let mut best: Option<Match> = None;
        let mut pos = start;
        let accept = |cur: &Vec<Cf>, pos: usize, best: &mut Option<Match>| -> bool {
            if let Some(c) = cur.iter().find(|c| a.states[c.st].ty == S_RULE_STOP) {
                *best = Some(Match { end: pos, rule: a.states[c.st].rule as usize, acts: c.acts.clone() });
                return true;
            }
            false
        };
        accept(&cur, pos, &mut best);
        loop {
            let t = if pos < n { self.input[pos] } else { -1 };
            let after = if t == -1 { pos } else { pos + 1 };
            let mut nx = vec![];
            let mut seen = HashSet::new();
            let mut skip = 0;
            for c in &cur {
                let acc = c.alt == skip;
                if acc && c.ng {
                    self.ng_skips += 1;
                    continue;
                }
                for e in &a.states[c.st].edges {
                    if terminal(e) && matches_sym(e, t) {
                        let mut d = c.clone();
                        d.st = e.target;
                        d.ng |= a.states[e.target].nongreedy;
                        for x in d.acts.iter_mut() {
                            if x.1.is_none() && matches!(self.case.c.g.lex_actions[x.0], LexAct::Custom(..)) {
                                x.1 = Some(pos);
                            }
                        }
                        if self.closure(d, &mut nx, &mut seen, acc, after, t == -1)? {
                            skip = c.alt;
                            break;
                        }
                    }
                }
            }
            if nx.is_empty() {
                break;
            }
            cur = nx;
            pos = after;
            if accept(&cur, pos, &mut best) && t == -1 {
                break;
            }
        }
        Some(match best {
            Some(m) => MatchRes::Ok(m),
            None => MatchRes::Dead(pos),
        })
    }
    /// everything the lexer does; `unit[i]` is the stream index of character i
    pub fn lex(&mut self, unit: &[isize], limit: usize) -> Option<Vec<LEv>> {
        let n = self.input.len();
        let g = &self.case.c.g;
        let text = |a: usize, b: usize| -> String {
            self.input[a.min(n)..b.min(n)].iter().map(|c| char::from_u32(*c as u32).unwrap_or('\u{FFFD}')).collect()
        };
        let input = self.input;
        let text = move |a: usize, b: usize| -> String {
            let _ = &text;
            input[a.min(n)..b.min(n)].iter().map(|c| char::from_u32(*c as u32).unwrap_or('\u{FFFD}')).collect()
        };
        let mut log = vec![];
        let (mut pos, mut mode, mut stack, mut hit_eof) = (0usize, 0usize, vec![], false);
        let mut eofs = 0;
        while eofs < 2 {
            // one token
            let tok = 'outer: loop {
                if hit_eof {
                    let (l, c) = self.lc[pos];
                    break (-1, 0, unit[pos], unit[pos] - 1, l, c, "<EOF>".to_string());
                }
                let start = pos;
                let (sl, sc) = self.lc[start];
                let mut ch = 0;
                let mut over: Option<String> = None;
                let mut own: Option<(isize, isize, isize, isize, isize, isize, String)> = None;
                let mut ty;
                loop {
                    ty = 0;
                    let r = self.match_at(mode, pos)?;
                    let from = pos;
                    let mut mty = -3;
                    match r {
                        MatchRes::Dead(p) => {
                            pos = p;
                            if p == n && p == from {
                                mty = -1;
                            } else {
                                log.push(LEv::Err {
                                    line: sl,
                                    col: sc,
                                    msg: format!("token recognition error at: '{}'", text(start, p + 1)),
                                    start: unit[from],
                                });
                                if p < n {
                                    pos = p + 1;
                                }
                            }
                        }
                        MatchRes::Ok(m) => {
                            mty = g.rules[m.rule].ttype as isize;
                            pos = m.end;
                            let (l, c) = self.lc[pos];
                            for (ai, off) in &m.acts {
                                match &g.lex_actions[*ai] {
                                    LexAct::Channel(c) => ch = *c as isize,
                                    LexAct::Mode(m) => mode = *m as usize,
                                    LexAct::More => ty = -2,
                                    LexAct::PopMode => {
                                        if let Some(m) = stack.pop() {
                                            mode = m
                                        }
                                    }
                                    LexAct::PushMode(m) => {
                                        stack.push(mode);
                                        mode = *m as usize
                                    }
                                    LexAct::Skip => ty = -3,
                                    LexAct::Type(t) => ty = *t as isize,
                                    LexAct::Custom(r, i) => {
                                        let at = off.unwrap_or(pos);
                                        let seen = over.clone().unwrap_or_else(|| text(start, at));
                                        log.push(LEv::Act { rule: *r as isize, idx: *i as isize, at: unit[at], text: seen.clone(), line: l, col: c });
                                        match &self.case.custom[*i as usize] {
                                            Custom::Record => {}
                                            Custom::SetType(t) => ty = *t as isize,
                                            Custom::SetChannel(t) => ch = *t as isize,
                                            Custom::SetText(s) => over = Some(s.clone()),
                                            Custom::AppendText => over = Some(seen + "+"),
                                            Custom::PushMode(m) => {
                                                stack.push(mode);
                                                mode = *m
                                            }
                                            Custom::PopMode => {
                                                if let Some(m) = stack.pop() {
                                                    mode = m
                                                }
                                            }
                                            Custom::Mode(m) => mode = *m,
                                            Custom::More => ty = -2,
                                            Custom::Skip => ty = -3,
                                            Custom::Emit(t) => {
                                                own = Some((*t as isize, 3, unit[start], unit[at] - 1, sl, sc, format!("emit{}", t)))
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if pos == n {
                        hit_eof = true;
                    }
                    if ty == 0 {
                        ty = mty;
                    }
                    if ty == -3 {
                        if log.len() > limit {
                            return None;
                        }
                        continue 'outer;
                    }
                    if ty != -2 {
                        break;
                    }
                }
                if let Some(o) = own {
                    break o;
                }
                log.push(LEv::Emit { ty, ch });
                match self.case.emit_hook {
                    1 if ch == 2 => ty = 29,
                    2 if ch == 2 => over = Some("hooked".into()),
                    _ => {}
                }
                let t = if ty == -1 {
                    "<EOF>".to_string()
                } else {
                    match over {
                        Some(s) => s,
                        None if start >= n => "<EOF>".to_string(),
                        None => text(start, pos),
                    }
                };
                break (ty, ch, unit[start], unit[pos] - 1, sl, sc, t);
            };
            if tok.0 == -1 {
                eofs += 1;
            }
            log.push(LEv::Tok { ty: tok.0, ch: tok.1, start: tok.2, stop: tok.3, line: tok.4, col: tok.5, text: tok.6, mode, stack: stack.clone() });
            if log.len() > limit {
                return None;
            }
        }
        Some(log)
    }
}

// ------------------------------------------------------------------ declarative matcher
/// End positions of a rule by structural recursion over the grammar (greediness does not matter
/// for the set). EOF counts as one more symbol: position n+1 is "after EOF".
pub struct Ends<'a> {
    pub g: &'a Grammar,
    pub input: &'a [i32],
    memo: HashMap<(usize, usize), BTreeSet<usize>>,
    pub work: usize,
}
impl<'a> Ends<'a> {
    pub fn new(g: &'a Grammar, input: &'a [i32]) -> Ends<'a> {
        Ends { g, input, memo: HashMap::new(), work: 0 }
    }
    pub fn rule(&mut self, r: usize, p: usize) -> BTreeSet<usize> {
        if let Some(s) = self.memo.get(&(r, p)) {
            return s.clone();
        }
        let g = self.g;
        let s = self.alts(&g.rules[r].alts, p);
        self.memo.insert((r, p), s.clone());
        s
    }
    fn alts(&mut self, alts: &[Alt], p: usize) -> BTreeSet<usize> {
        let mut o = BTreeSet::new();
        for a in alts {
            let mut cur: BTreeSet<usize> = [p].into_iter().collect();
            for e in a {
                let mut nx = BTreeSet::new();
                for q in cur {
                    nx.extend(self.el(e, q));
                }
                cur = nx;
            }
            o.extend(cur);
        }
        o
    }
    fn sym(&self, p: usize, f: impl Fn(i32) -> bool) -> BTreeSet<usize> {
        let n = self.input.len();
        if p < n {
            if f(self.input[p]) {
                return [p + 1].into_iter().collect();
            }
        } else if f(-1) {
            return [n + 1].into_iter().collect();
        }
        BTreeSet::new()
    }
    fn el(&mut self, e: &El, p: usize) -> BTreeSet<usize> {
        self.work += 1;
        match e {
            El::Tok(t) => self.sym(p, |c| c == *t),
            El::Range(a, b) => self.sym(p, |c| *a <= c && c <= *b),
            El::Set(s) => self.sym(p, |c| s.iter().any(|(a, b)| *a <= c && c <= *b)),
            El::NotSet(s) => self.sym(p, |c| c >= 0 && !s.iter().any(|(a, b)| *a <= c && c <= *b)),
            El::Wild => self.sym(p, |c| c >= 0),
            El::Rule(r, _) => self.rule(*r, p),
            El::Block(a) => self.alts(a, p),
            El::Opt(a, _) => {
                let mut s = self.alts(a, p);
                s.insert(p);
                s
            }
            El::Star(a, _) | El::Plus(a, _) => {
                let mut todo = vec![p];
                let mut seen: BTreeSet<usize> = BTreeSet::new();
                let mut res: BTreeSet<usize> = BTreeSet::new();
                if matches!(e, El::Star(..)) {
                    res.insert(p);
                }
                while let Some(q) = todo.pop() {
                    if !seen.insert(q) {
                        continue;
                    }
                    for x in self.alts(a, q) {
                        res.insert(x);
                        todo.push(x);
                    }
                }
                res
            }
            El::Act(_) | El::Pred(_) => [p].into_iter().collect(),
            El::Prec(_) => BTreeSet::new(),
        }
    }
}

// ------------------------------------------------------------------ generator
#[derive(Clone, Debug, Default)]
pub struct LOpts {
    pub nongreedy: bool,
    pub cmds: bool,
    pub customs: bool,
    pub preds: bool,
    pub skip_more: bool,
    pub max_cp: i32,
    pub emit: bool,
}
pub const POOL: [i32; 26] = [
    0x61, 0x62, 0x63, 0x30, 0x31, 0x20, 0x0a, 0x2a, 0x2f, 0x00, 0x7e, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x306f, 0xd7ff, 0xe000,
    0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d6fc, 0x10fffe, 0x10ffff,
];
struct LG<'a> {
    rng: &'a mut Rng,
    o: LOpts,
    alpha: Vec<i32>,
    nfrag: usize,
    frag0: usize,
    cur: usize,
    acts: Vec<LexAct>,
    custom: Vec<Custom>,
    modes: usize,
    nullable: Vec<bool>,
    npred: i32,
}
impl<'a> LG<'a> {
    fn ch(&mut self) -> i32 {
        *self.rng.pick(&self.alpha)
    }
    fn range(&mut self) -> (i32, i32) {
        let a = self.ch();
        let b = if self.rng.chance(1, 3) { a } else if self.rng.chance(1, 2) { (a + self.rng.below(3) as i32).min(self.o.max_cp) } else { self.ch() };
        (a.min(b), a.max(b))
    }
    fn set(&mut self) -> Vec<(i32, i32)> {
        let mut v: Vec<(i32, i32)> = vec![];
        for _ in 0..1 + self.rng.below(3) {
            v.push(self.range());
        }
        // normalised like the tool does
        v.sort();
        let mut o: Vec<(i32, i32)> = vec![];
        for (a, b) in v {
            match o.last_mut() {
                Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                _ => o.push((a, b)),
            }
        }
        o
    }
    fn act(&mut self, a: LexAct) -> El {
        let i = match self.acts.iter().position(|x| *x == a) {
            Some(i) => i,
            None => {
                self.acts.push(a);
                self.acts.len() - 1
            }
        };
        El::Act(i as i32)
    }
    fn custom(&mut self) -> El {
        let m = self.modes;
        let c = match self.rng.below(if self.o.skip_more { 13 } else { 10 }) {
            0..=3 => Custom::Record,
            4 => Custom::SetType(20 + self.rng.below(3) as i32),
            5 => Custom::SetChannel(1 + self.rng.below(3) as i32),
            6 => Custom::SetText("é!".into()),
            7 => Custom::AppendText,
            8 => {
                if self.o.cmds {
                    Custom::PushMode(self.rng.below(m))
                } else {
                    Custom::Record
                }
            }
            9 => match self.rng.below(3) {
                0 if self.o.cmds => Custom::PopMode,
                1 if self.o.cmds => Custom::Mode(self.rng.below(m)),
                2 if self.o.emit => Custom::Emit(25),
                _ => Custom::Record,
            },
            10 => Custom::More,
            11 => Custom::Skip,
            _ => {
                if self.o.emit {
                    Custom::Emit(26)
                } else {
                    Custom::Record
                }
            }
        };
        self.custom.push(c);
        let i = self.custom.len() as i32 - 1;
        // custom actions are never shared
        self.acts.push(LexAct::Custom(self.cur as i32, i));
        El::Act(self.acts.len() as i32 - 1)
    }
    fn cmd(&mut self) -> El {
        let m = self.modes;
        let a = match self.rng.below(if self.o.skip_more { 10 } else { 7 }) {
            0 | 1 => LexAct::Channel(1 + self.rng.below(3) as i32),
            2 => LexAct::Type(if self.rng.chance(1, 12) { -1 } else { 15 + self.rng.below(4) as i32 }),
            3 => LexAct::Mode(self.rng.below(m) as i32),
            4 | 5 => LexAct::PushMode(self.rng.below(m) as i32),
            6 => LexAct::PopMode,
            7 | 8 => LexAct::More,
            _ => LexAct::Skip,
        };
        self.act(a)
    }
    fn nullable_alt(&self, a: &Alt) -> bool {
        a.iter().all(|e| crate::gen::nullable(e, &self.nullable))
    }
    fn el(&mut self, depth: usize, safe: bool, in_frag: bool) -> El {
        loop {
            match self.rng.below(if depth > 0 { 17 } else { 10 }) {
                0..=4 => return El::Tok(self.ch()),
                5 => {
                    let (a, b) = self.range();
                    return El::Range(a, b);
                }
                6 => return El::Set(self.set()),
                7 => {
                    if self.rng.chance(1, 2) {
                        return El::NotSet(self.set());
                    }
                    return El::Wild;
                }
                8 | 9 => {
                    if self.nfrag == 0 {
                        continue;
                    }
                    let f = self.frag0 + self.rng.below(self.nfrag);
                    if in_frag && f <= self.cur && !safe {
                        continue;
                    }
                    return El::Rule(f, 0);
                }
                10 | 11 => return El::Block(self.alts(depth - 1, safe, in_frag, false)),
                12 => {
                    let g = !self.o.nongreedy || self.rng.chance(1, 2);
                    return El::Opt(self.alts(depth - 1, safe, in_frag, true), g);
                }
                13 | 14 => {
                    let g = !self.o.nongreedy || self.rng.chance(1, 2);
                    return El::Star(self.alts(depth - 1, safe, in_frag, true), g);
                }
                _ => {
                    let g = !self.o.nongreedy || self.rng.chance(1, 2);
                    return El::Plus(self.alts(depth - 1, safe, in_frag, true), g);
                }
            }
        }
    }
    fn alts(&mut self, depth: usize, safe: bool, in_frag: bool, nonnull: bool) -> Vec<Alt> {
        let n = 1 + if self.rng.chance(1, 2) { self.rng.below(3) } else { 0 };
        (0..n).map(|_| self.alt(depth, safe, in_frag, nonnull)).collect()
    }
    fn alt(&mut self, depth: usize, safe: bool, in_frag: bool, nonnull: bool) -> Alt {
        let n = 1 + self.rng.below(3);
        let mut v: Alt = vec![];
        let mut s = safe;
        for _ in 0..n {
            if self.o.preds && self.rng.chance(1, 9) {
                let i = self.npred % 6;
                self.npred += 1;
                v.push(El::Pred(i));
            }
            if self.o.customs && self.rng.chance(1, 8) {
                v.push(self.custom());
            }
            let e = self.el(depth, s, in_frag);
            // assume references may be nullable until known
            let nl = match &e {
                El::Rule(..) => true,
                e => crate::gen::nullable(e, &vec![true; 64]),
            };
            s |= !nl;
            v.push(e);
        }
        if self.o.customs && self.rng.chance(1, 10) {
            v.push(self.custom());
        }
        if nonnull && v.iter().all(|e| crate::gen::nullable(e, &vec![true; 64])) {
            let c = self.ch();
            let at = self.rng.below(v.len() + 1);
            v.insert(at, El::Tok(c));
        }
        v
    }
}
fn has_eof(e: &El) -> bool {
    matches!(e, El::Tok(-1))
}
pub fn gen(rng: &mut Rng, o: &LOpts) -> LexCase {
    let pool: Vec<i32> = POOL.iter().copied().filter(|c| *c <= o.max_cp).collect();
    let mut alpha: Vec<i32> = vec![];
    for _ in 0..2 + rng.below(4) {
        let c = if rng.chance(3, 5) { pool[rng.below(9)] } else { *rng.pick(&pool) };
        if !alpha.contains(&c) {
            alpha.push(c);
        }
    }
    let modes = if o.cmds { 1 + rng.below(3) } else { 1 };
    let mut per_mode = vec![];
    let mut ntok = 0;
    for _ in 0..modes {
        let k = 1 + rng.below(5);
        per_mode.push(k);
        ntok += k;
    }
    let nfrag = rng.below(4);
    let mut g = LG {
        rng,
        o: o.clone(),
        alpha: alpha.clone(),
        nfrag,
        frag0: ntok,
        cur: 0,
        acts: vec![],
        custom: vec![],
        modes,
        nullable: vec![true; ntok + nfrag],
        npred: 0,
    };
    let mut rules: Vec<RuleDef> = vec![];
    let mut mode = 0;
    let mut left = per_mode[0];
    for i in 0..ntok {
        while left == 0 {
            mode += 1;
            left = per_mode[mode];
        }
        left -= 1;
        g.cur = i;
        let depth = g.rng.below(3);
        let mut alts = vec![];
        for _ in 0..1 + if g.rng.chance(1, 3) { g.rng.below(2) + 1 } else { 0 } {
            let mut a = g.alt(depth, true, false, true);
            if g.rng.chance(1, 14) {
                a.push(El::Tok(-1));
            }
            if o.cmds {
                while g.rng.chance(2, 5) {
                    let c = g.cmd();
                    a.push(c);
                }
            }
            alts.push(a);
        }
        if g.rng.chance(1, 40) {
            alts.push(vec![El::Tok(-1)]);
        }
        let mut r = RuleDef::new(&format!("R{}", i), alts);
        r.ttype = i as i32 + 1;
        r.mode = mode;
        rules.push(r);
    }
    for i in 0..nfrag {
        g.cur = ntok + i;
        let depth = g.rng.below(3);
        let alts = g.alts(depth, false, true, false);
        let mut r = RuleDef::new(&format!("F{}", i), alts);
        r.fragment = true;
        rules.push(r);
    }
    // a fragment must be able to end: recursive ones get a way out
    for i in 0..nfrag {
        let c = g.ch();
        if rules[ntok + i].alts.iter().all(|a| has_rule(a)) {
            let at = g.rng.below(2);
            let k = rules[ntok + i].alts.len() * at;
            rules[ntok + i].alts.insert(k, vec![El::Tok(c)]);
        }
    }
    // nullability of fragments is known now: repair loops and token rules
    let nl = nullables(&rules);
    let fill = g.ch();
    for r in rules.iter_mut() {
        for a in r.alts.iter_mut() {
            repair(a, &nl, fill);
        }
    }
    let nl = nullables(&rules);
    for r in rules.iter_mut().take(ntok) {
        for a in r.alts.iter_mut() {
            if a.iter().all(|e| crate::gen::nullable(e, &nl)) {
                a.insert(0, El::Tok(fill));
            }
        }
    }
    let _ = g.nullable_alt(&vec![]);
    let (acts, custom) = (g.acts, g.custom);
    let gr = Grammar { is_lexer: true, rules, max_tok: 31, modes, lex_actions: acts };
    let c = Arc::new(compile(&gr));
    let hook = rng.below(4);
    LexCase { c, custom, mask: rng.next(), emit_hook: if hook > 2 { 0 } else { hook as u8 } }
}
fn has_rule(a: &Alt) -> bool {
    a.iter().any(|e| match e {
        El::Rule(..) => true,
        El::Block(x) | El::Plus(x, _) => x.iter().any(has_rule),
        _ => false,
    })
}
pub fn nullables(rules: &[RuleDef]) -> Vec<bool> {
    let mut nl = vec![false; rules.len()];
    loop {
        let mut ch = false;
        for (i, r) in rules.iter().enumerate() {
            if !nl[i] && r.alts.iter().any(|a| a.iter().all(|e| crate::gen::nullable(e, &nl))) {
                nl[i] = true;
                ch = true;
            }
        }
        if !ch {
            return nl;
        }
    }
}
fn repair(a: &mut Alt, nl: &[bool], fill: i32) {
    for e in a.iter_mut() {
        match e {
            El::Block(x) => x.iter_mut().for_each(|a| repair(a, nl, fill)),
            El::Opt(x, _) | El::Star(x, _) | El::Plus(x, _) => {
                for a in x.iter_mut() {
                    repair(a, nl, fill);
                    if a.iter().all(|e| crate::gen::nullable(e, nl)) {
                        a.push(El::Tok(fill));
                    }
                }
            }
            _ => {}
        }
    }
}
/// random text of a rule
fn sample(g: &Grammar, alts: &[Alt], rng: &mut Rng, out: &mut Vec<i32>, depth: usize) {
    if depth > 12 || out.len() > 40 {
        return;
    }
    let a = &alts[rng.below(alts.len())];
    let pick = |s: &[(i32, i32)], rng: &mut Rng| -> i32 {
        let (a, b) = *rng.pick(s);
        if rng.chance(1, 2) {
            a
        } else if rng.chance(1, 2) {
            b
        } else {
            rng.range(a as i64, b as i64) as i32
        }
    };
    for e in a {
        match e {
            El::Tok(t) => out.push(*t),
            El::Range(a, b) => out.push(pick(&[(*a, *b)], rng)),
            El::Set(s) => out.push(pick(s, rng)),
            El::NotSet(_) | El::Wild => out.push(*rng.pick(&POOL[..9])),
            El::Rule(r, _) => sample(g, &g.rules[*r].alts, rng, out, depth + 1),
            El::Block(x) => sample(g, x, rng, out, depth + 1),
            El::Opt(x, _) => {
                if rng.chance(1, 2) {
                    sample(g, x, rng, out, depth + 1)
                }
            }
            El::Star(x, _) | El::Plus(x, _) => {
                let mut k = if matches!(e, El::Plus(..)) { 1 } else { 0 };
                while k < 3 && rng.chance(1, 2) {
                    k += 1;
                }
                for _ in 0..k {
                    sample(g, x, rng, out, depth + 1)
                }
            }
            _ => {}
        }
    }
}
pub fn gen_input(rng: &mut Rng, case: &LexCase, max_cp: i32) -> Vec<i32> {
    let g = &case.c.g;
    let mut v = vec![];
    let toks: Vec<usize> = (0..g.rules.len()).filter(|i| !g.rules[*i].fragment).collect();
    let want = rng.below(5);
    let noise = rng.below(4);
    for _ in 0..want {
        let r = *rng.pick(&toks);
        sample(g, &g.rules[r].alts, rng, &mut v, 0);
        if noise == 0 {
            v.push(*rng.pick(&POOL));
        }
    }
    if noise == 1 {
        for _ in 0..1 + rng.below(6) {
            let i = rng.below(v.len() + 1);
            v.insert(i, *rng.pick(&POOL[..8]));
        }
    }
    if noise == 2 && !v.is_empty() {
        let i = rng.below(v.len());
        v.remove(i);
    }
    v.retain(|c| *c >= 0 && *c <= max_cp && char::from_u32(*c as u32).is_some());
    v.truncate(26);
    v
}
