//! A miniature stand-in for the ANTLR tool: grammar AST -> ATN graph -> the serialized
//! (version 3) form which the runtime under test consumes, plus a "program" that mirrors the
//! shape of the code ANTLR generates for every rule (state numbers, decision numbers).
//!
//! Nothing here uses the runtime under test.
use std::collections::BTreeMap;

pub type Alt = Vec<El>;

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    /// token type (parser) or code point (lexer); -1 is EOF
    Tok(i32),
    /// lexer range
    Range(i32, i32),
    Set(Vec<(i32, i32)>),
    NotSet(Vec<(i32, i32)>),
    Wild,
    /// rule reference with precedence argument
    Rule(usize, i32),
    Block(Vec<Alt>),
    Opt(Vec<Alt>, bool),
    Star(Vec<Alt>, bool),
    Plus(Vec<Alt>, bool),
    /// semantic predicate (index; +6: value depends on the input position, +12: on the context)
    Pred(i32),
    /// parser action, or index into `Grammar::lex_actions` for a lexer
    Act(i32),
    /// precedence predicate (only produced by left recursive rules)
    Prec(i32),
}

#[derive(Clone, Debug)]
pub struct RuleDef {
    pub name: String,
    pub alts: Vec<Alt>,
    /// left recursive operators: (precedence, right part)
    pub ops: Vec<(i32, Alt)>,
    pub leftrec: bool,
    // lexer only
    pub ttype: i32,
    pub fragment: bool,
    pub mode: usize,
}
impl RuleDef {
    pub fn new(name: &str, alts: Vec<Alt>) -> RuleDef {
        RuleDef {
            name: name.to_string(),
            alts,
            ops: vec![],
            leftrec: false,
            ttype: 0,
            fragment: false,
            mode: 0,
        }
    }
    pub fn lex(name: &str, ttype: i32, mode: usize, alt: Alt) -> RuleDef {
        let mut r = RuleDef::new(name, vec![alt]);
        r.ttype = ttype;
        r.mode = mode;
        r
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum LexAct {
    Channel(i32),
    Custom(i32, i32),
    Mode(i32),
    More,
    PopMode,
    PushMode(i32),
    Skip,
    Type(i32),
}

#[derive(Clone, Debug)]
pub struct Grammar {
    pub is_lexer: bool,
    pub rules: Vec<RuleDef>,
    pub max_tok: i32,
    pub modes: usize,
    pub lex_actions: Vec<LexAct>,
}

// ---------------------------------------------------------------- ATN graph
pub const T_EPS: i32 = 1;
pub const T_RANGE: i32 = 2;
pub const T_RULE: i32 = 3;
pub const T_PRED: i32 = 4;
pub const T_ATOM: i32 = 5;
pub const T_ACTION: i32 = 6;
pub const T_SET: i32 = 7;
pub const T_NOTSET: i32 = 8;
pub const T_WILD: i32 = 9;
pub const T_PREC: i32 = 10;

pub const S_BASIC: i32 = 1;
pub const S_RULE_START: i32 = 2;
pub const S_BLOCK_START: i32 = 3;
pub const S_PLUS_BLOCK_START: i32 = 4;
pub const S_STAR_BLOCK_START: i32 = 5;
pub const S_TOKEN_START: i32 = 6;
pub const S_RULE_STOP: i32 = 7;
pub const S_BLOCK_END: i32 = 8;
pub const S_STAR_LOOP_BACK: i32 = 9;
pub const S_STAR_LOOP_ENTRY: i32 = 10;
pub const S_PLUS_LOOP_BACK: i32 = 11;
pub const S_LOOP_END: i32 = 12;

#[derive(Clone, Debug, PartialEq)]
pub struct Edge {
    pub ty: i32,
    pub target: usize,
    pub a1: i32,
    pub a2: i32,
    pub a3: i32,
    /// for sets
    pub set: Vec<(i32, i32)>,
    /// follow state for rule transitions
    pub follow: usize,
}
#[derive(Clone, Debug)]
pub struct St {
    pub ty: i32,
    pub rule: i32,
    pub extra: usize,
    pub nongreedy: bool,
    pub edges: Vec<Edge>,
    dead: bool,
}
#[derive(Clone, Debug)]
pub struct Atn {
    pub states: Vec<St>,
    pub decisions: Vec<usize>,
    pub rule_start: Vec<usize>,
    pub rule_stop: Vec<usize>,
    pub mode_start: Vec<usize>,
}

/// compiled element, mirrors generated code
#[derive(Clone, Debug)]
pub enum N {
    Tok { st: usize, t: i32 },
    Set { st: usize, set: Vec<(i32, i32)>, not: bool },
    Wild { st: usize },
    Rule { st: usize, r: usize, p: i32 },
    Block { st: usize, dec: usize, alts: Vec<Vec<N>> },
    Opt { st: usize, dec: usize, alts: Vec<Vec<N>>, greedy: bool },
    Star { st: usize, lb: usize, dec: usize, body: Body, greedy: bool },
    Plus { st: usize, lb: usize, dec: usize, body: Body, greedy: bool },
    Pred { st: usize, idx: i32 },
    Prec { st: usize, p: i32 },
    Act { st: usize, idx: i32 },
}
#[derive(Clone, Debug)]
pub struct Body {
    pub st: usize,
    pub dec: Option<usize>,
    pub alts: Vec<Vec<N>>,
}
#[derive(Clone, Debug)]
pub struct RuleProg {
    pub start: usize,
    pub stop: usize,
    pub leftrec: bool,
    /// Some((state, decision)) if the rule has several alternatives
    pub choice: Option<(usize, usize)>,
    pub alts: Vec<Vec<N>>,
    /// left recursive loop: N::Star
    pub loop_: Option<Box<N>>,
}
#[derive(Clone, Debug)]
pub struct Compiled {
    pub g: Grammar,
    pub atn: Atn,
    pub prog: Vec<RuleProg>,
    pub serialized: String,
}

struct B {
    states: Vec<St>,
    decisions: Vec<usize>,
    cur_rule: i32,
    rule_start: Vec<usize>,
    is_lexer: bool,
}
type H = (usize, usize);

impl B {
    fn new_state(&mut self, ty: i32) -> usize {
        self.states.push(St {
            ty,
            rule: self.cur_rule,
            extra: 0,
            nongreedy: false,
            edges: vec![],
            dead: false,
        });
        self.states.len() - 1
    }
    fn dec(&mut self, s: usize) -> usize {
        self.decisions.push(s);
        self.decisions.len() - 1
    }
    fn edge(&mut self, s: usize, ty: i32, target: usize, a1: i32, a2: i32, a3: i32) {
        self.states[s].edges.push(Edge {
            ty,
            target,
            a1,
            a2,
            a3,
            set: vec![],
            follow: 0,
        });
    }
    fn eps(&mut self, s: usize, t: usize) {
        self.edge(s, T_EPS, t, 0, 0, 0);
    }
    fn simple(&mut self, ty: i32, a1: i32, a2: i32, a3: i32) -> H {
        let l = self.new_state(S_BASIC);
        let r = self.new_state(S_BASIC);
        self.edge(l, ty, r, a1, a2, a3);
        (l, r)
    }
    fn atom(&mut self, t: i32) -> H {
        if t > 0xFFFF {
            return self.setel(&[(t, t)], false);
        }
        if t == -1 {
            self.simple(T_ATOM, 0, 0, 1)
        } else {
            self.simple(T_ATOM, t, 0, 0)
        }
    }
    fn setel(&mut self, set: &[(i32, i32)], not: bool) -> H {
        let h = self.simple(if not { T_NOTSET } else { T_SET }, 0, 0, 0);
        self.states[h.0].edges[0].set = set.to_vec();
        h
    }
    fn seq(&mut self, alt: &Alt) -> (H, Vec<N>) {
        let mut hs: Vec<H> = vec![];
        let mut ns = vec![];
        if alt.is_empty() {
            let l = self.new_state(S_BASIC);
            let r = self.new_state(S_BASIC);
            self.eps(l, r);
            return ((l, r), ns);
        }
        for e in alt {
            let (h, n) = self.el(e);
            hs.push(h);
            ns.push(n);
        }
        for i in 0..hs.len() - 1 {
            let (l, r) = hs[i];
            let nxt = hs[i + 1].0;
            let simple = self.states[l].ty == S_BASIC
                && self.states[r].ty == S_BASIC
                && self.states[l].edges.len() == 1
                && {
                    let e = &self.states[l].edges[0];
                    if e.ty == T_RULE {
                        e.follow == r
                    } else {
                        e.target == r
                    }
                };
            if simple {
                let e = &mut self.states[l].edges[0];
                if e.ty == T_RULE {
                    e.follow = nxt
                } else {
                    e.target = nxt
                }
                self.states[r].dead = true;
            } else {
                self.eps(r, nxt);
            }
        }
        ((hs[0].0, hs[hs.len() - 1].1), ns)
    }
    /// block with given start state type
    fn block(&mut self, ty: i32, alts: &[Alt]) -> (usize, usize, Vec<Vec<N>>) {
        let st = self.new_state(ty);
        let mut ns = vec![];
        let mut hs = vec![];
        for a in alts {
            let (h, n) = self.seq(a);
            hs.push(h);
            ns.push(n);
        }
        let end = self.new_state(S_BLOCK_END);
        self.states[st].extra = end;
        for h in hs {
            self.eps(st, h.0);
            self.eps(h.1, end);
        }
        (st, end, ns)
    }
    fn el(&mut self, e: &El) -> (H, N) {
        match e {
            El::Tok(t) => {
                let h = self.atom(*t);
                (h, N::Tok { st: h.0, t: *t })
            }
            El::Range(a, b) => {
                let h = if *b > 0xFFFF {
                    self.setel(&[(*a, *b)], false)
                } else {
                    self.simple(T_RANGE, *a, *b, 0)
                };
                (h, N::Set { st: h.0, set: vec![(*a, *b)], not: false })
            }
            El::Set(s) => {
                let h = self.setel(s, false);
                (h, N::Set { st: h.0, set: s.clone(), not: false })
            }
            El::NotSet(s) => {
                let h = self.setel(s, true);
                (h, N::Set { st: h.0, set: s.clone(), not: true })
            }
            El::Wild => {
                let h = self.simple(T_WILD, 0, 0, 0);
                (h, N::Wild { st: h.0 })
            }
            El::Rule(r, p) => {
                let l = self.new_state(S_BASIC);
                let rr = self.new_state(S_BASIC);
                let target = self.rule_start[*r];
                self.states[l].edges.push(Edge {
                    ty: T_RULE,
                    target,
                    a1: 0,
                    a2: *r as i32,
                    a3: *p,
                    set: vec![],
                    follow: rr,
                });
                ((l, rr), N::Rule { st: l, r: *r, p: *p })
            }
            El::Pred(i) => {
                let h = self.simple(T_PRED, self.cur_rule, *i, (*i / 12) % 2);
                (h, N::Pred { st: h.0, idx: *i })
            }
            El::Prec(p) => {
                let h = self.simple(T_PREC, *p, 0, 0);
                (h, N::Prec { st: h.0, p: *p })
            }
            El::Act(i) => {
                let h = if self.is_lexer {
                    self.simple(T_ACTION, self.cur_rule, *i, 0)
                } else {
                    self.simple(T_ACTION, self.cur_rule, 0xFFFF, 0)
                };
                (h, N::Act { st: h.0, idx: *i })
            }
            El::Block(alts) => {
                if alts.len() == 1 {
                    // ANTLR inlines it; represent as a one alternative block without decision
                    let (h, ns) = self.seq(&alts[0]);
                    return (h, N::Block { st: h.0, dec: usize::MAX, alts: vec![ns] });
                }
                let (st, end, ns) = self.block(S_BLOCK_START, alts);
                let d = self.dec(st);
                ((st, end), N::Block { st, dec: d, alts: ns })
            }
            El::Opt(alts, greedy) => {
                let (st, end, ns) = self.block(S_BLOCK_START, alts);
                let d = self.dec(st);
                self.states[st].nongreedy = !greedy;
                if *greedy {
                    self.eps(st, end);
                } else {
                    self.states[st].edges.insert(
                        0,
                        Edge { ty: T_EPS, target: end, a1: 0, a2: 0, a3: 0, set: vec![], follow: 0 },
                    );
                }
                ((st, end), N::Opt { st, dec: d, alts: ns, greedy: *greedy })
            }
            El::Star(alts, greedy) => {
                let (bst, bend, ns) = self.block(S_STAR_BLOCK_START, alts);
                let bd = if alts.len() > 1 { Some(self.dec(bst)) } else { None };
                let entry = self.new_state(S_STAR_LOOP_ENTRY);
                self.states[entry].nongreedy = !greedy;
                let d = self.dec(entry);
                let end = self.new_state(S_LOOP_END);
                let lb = self.new_state(S_STAR_LOOP_BACK);
                self.states[end].extra = lb;
                if *greedy {
                    self.eps(entry, bst);
                    self.eps(entry, end);
                } else {
                    self.eps(entry, end);
                    self.eps(entry, bst);
                }
                self.eps(bend, lb);
                self.eps(lb, entry);
                (
                    (entry, end),
                    N::Star {
                        st: entry,
                        lb,
                        dec: d,
                        body: Body { st: bst, dec: bd, alts: ns },
                        greedy: *greedy,
                    },
                )
            }
            El::Plus(alts, greedy) => {
                let (bst, bend, ns) = self.block(S_PLUS_BLOCK_START, alts);
                let bd = if alts.len() > 1 { Some(self.dec(bst)) } else { None };
                let lb = self.new_state(S_PLUS_LOOP_BACK);
                self.states[lb].nongreedy = !greedy;
                let d = self.dec(lb);
                let end = self.new_state(S_LOOP_END);
                self.states[end].extra = lb;
                self.eps(bend, lb);
                if *greedy {
                    self.eps(lb, bst);
                    self.eps(lb, end);
                } else {
                    self.eps(lb, end);
                    self.eps(lb, bst);
                }
                (
                    (bst, end),
                    N::Plus {
                        st: bst,
                        lb,
                        dec: d,
                        body: Body { st: bst, dec: bd, alts: ns },
                        greedy: *greedy,
                    },
                )
            }
        }
    }
}

pub fn compile(g: &Grammar) -> Compiled {
    let mut b = B {
        states: vec![],
        decisions: vec![],
        cur_rule: -1,
        rule_start: vec![],
        is_lexer: g.is_lexer,
    };
    let mut mode_start = vec![];
    if g.is_lexer {
        for _ in 0..g.modes {
            let s = b.new_state(S_TOKEN_START);
            b.dec(s);
            mode_start.push(s);
        }
    }
    let mut rule_stop = vec![];
    for (i, _) in g.rules.iter().enumerate() {
        b.cur_rule = i as i32;
        let s = b.new_state(S_RULE_START);
        let e = b.new_state(S_RULE_STOP);
        b.rule_start.push(s);
        rule_stop.push(e);
    }
    let mut prog = vec![];
    for (i, r) in g.rules.iter().enumerate() {
        b.cur_rule = i as i32;
        let (h, choice, alts) = if r.alts.len() == 1 {
            let (h, ns) = b.seq(&r.alts[0]);
            (h, None, vec![ns])
        } else {
            let (st, end, ns) = b.block(S_BLOCK_START, &r.alts);
            let d = b.dec(st);
            ((st, end), Some((st, d)), ns)
        };
        b.eps(b.rule_start[i], h.0);
        let mut loop_ = None;
        if r.leftrec {
            let alts: Vec<Alt> = r
                .ops
                .iter()
                .map(|(p, a)| {
                    let mut v = vec![El::Prec(*p)];
                    v.extend(a.clone());
                    v
                })
                .collect();
            let (lh, n) = b.el(&El::Star(alts, true));
            b.eps(h.1, lh.0);
            b.eps(lh.1, rule_stop[i]);
            loop_ = Some(Box::new(n));
        } else {
            b.eps(h.1, rule_stop[i]);
        }
        prog.push(RuleProg {
            start: b.rule_start[i],
            stop: rule_stop[i],
            leftrec: r.leftrec,
            choice,
            alts,
            loop_,
        });
    }
    if g.is_lexer {
        for (i, r) in g.rules.iter().enumerate() {
            if !r.fragment {
                let s = b.rule_start[i];
                b.eps(mode_start[r.mode], s);
            }
        }
    }
    // renumber live states
    let mut map = vec![usize::MAX; b.states.len()];
    let mut live = vec![];
    for (i, s) in b.states.iter().enumerate() {
        if !s.dead {
            map[i] = live.len();
            live.push(s.clone());
        }
    }
    for s in live.iter_mut() {
        if matches!(s.ty, S_BLOCK_START | S_PLUS_BLOCK_START | S_STAR_BLOCK_START | S_LOOP_END) {
            s.extra = map[s.extra];
        }
        for e in s.edges.iter_mut() {
            e.target = map[e.target];
            if e.ty == T_RULE {
                e.follow = map[e.follow];
            }
        }
    }
    fn remap(ns: &mut Vec<N>, m: &[usize]) {
        for n in ns {
            remap1(n, m)
        }
    }
    fn remap1(n: &mut N, m: &[usize]) {
        match n {
            N::Tok { st, .. }
            | N::Set { st, .. }
            | N::Wild { st }
            | N::Rule { st, .. }
            | N::Pred { st, .. }
            | N::Prec { st, .. }
            | N::Act { st, .. } => *st = m[*st],
            N::Block { st, alts, .. } | N::Opt { st, alts, .. } => {
                *st = m[*st];
                for a in alts {
                    remap(a, m)
                }
            }
            N::Star { st, lb, body, .. } | N::Plus { st, lb, body, .. } => {
                *st = m[*st];
                *lb = m[*lb];
                body.st = m[body.st];
                for a in &mut body.alts {
                    remap(a, m)
                }
            }
        }
    }
    for p in prog.iter_mut() {
        p.start = map[p.start];
        p.stop = map[p.stop];
        if let Some((s, _)) = &mut p.choice {
            *s = map[*s]
        }
        for a in &mut p.alts {
            remap(a, &map)
        }
        if let Some(l) = &mut p.loop_ {
            remap1(l, &map)
        }
    }
    let atn = Atn {
        decisions: b.decisions.iter().map(|d| map[*d]).collect(),
        rule_start: b.rule_start.iter().map(|d| map[*d]).collect(),
        rule_stop: rule_stop.iter().map(|d| map[*d]).collect(),
        mode_start: mode_start.iter().map(|d| map[*d]).collect(),
        states: live,
    };
    let serialized = serialize(g, &atn);
    Compiled { g: g.clone(), atn, prog, serialized }
}

/// Serialization as in ANTLR 4.8 (ATNSerializer), words are 16 bit.
pub fn serialize_words(g: &Grammar, a: &Atn) -> Vec<i32> {
    let mut w: Vec<i32> = vec![];
    w.push(if g.is_lexer { 0 } else { 1 });
    w.push(g.max_tok);
    w.push(a.states.len() as i32);
    let mut ng = vec![];
    let mut prec = vec![];
    for (i, s) in a.states.iter().enumerate() {
        w.push(s.ty);
        w.push(if s.rule < 0 { 0xFFFF } else { s.rule });
        if matches!(s.ty, S_BLOCK_START | S_PLUS_BLOCK_START | S_STAR_BLOCK_START | S_LOOP_END) {
            w.push(s.extra as i32);
        }
        if s.nongreedy {
            ng.push(i as i32);
        }
        if s.ty == S_RULE_START && s.rule >= 0 && g.rules[s.rule as usize].leftrec {
            prec.push(i as i32);
        }
    }
    w.push(ng.len() as i32);
    w.extend(ng);
    w.push(prec.len() as i32);
    w.extend(prec);
    w.push(g.rules.len() as i32);
    for (i, r) in g.rules.iter().enumerate() {
        w.push(a.rule_start[i] as i32);
        if g.is_lexer {
            w.push(if r.fragment { 0 } else { r.ttype & 0xFFFF });
        }
    }
    w.push(a.mode_start.len() as i32);
    for m in &a.mode_start {
        w.push(*m as i32);
    }
    // sets: bmp first, then smp
    let mut bmp: Vec<Vec<(i32, i32)>> = vec![];
    let mut smp: Vec<Vec<(i32, i32)>> = vec![];
    for s in &a.states {
        for e in &s.edges {
            if e.ty == T_SET || e.ty == T_NOTSET {
                let is_smp = e.set.iter().any(|x| x.1 > 0xFFFF);
                let v = if is_smp { &mut smp } else { &mut bmp };
                if !v.contains(&e.set) {
                    v.push(e.set.clone());
                }
            }
        }
    }
    let mut index: BTreeMap<Vec<(i32, i32)>, i32> = BTreeMap::new();
    for (k, group) in [&bmp, &smp].iter().enumerate() {
        w.push(group.len() as i32);
        for s in group.iter() {
            let n = index.len() as i32;
            index.insert(s.clone(), n);
            let has_eof = s.iter().any(|x| x.0 <= -1 && x.1 >= -1);
            let iv: Vec<(i32, i32)> = s
                .iter()
                .filter(|x| x.1 >= 0)
                .map(|x| (x.0.max(0), x.1))
                .collect();
            w.push(iv.len() as i32);
            w.push(has_eof as i32);
            for (x, y) in iv {
                for v in [x, y] {
                    w.push(v & 0xFFFF);
                    if k == 1 {
                        w.push(v >> 16);
                    }
                }
            }
        }
    }
    let mut edges = vec![];
    for (i, s) in a.states.iter().enumerate() {
        if s.ty == S_RULE_STOP {
            continue;
        }
        for e in &s.edges {
            let (trg, a1, a2, a3) = match e.ty {
                T_RULE => (e.follow as i32, e.target as i32, e.a2, e.a3),
                T_SET | T_NOTSET => (e.target as i32, index[&e.set], 0, 0),
                _ => (e.target as i32, e.a1, e.a2, e.a3),
            };
            edges.push([i as i32, trg, e.ty, a1, a2, a3]);
        }
    }
    w.push(edges.len() as i32);
    for e in edges {
        w.extend(e);
    }
    w.push(a.decisions.len() as i32);
    for d in &a.decisions {
        w.push(*d as i32);
    }
    if g.is_lexer {
        w.push(g.lex_actions.len() as i32);
        for x in &g.lex_actions {
            let (t, a, b) = match x {
                LexAct::Channel(c) => (0, *c, 0),
                LexAct::Custom(r, a) => (1, *r, *a),
                LexAct::Mode(m) => (2, *m, 0),
                LexAct::More => (3, 0, 0),
                LexAct::PopMode => (4, 0, 0),
                LexAct::PushMode(m) => (5, *m, 0),
                LexAct::Skip => (6, 0, 0),
                LexAct::Type(t) => (7, *t & 0xFFFF, 0),
            };
            w.extend([t, a & 0xFFFF, b & 0xFFFF]);
        }
    }
    w
}

pub fn words_to_string(words: &[i32]) -> String {
    let mut s = String::new();
    s.push('\u{3}');
    // ADDED_UNICODE_SMP 59627784-3BE5-417A-B9EB-8131A7286089, little endian words, +2
    let uuid: [u16; 8] = [0x6089, 0xA728, 0x8131, 0xB9EB, 0x417A, 0x3BE5, 0x7784, 0x5962];
    let mut push = |v: i32| {
        let mut c = ((v + 2) & 0xFFFF) as u32;
        if (0xD800..=0xDFFF).contains(&c) {
            c += 0x3000;
        }
        s.push(char::from_u32(c).unwrap());
    };
    for u in uuid {
        push(u as i32)
    }
    for w in words {
        push(*w)
    }
    s
}

pub fn serialize(g: &Grammar, a: &Atn) -> String {
    words_to_string(&serialize_words(g, a))
}

// ------------------------------------------------------------ pretty printing (for replays)
pub fn show_alts(g: &Grammar, alts: &[Alt]) -> String {
    alts.iter()
        .map(|a| a.iter().map(|e| show(g, e)).collect::<Vec<_>>().join(" "))
        .collect::<Vec<_>>()
        .join(" | ")
}
fn show_sym(g: &Grammar, t: i32) -> String {
    if t == -1 {
        "EOF".into()
    } else if g.is_lexer {
        match char::from_u32(t as u32) {
            Some(c) if c.is_ascii_graphic() => format!("'{}'", c),
            _ => format!("'\\u{{{:x}}}'", t),
        }
    } else {
        format!("T{}", t)
    }
}
fn show_set(g: &Grammar, s: &[(i32, i32)]) -> String {
    s.iter()
        .map(|(a, b)| {
            if a == b {
                show_sym(g, *a)
            } else {
                format!("{}-{}", show_sym(g, *a), show_sym(g, *b))
            }
        })
        .collect::<Vec<_>>()
        .join(",")
}
pub fn show(g: &Grammar, e: &El) -> String {
    let q = |b: &bool| if *b { "" } else { "?" };
    match e {
        El::Tok(t) => show_sym(g, *t),
        El::Range(a, b) => format!("[{}]", show_set(g, &[(*a, *b)])),
        El::Set(s) => format!("[{}]", show_set(g, s)),
        El::NotSet(s) => format!("~[{}]", show_set(g, s)),
        El::Wild => ".".into(),
        El::Rule(r, p) => {
            if *p > 0 {
                format!("{}<{}>", g.rules[*r].name, p)
            } else {
                g.rules[*r].name.clone()
            }
        }
        El::Block(a) => format!("({})", show_alts(g, a)),
        El::Opt(a, gr) => format!("({})?{}", show_alts(g, a), q(gr)),
        El::Star(a, gr) => format!("({})*{}", show_alts(g, a), q(gr)),
        El::Plus(a, gr) => format!("({})+{}", show_alts(g, a), q(gr)),
        El::Pred(i) => format!("{{p{}}}?", i),
        El::Act(i) => format!("{{a{}}}", i),
        El::Prec(p) => format!("{{prec {}}}?", p),
    }
}
pub fn show_grammar(g: &Grammar) -> String {
    let mut s = String::new();
    for r in &g.rules {
        if g.is_lexer {
            s += &format!(
                "{}{}[mode {}, type {}] : {} ;\n",
                if r.fragment { "fragment " } else { "" },
                r.name,
                r.mode,
                r.ttype,
                show_alts(g, &r.alts)
            );
        } else {
            s += &format!("{} : {} ;", r.name, show_alts(g, &r.alts));
            for (p, a) in &r.ops {
                s += &format!(" <op prec {}> {}", p, show_alts(g, &[a.clone()]));
            }
            s += "\n";
        }
    }
    if g.is_lexer && !g.lex_actions.is_empty() {
        s += &format!("lexer actions: {:?}\n", g.lex_actions);
    }
    s
}
impl Grammar {
    pub fn parser(rules: Vec<RuleDef>, max_tok: i32) -> Grammar {
        Grammar { is_lexer: false, rules, max_tok, modes: 0, lex_actions: vec![] }
    }
}
