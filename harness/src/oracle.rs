//! Reference semantics for context free grammars with ordered choice of ambiguous alternatives:
//! an alternative is *viable* at a decision if the complete remaining input can be matched after
//! taking it (with the current call stack); the reference parse takes the smallest viable
//! alternative everywhere. Implemented by plain memoised search, independent of ATN/DFA code.
use crate::gram::{Body, Compiled, N};
use crate::out::TNode;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug)]
pub enum Node {
    Match { set: Vec<(i32, i32)>, not: bool, next: usize },
    Wild { next: usize },
    Choice { dec: usize, alts: Vec<usize> },
    Call { rule: usize, prec: i32, next: usize },
    Prec { p: i32, next: usize },
    Pred { idx: i32, next: usize },
    Act { next: usize },
    Ret,
    Hole,
}

pub struct Flat {
    pub nodes: Vec<Node>,
    pub entry: Vec<usize>,
    pub max_tok: i32,
    pub preds: bool,
    /// (called rule, calling rule, place behind the call)
    pub calls: Vec<(usize, usize, usize)>,
    /// rules which end with EOF
    pub closed: Vec<bool>,
    pub no_eof: bool,
    /// the decisions between the operators of left recursive rules and their end
    pub loops: HashSet<usize>,
}
impl Flat {
    pub fn callers(&self, rule: usize) -> Vec<(usize, usize)> {
        self.calls.iter().filter(|c| c.0 == rule).map(|c| (c.1, c.2)).collect()
    }
    pub fn new(c: &Compiled) -> Flat {
        let mut f = Flat { nodes: vec![Node::Ret], entry: vec![], max_tok: c.g.max_tok, preds: false, calls: vec![], closed: vec![], no_eof: false, loops: HashSet::new() };
        for r in &c.g.rules {
            f.closed.push(!r.leftrec && r.alts.iter().all(|a| matches!(a.last(), Some(crate::gram::El::Tok(-1)))));
        }
        for (q, p) in c.prog.iter().enumerate() {
            let before = f.nodes.len();
            let mut end = 0;
            if let Some(l) = &p.loop_ {
                end = f.el(l, 0);
                if let N::Star { dec, .. } = &**l {
                    f.loops.insert(*dec);
                }
            }
            let alts: Vec<usize> = p.alts.iter().map(|a| f.seq(a, end)).collect();
            let e = match p.choice {
                Some((_, dec)) => f.add(Node::Choice { dec, alts }),
                None => alts[0],
            };
            f.entry.push(e);
            for n in before..f.nodes.len() {
                if let Node::Call { rule, next, .. } = &f.nodes[n] {
                    f.calls.push((*rule, q, *next));
                }
            }
        }
        f.no_eof = !f.nodes.iter().any(|n| matches!(n, Node::Match { set, .. } if set.iter().any(|s| s.0 <= -1)));
        f.preds = f.nodes.iter().any(|n| matches!(n, Node::Pred { .. }));
        f
    }
    fn add(&mut self, n: Node) -> usize {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    fn seq(&mut self, ns: &[N], next: usize) -> usize {
        let mut nx = next;
        for n in ns.iter().rev() {
            nx = self.el(n, nx);
        }
        nx
    }
    fn body(&mut self, b: &Body, next: usize) -> usize {
        let alts: Vec<usize> = b.alts.iter().map(|a| self.seq(a, next)).collect();
        match b.dec {
            Some(dec) => self.add(Node::Choice { dec, alts }),
            None => alts[0],
        }
    }
    fn el(&mut self, n: &N, next: usize) -> usize {
        match n {
            N::Tok { t, .. } => {
                self.add(Node::Match { set: vec![(*t, *t)], not: false, next })
            }
            N::Set { set, not, .. } => {
                self.add(Node::Match { set: set.clone(), not: *not, next })
            }
            N::Wild { .. } => self.add(Node::Wild { next }),
            N::Rule { r, p, .. } => self.add(Node::Call { rule: *r, prec: *p, next }),
            N::Block { dec, alts, .. } => {
                let a: Vec<usize> = alts.iter().map(|x| self.seq(x, next)).collect();
                if *dec == usize::MAX {
                    a[0]
                } else {
                    self.add(Node::Choice { dec: *dec, alts: a })
                }
            }
            N::Opt { dec, alts, greedy, .. } => {
                let mut a: Vec<usize> = alts.iter().map(|x| self.seq(x, next)).collect();
                if *greedy {
                    a.push(next)
                } else {
                    a.insert(0, next)
                }
                self.add(Node::Choice { dec: *dec, alts: a })
            }
            N::Star { dec, body, greedy, .. } => {
                let h = self.add(Node::Hole);
                let b = self.body(body, h);
                let alts = if *greedy { vec![b, next] } else { vec![next, b] };
                self.nodes[h] = Node::Choice { dec: *dec, alts };
                h
            }
            N::Plus { dec, body, greedy, .. } => {
                let h = self.add(Node::Hole);
                let b = self.body(body, h);
                let alts = if *greedy { vec![b, next] } else { vec![next, b] };
                self.nodes[h] = Node::Choice { dec: *dec, alts };
                b
            }
            N::Pred { idx, .. } => self.add(Node::Pred { idx: *idx, next }),
            N::Prec { p, .. } => self.add(Node::Prec { p: *p, next }),
            N::Act { .. } => self.add(Node::Act { next }),
        }
    }
    pub fn matches(&self, n: &Node, t: i32) -> bool {
        match n {
            Node::Match { set, not, .. } => {
                let i = set.iter().any(|(a, b)| *a <= t && t <= *b);
                if *not {
                    t > 0 && !i
                } else {
                    i
                }
            }
            Node::Wild { .. } => t > 0,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Frame {
    ret: usize,
    prec: i32,
    below: usize,
}
pub const STEP_LIMIT: usize = 400_000;

pub struct Oracle<'a> {
    pub f: &'a Flat,
    /// on-channel token types, ending with EOF
    pub toks: &'a [i32],
    preds: Vec<bool>,
    frames: Vec<Frame>,
    intern: HashMap<Frame, usize>,
    memo: HashMap<(usize, usize, usize, Option<i32>), bool>,
    /// stream index of every token (identity if empty)
    pub map: Vec<isize>,
    pub steps: usize,
    pub limit: usize,
    /// some decision of the last derivation has a smaller alternative which fits in another
    /// calling context
    pub fuzzy: bool,
    free: bool,
}
/// return address of an unknown caller of rule (MAX - 1 - address)
const ANY: usize = usize::MAX - 100_000;
/// one decision taken by the reference parse
#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub dec: usize,
    pub pos: usize,
    pub alt: usize,
    pub viable: Vec<usize>,
}
pub struct TooHard;
struct Reach {
    /// it is possible
    alive: bool,
    /// something tells that the rule of the decision was left (its end is known by what may follow
    /// in a caller, unless the rule is never called)
    left: bool,
    /// this can be the end of the input
    ends: bool,
}

impl<'a> Oracle<'a> {
    pub fn new(f: &'a Flat, toks: &'a [i32], preds: &[bool]) -> Oracle<'a> {
        Oracle {
            f,
            toks,
            preds: preds.to_vec(),
            frames: vec![Frame { ret: usize::MAX, prec: 0, below: 0 }],
            intern: HashMap::new(),
            memo: HashMap::new(),
            map: vec![],
            steps: 0,
            limit: STEP_LIMIT,
            fuzzy: false,
            free: false,
        }
    }
    fn push(&mut self, ret: usize, prec: i32, below: usize) -> usize {
        let fr = Frame { ret, prec, below };
        if let Some(i) = self.intern.get(&fr) {
            return *i;
        }
        self.frames.push(fr);
        let i = self.frames.len() - 1;
        self.intern.insert(fr, i);
        i
    }
    fn pred(&self, idx: i32, pos: usize) -> bool {
        let at = if self.map.is_empty() { pos as isize } else { self.map[pos.min(self.map.len() - 1)] };
        crate::interp::pred_value(&self.preds, idx as isize, at)
    }
    /// EOF can be matched any number of times (position `toks.len()`: it has been)
    fn tok(&self, pos: usize) -> i32 {
        self.toks.get(pos).copied().unwrap_or(-1)
    }
    fn after(&self, pos: usize) -> usize {
        (pos + 1).min(self.toks.len())
    }
    /// `d`: rule invocations entered since the decision, as long as nothing was consumed since;
    /// predicates behind a consumed token are out of sight (taken to be true), context dependent
    /// ones also in other invocations than that of the decision
    fn viable(&mut self, n: usize, st: usize, pos: usize, d: Option<i32>) -> Result<bool, TooHard> {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(TooHard);
        }
        let f = self.f;
        let d = if f.preds { d } else { None };
        match &f.nodes[n] {
            m @ (Node::Match { next, .. } | Node::Wild { next }) => {
                if !f.matches(m, self.tok(pos)) {
                    return Ok(false);
                }
                self.viable(*next, st, self.after(pos), None)
            }
            Node::Prec { p, next } => {
                if *p >= self.frames[st].prec {
                    self.viable(*next, st, pos, d)
                } else {
                    Ok(false)
                }
            }
            Node::Pred { idx, next } => {
                let seen = match d {
                    None => false,
                    Some(d) => (*idx / 12) % 2 == 0 || d == 0,
                };
                if !seen || self.pred(*idx, pos) {
                    self.viable(*next, st, pos, d)
                } else {
                    Ok(false)
                }
            }
            // predicates behind an action are out of sight, too
            Node::Act { next } => self.viable(*next, st, pos, None),
            Node::Call { rule, prec, next } => {
                let s = self.push(*next, *prec, st);
                self.viable(f.entry[*rule], s, pos, d.map(|d| if d >= 0 { d + 1 } else { d }))
            }
            Node::Ret => {
                // (a start rule need not end with EOF)
                if st == 0 {
                    return Ok(pos + 1 >= self.toks.len());
                }
                let fr = self.frames[st];
                self.viable(fr.ret, fr.below, pos, d.map(|d| if d < 0 { -1 } else { d - 1 }))
            }
            Node::Choice { alts, .. } => {
                if let Some(r) = self.memo.get(&(n, st, pos, d)) {
                    return Ok(*r);
                }
                let mut r = false;
                for a in alts {
                    if self.viable(*a, st, pos, d)? {
                        r = true;
                        break;
                    }
                }
                self.memo.insert((n, st, pos, d), r);
                Ok(r)
            }
            Node::Hole => unreachable!(),
        }
    }
    /// reference derivation: None if the input is not accepted
    pub fn derive(&mut self, start: usize) -> Result<Option<Vec<Dec>>, TooHard> {
        let f = self.f;
        if !self.viable(f.entry[start], 0, 0, None)? {
            return Ok(None);
        }
        let mut out = vec![];
        let (mut n, mut st, mut pos) = (f.entry[start], 0usize, 0usize);
        let mut rules = vec![start];
        // (whether EOF is matched or just met makes a difference then)
        self.fuzzy = !f.closed[start] && !f.no_eof;
        loop {
            match &f.nodes[n] {
                m @ (Node::Match { next, .. } | Node::Wild { next }) => {
                    if !f.matches(m, self.tok(pos)) {
                        return Ok(None);
                    }
                    pos = self.after(pos);
                    n = *next
                }
                Node::Prec { next, .. } | Node::Act { next } => n = *next,
                Node::Pred { idx, next } => {
                    if !self.pred(*idx, pos) {
                        return Ok(None);
                    }
                    n = *next
                }
                Node::Call { rule, prec, next } => {
                    st = self.push(*next, *prec, st);
                    rules.push(*rule);
                    n = f.entry[*rule];
                }
                Node::Ret => {
                    rules.pop();
                    if st == 0 {
                        return Ok(Some(out));
                    }
                    let fr = self.frames[st];
                    n = fr.ret;
                    st = fr.below;
                }
                Node::Choice { dec, alts } => {
                    let mut viable = vec![];
                    for (i, a) in alts.iter().enumerate() {
                        if self.viable(*a, st, pos, Some(0))? {
                            viable.push(i + 1);
                        }
                    }
                    if viable.is_empty() {
                        return Ok(None);
                    }
                    let alt = viable[0];
                    if !f.preds && !f.closed[start] && !self.fuzzy {
                        let p = self.frames[st].prec;
                        let b = self.push(usize::MAX - 1 - rules.last().unwrap(), p, 0);
                        let mut others_end = false;
                        // (what the first alternative of such a decision can begin with hides
                        // the same place in an operator around it)
                        let mut drop = vec![];
                        if f.loops.contains(dec) && alt > 1 {
                            let (mut seen, mut leaf) = (HashSet::new(), vec![]);
                            self.closure(alts[0], b, &mut seen, &mut leaf)?;
                            drop = leaf.iter().filter(|l| self.frames[l.1].ret > ANY).map(|l| l.0).collect();
                        }
                        let (mut ends, mut others) = (false, false);
                        for (k, a) in alts.iter().enumerate() {
                            let none = vec![];
                            let x = self.anywhere(*a, b, pos, if k + 1 == alt { &drop } else { &none })?;
                            if k + 1 == alt {
                                self.fuzzy |= !x.left;
                                ends = x.ends;
                            } else {
                                self.fuzzy |= k + 1 < alt && x.left;
                                others_end |= x.ends;
                                others |= x.alive;
                            }
                        }
                        // (a choice made when the end of input is a surprise depends on the history)
                        self.fuzzy |= !ends && (others_end || others && pos + 1 < self.toks.len());
                    }
                    out.push(Dec { dec: *dec, pos: pos.min(self.toks.len() - 1), alt, viable });
                    n = alts[alt - 1];
                }
                Node::Hole => unreachable!(),
            }
        }
    }
    /// number of distinct derivations, capped
    fn closure(
        &mut self,
        n: usize,
        st: usize,
        seen: &mut HashSet<(usize, usize)>,
        leaf: &mut Vec<(usize, usize)>,
    ) -> Result<(), TooHard> {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(TooHard);
        }
        if !seen.insert((n, st)) {
            return Ok(());
        }
        let f = self.f;
        match &f.nodes[n] {
            Node::Match { .. } | Node::Wild { .. } => leaf.push((n, st)),
            Node::Prec { p, next } => {
                if self.free || *p >= self.frames[st].prec {
                    self.closure(*next, st, seen, leaf)?
                }
            }
            Node::Act { next } => self.closure(*next, st, seen, leaf)?,
            Node::Pred { idx, next } => {
                // taken to be true: whether it is seen depends on where the decision is
                let _ = idx;
                self.closure(*next, st, seen, leaf)?
            }
            Node::Call { rule, prec, next } => {
                let s = self.push(*next, *prec, st);
                self.closure(f.entry[*rule], s, seen, leaf)?
            }
            Node::Ret => {
                if st == 0 {
                    leaf.push((usize::MAX, 0));
                } else {
                    let fr = self.frames[st];
                    if fr.ret > ANY {
                        leaf.push((usize::MAX, st));
                        for (q, next) in f.callers(usize::MAX - 1 - fr.ret) {
                            let b = self.push(usize::MAX - 1 - q, i32::MIN, 0);
                            self.closure(next, b, seen, leaf)?
                        }
                    } else {
                        self.closure(fr.ret, fr.below, seen, leaf)?
                    }
                }
            }
            Node::Choice { alts, .. } => {
                for a in alts {
                    self.closure(*a, st, seen, leaf)?
                }
            }
            Node::Hole => unreachable!(),
        }
        Ok(())
    }
    /// matching everything up to EOF, with an unknown caller at the bottom
    fn anywhere(&mut self, n: usize, st: usize, from: usize, drop: &[usize]) -> Result<Reach, TooHard> {
        let f = self.f;
        let mut cur = vec![(n, st)];
        for pos in from..self.toks.len() {
            let mut seen = HashSet::new();
            let mut leaf = vec![];
            // (precedences are known only where the decision is)
            self.free = pos > from;
            for (n, s) in &cur {
                if self.closure(*n, *s, &mut seen, &mut leaf).is_err() {
                    self.free = false;
                    return Err(TooHard);
                }
            }
            self.free = false;
            if pos == from {
                leaf.retain(|l| l.0 == usize::MAX || !drop.contains(&l.0) || self.frames[l.1].ret < ANY);
            }
            if pos + 1 == self.toks.len() {
                let (mut left, mut ends) = (false, false);
                for (n, s) in &leaf {
                    let mut bottom = *s;
                    while self.frames[bottom].ret < ANY {
                        bottom = self.frames[bottom].below;
                    }
                    if *n == usize::MAX {
                        let ret = self.frames[*s].ret;
                        if ret != usize::MAX && f.callers(usize::MAX - 1 - ret).is_empty() {
                            left = true;
                            ends = true;
                        }
                    } else {
                        left |= bottom != st;
                        ends |= f.matches(&f.nodes[*n], -1);
                    }
                }
                return Ok(Reach { alive: true, left, ends });
            }
            let t = self.tok(pos);
            let mut nx = vec![];
            for (n, s) in &leaf {
                if *n == usize::MAX {
                    continue;
                }
                match &f.nodes[*n] {
                    m @ (Node::Match { next, .. } | Node::Wild { next }) if f.matches(m, t) => nx.push((*next, *s)),
                    _ => {}
                }
            }
            nx.sort();
            nx.dedup();
            if nx.is_empty() {
                return Ok(Reach { alive: false, left: false, ends: false });
            }
            cur = nx;
        }
        // (EOF was matched already)
        Ok(Reach { alive: true, left: true, ends: true })
    }
    /// (k, expected): `toks[..k]` is a prefix of some sentence and `toks[..=k]` is not;
    /// `expected` are the token types that could follow `toks[..k]`. None if all tokens are fine.
    pub fn first_error(&mut self, start: usize) -> Result<Option<(usize, BTreeSet<i32>)>, TooHard> {
        let f = self.f;
        let mut cur = vec![(f.entry[start], 0usize)];
        // (a few rounds more for EOF matched repeatedly)
        for pos in 0..self.toks.len() + 4 {
            let mut seen = HashSet::new();
            let mut leaf = vec![];
            for (n, s) in &cur {
                self.closure(*n, *s, &mut seen, &mut leaf)?;
            }
            if pos + 1 >= self.toks.len() && (f.preds && pos >= self.toks.len() || leaf.iter().any(|l| l.0 == usize::MAX)) {
                return Ok(None);
            }
            leaf.retain(|l| l.0 != usize::MAX);
            let t = self.tok(pos);
            let mut nx = vec![];
            for (n, s) in &leaf {
                if f.matches(&f.nodes[*n], t) {
                    match &f.nodes[*n] {
                        Node::Match { next, .. } | Node::Wild { next } => nx.push((*next, *s)),
                        _ => {}
                    }
                }
            }
            if nx.is_empty() {
                let mut e = BTreeSet::new();
                for t in (-1..=f.max_tok).filter(|t| *t != 0) {
                    if leaf.iter().any(|(n, _)| f.matches(&f.nodes[*n], t)) {
                        e.insert(t);
                    }
                }
                return Ok(Some((pos.min(self.toks.len() - 1), e)));
            }
            nx.sort();
            nx.dedup();
            cur = nx;
        }
        Ok(None)
    }
}

/// Rebuild the parse tree described by a derivation. `map[i]` is the token index of the i-th
/// on-channel token.
pub struct Replay<'a> {
    c: &'a Compiled,
    toks: &'a [i32],
    map: &'a [isize],
    decs: &'a [Dec],
    di: usize,
    pos: usize,
    matched_eof: bool,
    labels: bool,
}
pub fn tree(
    c: &Compiled,
    toks: &[i32],
    map: &[isize],
    decs: &[Dec],
    start: usize,
    labels: bool,
) -> TNode {
    let mut r =
        Replay { c, toks, map, decs, di: 0, pos: 0, matched_eof: false, labels };
    r.rule(start)
}
impl<'a> Replay<'a> {
    fn choice(&mut self, dec: usize) -> usize {
        let d = &self.decs[self.di];
        assert_eq!(d.dec, dec, "oracle replay out of step");
        self.di += 1;
        d.alt
    }
    /// token index of LT(1)
    fn lt1(&self) -> isize {
        self.map[self.pos.min(self.map.len() - 1)]
    }
    fn ltm1(&self) -> isize {
        if self.pos == 0 {
            -1
        } else {
            self.map[self.pos.min(self.map.len()) - 1]
        }
    }
    fn rule(&mut self, r: usize) -> TNode {
        let p = &self.c.prog[r];
        let start = self.lt1();
        let mut label = -1;
        let mut kids = vec![];
        let mut alt = 1;
        if let Some((_, d)) = p.choice {
            alt = self.choice(d);
        }
        if self.labels {
            label = alt as isize;
        }
        self.seq(&p.alts[alt - 1], &mut kids);
        if let Some(l) = &p.loop_ {
            if let N::Star { dec, body, .. } = &**l {
                while self.choice(*dec) == 1 {
                    let k = match body.dec {
                        Some(d) => self.choice(d),
                        None => 1,
                    };
                    let prev = TNode::Rule {
                        r,
                        label,
                        start,
                        stop: self.ltm1(),
                        kids: std::mem::take(&mut kids),
                    };
                    kids.push(prev);
                    if self.labels {
                        label = 100 + k as isize;
                    }
                    self.seq(&body.alts[k - 1], &mut kids);
                }
            }
            return TNode::Rule { r, label, start, stop: self.ltm1(), kids };
        }
        let stop = if self.matched_eof { self.lt1() } else { self.ltm1() };
        TNode::Rule { r, label, start, stop, kids }
    }
    fn tok(&mut self, kids: &mut Vec<TNode>) {
        let t = self.toks[self.pos];
        kids.push(TNode::Tok { idx: self.map[self.pos], ty: t as isize });
        if t == -1 {
            // (it is never consumed)
            self.matched_eof = true;
        } else {
            self.pos += 1;
        }
    }
    fn body(&mut self, b: &Body, kids: &mut Vec<TNode>) {
        let k = match b.dec {
            Some(d) => self.choice(d),
            None => 1,
        };
        self.seq(&b.alts[k - 1], kids)
    }
    fn seq(&mut self, ns: &[N], kids: &mut Vec<TNode>) {
        for n in ns {
            match n {
                N::Tok { .. } | N::Set { .. } | N::Wild { .. } => self.tok(kids),
                N::Rule { r, .. } => {
                    let t = self.rule(*r);
                    kids.push(t)
                }
                N::Block { dec, alts, .. } => {
                    let a = if *dec == usize::MAX { 1 } else { self.choice(*dec) };
                    self.seq(&alts[a - 1], kids)
                }
                N::Opt { dec, alts, greedy, .. } => {
                    let a = self.choice(*dec);
                    let i = if *greedy { a } else { a - 1 };
                    if i >= 1 && i <= alts.len() {
                        self.seq(&alts[i - 1], kids)
                    }
                }
                N::Star { dec, body, greedy, .. } => {
                    let go = if *greedy { 1 } else { 2 };
                    while self.choice(*dec) == go {
                        self.body(body, kids)
                    }
                }
                N::Plus { dec, body, greedy, .. } => {
                    let go = if *greedy { 1 } else { 2 };
                    loop {
                        self.body(body, kids);
                        if self.choice(*dec) != go {
                            break;
                        }
                    }
                }
                N::Pred { .. } | N::Prec { .. } | N::Act { .. } => {}
            }
        }
    }
}
