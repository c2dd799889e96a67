//! A model of the default error strategy: drives the compiled program over a plain list of tokens.
//! Predictions (including those which failed) are taken from the observed run, everything else -
//! synchronisation, deletion and insertion of single tokens, recovery sets, when errors are
//! reported and what becomes an error node - is decided here, on the reference network.
use crate::atnsim;
use crate::gram::*;
use crate::interp::pred_value;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum MK {
    Tok(isize),
    Err(isize),
    /// conjured token of that type
    Miss(isize),
    Rule(MNode),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MNode {
    pub r: usize,
    pub kids: Vec<MK>,
    pub start: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MRep {
    /// noalt, mismatch, pred, extraneous, missing
    pub kind: &'static str,
    /// position (in tokens on channel) when it is reported
    pub at: usize,
    pub expected: Option<BTreeSet<isize>>,
}
enum X {
    NoAlt,
    Mismatch(BTreeSet<isize>),
    Pred,
    /// the model has no answer
    GiveUp(String),
}
type R<T> = Result<T, X>;
pub struct Model<'a> {
    c: &'a Compiled,
    toks: &'a [i32],
    map: &'a [isize],
    tries: &'a [(usize, isize, Option<isize>)],
    preds: &'a [bool],
    tp: usize,
    pos: usize,
    state: usize,
    stack: Vec<usize>,
    prec: Vec<isize>,
    rec: bool,
    last_err: Option<(usize, BTreeSet<usize>)>,
    nts: Option<(usize, Vec<usize>)>,
    ins: (usize, Vec<(usize, Vec<usize>)>),
    cur: MNode,
    pub reps: Vec<MRep>,
    pub counts: HashMap<&'static str, u64>,
    steps: usize,
}
impl<'a> Model<'a> {
    pub fn new(
        c: &'a Compiled,
        toks: &'a [i32],
        map: &'a [isize],
        tries: &'a [(usize, isize, Option<isize>)],
        preds: &'a [bool],
    ) -> Self {
        Model {
            c,
            toks,
            map,
            tries,
            preds,
            tp: 0,
            pos: 0,
            state: 0,
            stack: vec![],
            prec: vec![0],
            rec: false,
            last_err: None,
            nts: None,
            ins: (usize::MAX, vec![]),
            cur: MNode::default(),
            reps: vec![],
            counts: HashMap::new(),
            steps: 0,
        }
    }
    /// the tree, or why the run observed cannot be followed
    pub fn run(&mut self, start: usize) -> Result<MNode, Option<String>> {
        match self.rule(start, 0) {
            Ok(n) if self.tp == self.tries.len() => Ok(n),
            Ok(_) => Err(Some(format!("more predictions than expected: {:?}", self.tries[self.tp]))),
            Err(X::GiveUp(m)) if m.is_empty() => Err(None),
            Err(X::GiveUp(m)) => Err(Some(m)),
            Err(_) => Err(Some("error escapes the start rule".into())),
        }
    }
    fn one(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn la(&self, k: usize) -> isize {
        self.toks[(self.pos + k - 1).min(self.toks.len() - 1)] as isize
    }
    /// what can come next in the state's rule (-2: the rule can end)
    fn next(&self, state: usize) -> R<BTreeSet<isize>> {
        let (leaf, ended) =
            atnsim::closure(&self.c.atn, &[(state, vec![])], 20_000).ok_or(X::GiveUp(String::new()))?;
        let mut s = self.tokens(&leaf);
        if ended {
            s.insert(-2);
        }
        Ok(s)
    }
    fn tokens(&self, leaf: &[(usize, Vec<usize>)]) -> BTreeSet<isize> {
        (-1..=self.c.g.max_tok)
            .filter(|t| *t != 0)
            .filter(|t| leaf.iter().any(|(s, _)| self.c.atn.states[*s].edges.iter().any(|e| atnsim::matches(e, *t))))
            .map(|t| t as isize)
            .collect()
    }
    fn expected_at(&self, state: usize, stack: &[usize]) -> R<BTreeSet<isize>> {
        atnsim::expected(&self.c.atn, self.c.g.max_tok, state, stack).ok_or(X::GiveUp(String::new()))
    }
    fn expected(&self) -> R<BTreeSet<isize>> {
        self.expected_at(self.state, &self.stack)
    }
    fn expects(&self, state: usize, t: isize) -> R<bool> {
        Ok(self.expected_at(state, &self.stack)?.contains(&t))
    }
    fn report(&mut self, kind: &'static str, expected: Option<BTreeSet<isize>>) {
        if self.rec {
            return;
        }
        self.rec = true;
        self.one(kind);
        self.reps.push(MRep { kind, at: self.pos, expected });
    }
    fn matched(&mut self) {
        self.rec = false;
        self.last_err = None;
        self.nts = None;
    }
    fn consume(&mut self) {
        let k = if self.rec { MK::Err(self.map[self.pos]) } else { MK::Tok(self.map[self.pos]) };
        self.cur.kids.push(k);
        if self.toks[self.pos] != -1 {
            self.pos += 1;
        }
    }
    fn deletion(&mut self) -> R<bool> {
        if self.expects(self.state, self.la(2))? {
            let e = self.expected()?;
            self.report("extraneous", Some(e));
            self.consume();
            self.matched();
            return Ok(true);
        }
        Ok(false)
    }
    fn insertion(&mut self) -> R<bool> {
        let next = self.c.atn.states[self.state].edges[0].target;
        if !self.expects(next, self.la(1))? {
            return Ok(false);
        }
        // not in the same place twice
        if self.ins.0 != self.pos {
            self.ins = (self.pos, vec![]);
        }
        let place =
            if self.cur.start == self.pos { (self.state, vec![usize::MAX]) } else { (self.state, self.stack.clone()) };
        if self.ins.1.contains(&place) {
            self.one("insertions_refused");
            return Ok(false);
        }
        self.ins.1.push(place);
        let e = self.expected()?;
        self.report("missing", Some(e));
        Ok(true)
    }
    /// Some(type): a token of that type was made up
    fn inline(&mut self) -> R<Option<isize>> {
        if self.deletion()? {
            self.consume();
            return Ok(None);
        }
        if self.insertion()? {
            let e = self.expected()?;
            return Ok(Some(e.iter().next().copied().unwrap_or(0)));
        }
        let e = match self.nts.clone() {
            Some((s, st)) => self.expected_at(s, &st)?,
            None => self.expected()?,
        };
        Err(X::Mismatch(e))
    }
    fn recovery_set(&self) -> R<BTreeSet<isize>> {
        let mut s = BTreeSet::new();
        for c in &self.stack {
            let f = self.c.atn.states[*c].edges.iter().find(|e| e.ty == T_RULE).unwrap().follow;
            s.extend(self.next(f)?);
        }
        s.remove(&-2);
        Ok(s)
    }
    fn consume_until(&mut self, s: &BTreeSet<isize>) {
        while self.la(1) != -1 && !s.contains(&self.la(1)) {
            self.one("tokens_skipped");
            self.consume();
        }
    }
    fn recover(&mut self) -> R<()> {
        if let Some((p, st)) = &self.last_err {
            if *p == self.pos && st.contains(&self.state) {
                self.one("failsafe_consumptions");
                self.consume();
            }
        }
        let mut st = self.last_err.take().map(|x| x.1).unwrap_or_default();
        st.insert(self.state);
        self.last_err = Some((self.pos, st));
        let s = self.recovery_set()?;
        self.consume_until(&s);
        Ok(())
    }
    fn sync(&mut self, st: usize) -> R<()> {
        self.state = st;
        self.steps += 1;
        if self.steps > 20_000 {
            return Err(X::GiveUp(String::new()));
        }
        if self.rec {
            return Ok(());
        }
        let n = self.next(st)?;
        if n.contains(&self.la(1)) {
            self.nts = None;
            return Ok(());
        }
        if n.contains(&-2) {
            if self.nts.is_none() {
                self.nts = Some((st, self.stack.clone()));
            }
            return Ok(());
        }
        match self.c.atn.states[st].ty {
            S_BLOCK_START | S_PLUS_BLOCK_START | S_STAR_BLOCK_START | S_STAR_LOOP_ENTRY => {
                if !self.deletion()? {
                    return Err(X::Mismatch(self.expected()?));
                }
                self.one("deletions_at_blocks");
            }
            _ => {
                let mut e = self.expected()?;
                self.report("extraneous", Some(e.clone()));
                e.extend(self.recovery_set()?);
                self.one("loops_resynchronised");
                self.consume_until(&e);
            }
        }
        Ok(())
    }
    fn predict(&mut self, dec: usize) -> R<isize> {
        let t = match self.tries.get(self.tp) {
            Some(t) => *t,
            None => {
                return Err(X::GiveUp(format!("decision {} at token {} was not predicted", dec, self.map[self.pos])))
            }
        };
        self.tp += 1;
        if t.0 != dec || t.1 != self.map[self.pos] {
            return Err(X::GiveUp(format!(
                "prediction of decision {} at token {} where decision {} at token {} is due",
                t.0, t.1, dec, self.map[self.pos]
            )));
        }
        t.2.ok_or(X::NoAlt)
    }
    fn alts(&mut self, st: usize, dec: usize, alts: &Vec<Vec<N>>) -> R<()> {
        if dec == usize::MAX {
            return self.seq(&alts[0]);
        }
        self.sync(st)?;
        let a = self.predict(dec)?;
        if a >= 1 && (a as usize) <= alts.len() {
            self.seq(&alts[a as usize - 1])
        } else {
            Err(X::NoAlt)
        }
    }
    fn body(&mut self, b: &Body) -> R<()> {
        match b.dec {
            Some(d) => self.alts(b.st, d, &b.alts),
            None => self.seq(&b.alts[0]),
        }
    }
    fn seq(&mut self, ns: &Vec<N>) -> R<()> {
        for n in ns {
            self.el(n)?
        }
        Ok(())
    }
    fn el(&mut self, n: &N) -> R<()> {
        match n {
            N::Tok { st, t } => {
                self.state = *st;
                self.token(self.la(1) == *t as isize, true)?
            }
            N::Wild { st } => {
                self.state = *st;
                self.token(self.la(1) > 0, true)?
            }
            N::Set { st, set, not } => {
                self.state = *st;
                let la = self.la(1);
                let inset = set.iter().any(|(a, b)| la >= *a as isize && la <= *b as isize);
                let ok = if *not { la > 0 && !inset } else { inset };
                self.token(ok, false)?
            }
            N::Rule { st, r, p } => {
                self.state = *st;
                self.stack.push(*st);
                let n = self.rule(*r, *p as isize)?;
                self.stack.pop();
                self.cur.kids.push(MK::Rule(n));
            }
            N::Block { st, dec, alts } => self.alts(*st, *dec, alts)?,
            N::Opt { st, dec, alts, greedy } => {
                self.sync(*st)?;
                let a = self.predict(*dec)?;
                let i = if *greedy { a - 1 } else { a - 2 };
                if i >= 0 && (i as usize) < alts.len() {
                    self.seq(&alts[i as usize])?
                }
            }
            N::Star { st, lb, dec, body, greedy } => {
                let (go, exit) = if *greedy { (1, 2) } else { (2, 1) };
                self.sync(*st)?;
                let mut a = self.predict(*dec)?;
                while a != exit && a != 0 {
                    if a == go {
                        self.body(body)?;
                    }
                    self.sync(*lb)?;
                    a = self.predict(*dec)?;
                }
            }
            N::Plus { st, lb, dec, body, greedy } => {
                let (go, exit) = if *greedy { (1, 2) } else { (2, 1) };
                self.sync(*st)?;
                let mut a = go;
                loop {
                    if a != go {
                        return Err(X::NoAlt);
                    }
                    self.body(body)?;
                    self.sync(*lb)?;
                    a = self.predict(*dec)?;
                    if a == exit || a == 0 {
                        break;
                    }
                }
            }
            N::Pred { st, idx } => {
                self.state = *st;
                if !pred_value(self.preds, *idx as isize, self.map[self.pos]) {
                    return Err(X::Pred);
                }
            }
            N::Prec { st, p } => {
                self.state = *st;
                if (*p as isize) < *self.prec.last().unwrap() {
                    return Err(X::Pred);
                }
            }
            N::Act { .. } => {}
        }
        Ok(())
    }
    fn token(&mut self, ok: bool, node: bool) -> R<()> {
        if ok {
            self.matched();
            self.consume();
            return Ok(());
        }
        if let Some(t) = self.inline()? {
            if node {
                self.cur.kids.push(MK::Miss(t));
            }
        }
        Ok(())
    }
    fn rule(&mut self, r: usize, prec: isize) -> R<MNode> {
        let c = self.c;
        let p = &c.prog[r];
        let outer = std::mem::replace(&mut self.cur, MNode { r, kids: vec![], start: self.pos });
        self.state = p.start;
        if p.leftrec {
            self.prec.push(prec);
        }
        let x = if p.leftrec { self.lr_body(r) } else { self.rule_body(r) };
        match x {
            Ok(_) => {}
            Err(e @ X::GiveUp(_)) => return Err(e),
            Err(e) => {
                match e {
                    X::NoAlt => self.report("noalt", None),
                    X::Mismatch(e) => self.report("mismatch", Some(e)),
                    _ => self.report("pred", None),
                }
                self.recover()?;
            }
        }
        if p.leftrec {
            self.prec.pop();
        }
        Ok(std::mem::replace(&mut self.cur, outer))
    }
    fn rule_body(&mut self, r: usize) -> R<()> {
        let c = self.c;
        let p = &c.prog[r];
        let mut alt = 1isize;
        if let Some((st, d)) = p.choice {
            self.sync(st)?;
            alt = self.predict(d)?;
        }
        if alt < 1 || alt as usize > p.alts.len() {
            return Ok(());
        }
        self.seq(&p.alts[alt as usize - 1])
    }
    fn lr_body(&mut self, r: usize) -> R<()> {
        let c = self.c;
        let p = &c.prog[r];
        let mut alt = 1isize;
        if let Some((st, d)) = p.choice {
            self.sync(st)?;
            alt = self.predict(d)?;
        }
        if alt >= 1 && alt as usize <= p.alts.len() {
            self.seq(&p.alts[alt as usize - 1])?;
        }
        if let Some(N::Star { st, lb, dec, body, .. }) = p.loop_.as_deref() {
            self.sync(*st)?;
            let mut a = self.predict(*dec)?;
            while a != 2 && a != 0 {
                if a == 1 {
                    let mut k = 1isize;
                    if let Some(d) = body.dec {
                        self.sync(body.st)?;
                        k = self.predict(d)?;
                    }
                    if k >= 1 && k as usize <= body.alts.len() {
                        let start = self.cur.start;
                        let prev = std::mem::replace(&mut self.cur, MNode { r, kids: vec![], start });
                        self.cur.kids.push(MK::Rule(prev));
                        self.seq(&body.alts[k as usize - 1])?;
                    }
                }
                self.sync(*lb)?;
                a = self.predict(*dec)?;
            }
        }
        Ok(())
    }
}
