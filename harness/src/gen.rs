//! Random grammars and inputs.
use crate::gram::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct GOpts {
    pub max_rules: usize,
    pub min_tok: usize,
    pub max_tok: usize,
    pub depth: usize,
    pub preds: bool,
    pub nongreedy: bool,
    pub sets: bool,
    pub leftrec: bool,
    pub acts: bool,
    /// operators of left recursive rules may be other tokens too
    pub loose: bool,
    /// decisions may need context
    pub ctxdep: bool,
    /// the first rule is one like the others: without EOF, it may be called
    pub open: bool,
}
impl Default for GOpts {
    fn default() -> Self {
        GOpts {
            max_rules: 5,
            min_tok: 2,
            max_tok: 4,
            depth: 2,
            preds: false,
            nongreedy: true,
            sets: true,
            leftrec: false,
            acts: false,
            ctxdep: true,
            loose: false,
            open: false,
        }
    }
}

struct G<'a> {
    rng: &'a mut Rng,
    o: GOpts,
    nt: i32,
    rules: usize,
    nullable: Vec<bool>,
    /// next fresh token
    fresh: i32,
    npred: i32,
    /// operators of the left recursive rule
    lr_ops: Vec<El>,
    cur: usize,
    /// rule index of the left recursive rule
    lr: Option<usize>,
    /// helper rules, numbered from `rules` on
    extra: Vec<RuleDef>,
}

fn nullable_alt(a: &Alt, nl: &[bool]) -> bool {
    a.iter().all(|e| nullable(e, nl))
}
pub fn nullable(e: &El, nl: &[bool]) -> bool {
    match e {
        El::Tok(_) | El::Range(..) | El::Set(_) | El::NotSet(_) | El::Wild => false,
        El::Rule(r, _) => nl[*r],
        El::Block(a) | El::Plus(a, _) => a.iter().any(|x| nullable_alt(x, nl)),
        El::Opt(..) | El::Star(..) => true,
        El::Pred(_) | El::Act(_) | El::Prec(_) => true,
    }
}

impl<'a> G<'a> {
    fn tok(&mut self) -> El {
        El::Tok(1 + self.rng.below(self.nt as usize) as i32)
    }
    fn term(&mut self) -> El {
        if self.o.sets && self.rng.chance(1, 8) {
            let n = 1 + self.rng.below(2);
            let mut s = vec![];
            for _ in 0..n {
                let a = 1 + self.rng.below(self.nt as usize) as i32;
                let b = (a + self.rng.below(2) as i32).min(self.nt);
                s.push((a, b));
            }
            s.sort();
            // disjoint, non adjacent, as the ANTLR tool writes them
            let mut v: Vec<(i32, i32)> = vec![];
            for (a, b) in s {
                match v.last_mut() {
                    Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                    _ => v.push((a, b)),
                }
            }
            let all = v.len() == 1 && v[0] == (1, self.fresh.max(self.nt));
            match self.rng.below(5) {
                0 if !all => El::NotSet(v),
                1 => El::Wild,
                _ => El::Set(v),
            }
        } else {
            self.tok()
        }
    }
    /// `safe`: no recursion allowed. `consumed`: something was consumed before in this alt
    fn alt(&mut self, depth: usize, safe: bool, consumed: bool, nonnull: bool) -> Alt {
        let n = match self.rng.below(10) {
            0 => 0,
            1..=3 => 1,
            4..=7 => 2,
            _ => 3,
        };
        let mut v: Alt = vec![];
        let mut cons = consumed;
        let mut self_cons = false;
        for _ in 0..n {
            let e = self.el(depth, safe, cons);
            if !nullable(&e, &self.nullable) {
                cons = true;
                self_cons = true;
            }
            v.push(e);
        }
        if nonnull && !self_cons {
            let t = self.term();
            let i = if v.is_empty() { 0 } else { self.rng.below(v.len() + 1) };
            v.insert(i, t);
        }
        if self.o.preds && self.rng.chance(1, 4) {
            let i = self.rng.below(v.len() + 1);
            let e = El::Pred(self.pred_idx());
            v.insert(i, e);
        }
        if self.o.acts && self.rng.chance(1, 4) {
            let i = self.rng.below(v.len() + 1);
            v.insert(i, El::Act(0));
        }
        v
    }
    fn alts(&mut self, depth: usize, safe: bool, consumed: bool, nonnull: bool) -> Vec<Alt> {
        // at most one nullable alternative: prediction explores all empty paths (inherent to ALL(*))
        let n = 1 + self.rng.below(3);
        let mut nn = nonnull;
        (0..n)
            .map(|_| {
                let a = self.alt(depth, safe, consumed, nn);
                nn |= nullable_alt(&a, &self.nullable);
                a
            })
            .collect()
    }
    fn el(&mut self, depth: usize, safe: bool, cons: bool) -> El {
        let k = self.rng.below(20);
        if k < 8 || depth >= self.o.depth && k >= 14 {
            return self.term();
        }
        let gr = !self.o.nongreedy || !self.rng.chance(1, 6);
        match k {
            8..=13 => {
                // rule reference
                let lo = self.cur + 1;
                let any = cons && !safe && self.rng.chance(1, 3);
                if any {
                    let r = self.rng.below(self.rules);
                    if r > 0 || self.o.open {
                        return El::Rule(r, 0);
                    }
                }
                if lo < self.rules {
                    let r = lo + self.rng.below(self.rules - lo);
                    El::Rule(r, 0)
                } else {
                    self.term()
                }
            }
            14 | 15 => {
                let a = self.alts(depth + 1, safe, cons, false);
                if self.o.preds && self.fresh + 2 < 40 {
                    return self.pred_block(depth, safe);
                }
                El::Block(a)
            }
            16 | 17 => El::Opt(self.alts(depth + 1, safe, cons, true), gr),
            18 => El::Star(self.alts(depth + 1, safe, cons, true), gr),
            _ => El::Plus(self.alts(depth + 1, safe, cons, true), gr),
        }
    }
    /// M ( {p}? X | {q}? X | Y ) E   with tokens M and E which occur nowhere else
    fn pred_block(&mut self, _depth: usize, _safe: bool) -> El {
        self.fresh += 1;
        let m = self.fresh;
        self.fresh += 1;
        let e = self.fresh;
        if let (Some(lr), true) = (self.lr, self.rng.chance(1, 2) && !self.lr_ops.is_empty()) {
            return self.op_after_expr(lr, m, e);
        }
        match self.rng.below(4) {
            0 => return self.pred_after_exit(m, e),
            1 => return self.pred_loop(m, e),
            _ => {}
        }
        let n = 2 + self.rng.below(3);
        let x: Alt = (0..1 + self.rng.below(2)).map(|_| self.tok()).collect();
        let mut alts = vec![];
        for _ in 0..n {
            let mut a = vec![];
            if self.rng.chance(3, 4) {
                a.push(El::Pred(self.pred_idx()));
                if self.rng.chance(1, 5) {
                    a.push(El::Pred(self.pred_idx()));
                }
                self.npred += 1;
            }
            if self.rng.chance(3, 4) {
                a.extend(x.clone());
            } else {
                a.push(self.tok());
                if self.rng.chance(1, 2) {
                    a.push(El::Star(vec![vec![self.tok()]], true));
                }
            }
            // the predicate may also be in a rule which is called first
            for _ in 0..self.rng.below(3) {
                if self.rng.chance(1, 2) {
                    let keep = self.rng.below(a.len() + 1);
                    let tail = a.split_off(keep);
                    // (a head which consumes something would hide the predicate)
                    let mut alt = a;
                    let r = if self.rng.chance(1, 2) {
                        alt.extend(tail);
                        self.helper(vec![alt]);
                        vec![]
                    } else {
                        self.helper(vec![alt]);
                        tail
                    };
                    a = vec![El::Rule(self.rules + self.extra.len() - 1, 0)];
                    a.extend(r);
                }
            }
            alts.push(a);
        }
        El::Block(vec![vec![El::Tok(m), El::Block(alts), El::Tok(e)]])
    }
    /// M expr op? E   where the operator may also belong to the expression, depending on predicates
    fn op_after_expr(&mut self, lr: usize, m: i32, e: i32) -> El {
        let i = self.rng.below(self.lr_ops.len());
        let t = self.lr_ops[i].clone();
        let mut a = vec![El::Tok(m), El::Rule(lr, 0)];
        let tail = match self.rng.below(3) {
            0 => vec![t],
            1 if self.o.ctxdep => vec![t, El::Rule(lr, 0)],
            _ => vec![t.clone(), t],
        };
        match self.rng.below(3) {
            0 => a.extend(tail),
            1 => a.push(El::Opt(vec![tail], true)),
            _ => a.push(El::Star(vec![tail], true)),
        }
        a.push(El::Tok(e));
        El::Block(vec![a])
    }
    fn helper(&mut self, alts: Vec<Alt>) -> El {
        let i = self.rules + self.extra.len();
        self.extra.push(RuleDef::new(&format!("r{}", i), alts));
        El::Rule(i, 0)
    }
    fn pred_idx(&mut self) -> i32 {
        let c = if self.rng.chance(1, 6) && self.o.ctxdep { 12 } else { 0 };
        let p = if self.rng.chance(1, 3) { 6 } else { 0 };
        self.rng.below(6) as i32 + c + p
    }
    fn some_preds(&mut self) -> Alt {
        (0..1 + self.rng.below(4) / 3).map(|_| El::Pred(self.pred_idx())).collect()
    }
    /// M n ( {p}? X ... | ... ) E   n : X?? ;  the decision of n meets the predicate after its end
    fn pred_after_exit(&mut self, m: i32, e: i32) -> El {
        let x = self.tok();
        let y = if self.rng.chance(1, 2) { x.clone() } else { self.tok() };
        let gr = self.rng.chance(1, 2);
        let n = if self.rng.chance(1, 2) {
            El::Opt(vec![vec![x.clone()]], gr)
        } else {
            El::Star(vec![vec![x.clone()]], gr)
        };
        let n = match self.rng.below(3) {
            0 => n,
            1 => self.helper(vec![vec![n]]),
            _ => {
                let h = self.helper(vec![vec![n]]);
                self.helper(vec![vec![h]])
            }
        };
        let mut alts = vec![];
        for _ in 0..2 + self.rng.below(2) {
            let mut a = if self.rng.chance(3, 4) { self.some_preds() } else { vec![] };
            for k in 0..1 + self.rng.below(2) {
                a.push(if k == 0 { x.clone() } else { y.clone() });
            }
            alts.push(if self.rng.chance(1, 3) { vec![self.helper(vec![a])] } else { a });
        }
        El::Block(vec![vec![El::Tok(m), n, El::Block(alts), El::Tok(e)]])
    }
    /// M ( {p}? X | {q}? Y X | X )* E
    fn pred_loop(&mut self, m: i32, e: i32) -> El {
        let x = self.tok();
        let y = self.tok();
        let mut alts = vec![];
        for _ in 0..1 + self.rng.below(3) {
            let mut a = if self.rng.chance(3, 4) { self.some_preds() } else { vec![] };
            match self.rng.below(3) {
                0 => a.push(x.clone()),
                1 => a.extend([y.clone(), x.clone()]),
                _ => a.extend([x.clone(), y.clone()]),
            }
            alts.push(if self.rng.chance(1, 3) { vec![self.helper(vec![a])] } else { a });
        }
        let gr = self.rng.chance(2, 3);
        let l = if self.rng.chance(1, 2) { El::Star(alts, gr) } else { El::Plus(alts, gr) };
        El::Block(vec![vec![El::Tok(m), l, El::Tok(e)]])
    }
    /// expression rule in the shape the ANTLR tool produces for left recursive rules
    fn leftrec_rule(&mut self, idx: usize) -> RuleDef {
        let mut rd = RuleDef::new(&format!("r{}", idx), vec![]);
        rd.leftrec = true;
        let mut fr = |s: &mut Self| {
            if s.o.loose && s.rng.chance(1, 2) {
                return El::Tok(1 + s.rng.below(s.nt as usize) as i32);
            }
            s.fresh += 1;
            El::Tok(s.fresh)
        };
        let nops = 1 + self.rng.below(5) as i32;
        // ANTLR: alternative number a of n total (ops + prefix + primary) has precedence n-a+1
        let mut prims: Vec<Alt> = vec![];
        let atom = fr(self);
        prims.push(vec![atom]);
        if self.rng.chance(1, 2) {
            let (a, b) = (fr(self), fr(self));
            prims.push(vec![a, El::Rule(idx, 0), b]);
        }
        let nprefix = self.rng.below(3) as i32;
        // (operators which come last have precedence 1)
        let total = nops + nprefix + self.rng.below(3) as i32;
        let mut kinds: Vec<bool> = vec![];
        for _ in 0..nops {
            kinds.push(true)
        }
        for _ in 0..nprefix {
            kinds.push(false)
        }
        self.rng.shuffle(&mut kinds);
        for (i, k) in kinds.iter().enumerate() {
            let p = total - i as i32;
            if !*k {
                let t = fr(self);
                prims.push(vec![t, El::Rule(idx, p)]);
                continue;
            }
            let right = self.rng.chance(1, 3);
            let np = if right { p } else { p + 1 };
            let a = match self.rng.below(5) {
                0..=2 => {
                    // several operator tokens on one level
                    if self.rng.chance(1, 3) {
                        self.fresh += 2;
                        vec![El::Set(vec![(self.fresh - 1, self.fresh)]), El::Rule(idx, np)]
                    } else {
                        let t = fr(self);
                        vec![t, El::Rule(idx, np)]
                    }
                }
                3 => {
                    let t = fr(self);
                    if self.rng.chance(1, 2) {
                        vec![t]
                    } else {
                        // call / index like suffix
                        let u = fr(self);
                        vec![t, El::Rule(idx, 0), u]
                    }
                }
                _ => {
                    let (t, u) = (fr(self), fr(self));
                    vec![t, El::Rule(idx, 0), u, El::Rule(idx, np)]
                }
            };
            let mut a = a;
            if self.o.preds && self.rng.chance(1, 2) {
                // an operator which also means something else, depending on predicates
                if let (Some((_, prev)), true) = (rd.ops.last(), self.rng.chance(1, 2) && self.o.ctxdep) {
                    let same: Vec<El> = prev.iter().filter(|e| matches!(e, El::Tok(_) | El::Set(_))).cloned().take(1).collect();
                    a[0] = same[0].clone();
                }
                let mut b = self.some_preds();
                b.extend(a);
                a = b;
            }
            if let Some(t) = a.iter().find(|e| matches!(e, El::Tok(_) | El::Set(_))) {
                self.lr_ops.push(t.clone());
            }
            rd.ops.push((p, a));
        }
        if self.o.loose && self.rng.chance(1, 2) {
            // r : h | r h 'b' ...   an operator which starts like an expression
            let t = self.tok();
            let h = self.helper(vec![vec![t]]);
            prims.push(vec![h.clone()]);
            let b = fr(self);
            let i = self.rng.below(rd.ops.len() + 1);
            let p = if i == 0 { total + 1 } else { rd.ops[i - 1].0 };
            let mut a = vec![h, b];
            if self.rng.chance(1, 3) {
                a.push(El::Rule(idx, p + 1));
            }
            rd.ops.insert(i, (p, a));
        }
        self.rng.shuffle(&mut prims);
        // recursion free alternative must exist, position is irrelevant
        rd.alts = prims;
        rd
    }
}

/// (always behind a token, so that no loop can match EOF forever)
fn inner_eof(a: &mut Alt, rng: &mut Rng) {
    for k in 0..a.len() {
        if k > 0 && matches!((&a[k - 1], &a[k]), (El::Tok(x), El::Tok(y)) if *x > 0 && *y > 0) && rng.chance(1, 4) {
            let t = a[k].clone();
            a[k] = match rng.below(3) {
                0 => El::Tok(-1),
                1 => El::Block(vec![vec![El::Tok(-1)], vec![t]]),
                _ => El::Block(vec![vec![t], vec![El::Tok(-1)]]),
            };
        }
        match &mut a[k] {
            El::Block(v) | El::Opt(v, _) | El::Star(v, _) | El::Plus(v, _) => {
                for a in v.iter_mut() {
                    inner_eof(a, rng);
                }
            }
            _ => {}
        }
    }
}
pub fn general(rng: &mut Rng, o: &GOpts) -> Grammar {
    let rules = 1 + rng.below(o.max_rules);
    let nt = (o.min_tok + rng.below(o.max_tok - o.min_tok + 1)) as i32;
    let lr = if o.leftrec { Some(rules) } else { None };
    let total = rules + if o.leftrec { 1 } else { 0 };
    let mut g = G {
        rng,
        o: o.clone(),
        nt,
        rules: total,
        nullable: (0..total).map(|i| Some(i) != lr).collect(),
        fresh: nt,
        npred: 0,
        lr_ops: vec![],
        cur: 0,
        lr,
        extra: vec![],
    };
    let mut defs: Vec<Option<RuleDef>> = (0..total).map(|_| None).collect();
    if let Some(i) = g.lr {
        defs[i] = Some(g.leftrec_rule(i));
    }
    for i in (0..rules).rev() {
        g.cur = i;
        let n = 1 + g.rng.below(3);
        let mut alts: Vec<Alt> = vec![];
        let mut nn = g.rng.chance(1, 2);
        for k in 0..n {
            let a = g.alt(0, k == 0, false, nn);
            nn |= nullable_alt(&a, &g.nullable);
            alts.push(a);
        }
        if let (Some(lr), true) = (g.lr, i == 0 && o.loose) {
            // expressions one after the other
            alts[0].push(El::Star(vec![vec![El::Rule(lr, 0)]], true));
        }
        if i == 0 && !o.open {
            let inner = if alts.len() == 1 { alts.pop().unwrap() } else { vec![El::Block(alts)] };
            let mut a = inner;
            a.push(El::Tok(-1));
            alts = vec![a];
        } else {
            g.nullable[i] = alts.iter().any(|a| nullable_alt(a, &g.nullable));
        }
        defs[i] = Some(RuleDef::new(&format!("r{}", i), alts));
    }
    if !o.preds && !o.leftrec && g.rng.chance(1, 8) {
        // EOF in the place of a token, as in `statement : expression (';' | EOF)`
        for d in defs.iter_mut().flatten() {
            for a in d.alts.iter_mut() {
                inner_eof(a, g.rng);
            }
        }
    }
    Grammar {
        is_lexer: false,
        rules: defs.into_iter().map(|d| d.unwrap()).chain(g.extra.into_iter()).collect(),
        max_tok: g.fresh.max(nt),
        modes: 0,
        lex_actions: vec![],
    }
}

/// LL(1) by construction: every alternative of every choice starts with a token which starts no
/// other alternative; rules start with a token which starts no alternative of a choice; recursive
/// references are closed by a pool token.
pub fn ll1(rng: &mut Rng) -> Grammar {
    let rules = 1 + rng.below(4);
    let pool = 2 + rng.below(2) as i32;
    struct L<'a> {
        rng: &'a mut Rng,
        pool: i32,
        fresh: i32,
        rules: usize,
        cur: usize,
    }
    impl<'a> L<'a> {
        fn p(&mut self) -> El {
            El::Tok(1 + self.rng.below(self.pool as usize) as i32)
        }
        fn seq(&mut self, depth: usize, safe: bool) -> Alt {
            let n = self.rng.below(3);
            let mut v = vec![];
            for _ in 0..n {
                match self.rng.below(10) {
                    0..=3 => v.push(self.p()),
                    4 | 5 => {
                        if !safe && self.rng.chance(1, 3) {
                            let r = self.rng.below(self.rules);
                            if r > 0 {
                                v.push(El::Rule(r, 0));
                                v.push(self.p());
                                continue;
                            }
                        }
                        if self.cur + 1 < self.rules {
                            let r = self.cur + 1 + self.rng.below(self.rules - self.cur - 1);
                            v.push(El::Rule(r, 0));
                        }
                    }
                    6 | 7 if depth < 2 => v.push(El::Opt(self.alts(depth, 1, safe), true)),
                    8 if depth < 2 => v.push(El::Star(self.alts(depth, 1, safe), true)),
                    9 if depth < 2 => {
                        if self.rng.chance(1, 2) {
                            v.push(El::Plus(self.alts(depth, 1, safe), true))
                        } else {
                            v.push(El::Block(self.alts(depth, 2, safe)))
                        }
                    }
                    _ => v.push(self.p()),
                }
            }
            v
        }
        fn alts(&mut self, depth: usize, min: usize, safe: bool) -> Vec<Alt> {
            let n = min + self.rng.below(2);
            (0..n)
                .map(|_| {
                    self.fresh += 1;
                    let mut a = vec![El::Tok(self.fresh)];
                    a.extend(self.seq(depth + 1, safe));
                    a
                })
                .collect()
        }
    }
    let mut l = L { rng, pool, fresh: pool, rules, cur: 0 };
    let mut defs = vec![];
    for i in 0..rules {
        l.cur = i;
        let mut r = if l.rng.chance(1, 3) && i > 0 {
            let mut a = l.alts(0, 2, false);
            // keep the rule productive without recursion
            a[0].truncate(1);
            RuleDef::new(&format!("r{}", i), a)
        } else {
            let mut a = vec![l.p()];
            a.extend(l.seq(0, true));
            a.extend(l.seq(0, true));
            RuleDef::new(&format!("r{}", i), vec![a])
        };
        if i == 0 {
            r.alts[0].push(El::Tok(-1));
        }
        defs.push(r);
    }
    Grammar {
        is_lexer: false,
        rules: defs,
        max_tok: l.fresh,
        modes: 0,
        lex_actions: vec![],
    }
}

/// LL(1) but for blocks between tokens of their own, in which predicates decide: there a decision
/// needs no more context than the fast prediction mode uses
pub fn ll1_preds(rng: &mut Rng) -> Grammar {
    let mut b = ll1(rng);
    let n = b.rules.len();
    let lr = rng.chance(1, 2);
    let total = n + lr as usize;
    let o = GOpts { preds: true, ctxdep: false, ..Default::default() };
    let mut g = G {
        rng,
        o,
        nt: 3,
        rules: total,
        nullable: vec![false; total],
        fresh: b.max_tok.max(3),
        npred: 0,
        lr_ops: vec![],
        cur: 0,
        lr: None,
        extra: vec![],
    };
    let mut last = vec![];
    if lr {
        last.push(g.leftrec_rule(n));
        let (m, e) = (g.fresh + 1, g.fresh + 2);
        g.fresh += 2;
        let x = if g.lr_ops.is_empty() || g.rng.chance(1, 4) {
            El::Block(vec![vec![El::Tok(m), El::Rule(n, 0), El::Tok(e)]])
        } else {
            g.op_after_expr(n, m, e)
        };
        let k = g.rng.below(b.rules[0].alts[0].len());
        b.rules[0].alts[0].insert(k, x);
    }
    for _ in 0..1 + g.rng.below(3) {
        let r = g.rng.below(n);
        let k = g.rng.below(b.rules[r].alts.len());
        let len = b.rules[r].alts[k].len();
        // (not in front: the first token tells the alternatives apart)
        let at = 1 + g.rng.below(len.max(1));
        let x = g.pred_block(0, true);
        let a = &mut b.rules[r].alts[k];
        let at = at.min(if r == 0 { a.len() - 1 } else { a.len() });
        a.insert(at, x);
    }
    b.rules.extend(last);
    b.rules.extend(g.extra);
    b.max_tok = g.fresh;
    b
}

// ---------------------------------------------------------------- sentences
struct S<'a> {
    g: &'a Grammar,
    rng: &'a mut Rng,
    out: Vec<i32>,
    limit: usize,
    calls: usize,
    rec: Vec<usize>,
}
impl<'a> S<'a> {
    fn deep(&self) -> bool {
        self.out.len() > self.limit || self.calls > 400
    }
    fn alts(&mut self, a: &[Alt], depth: usize) {
        let i = if self.deep() || depth > 12 { self.shortest(a) } else { self.rng.below(a.len()) };
        for e in &a[i] {
            self.el(e, depth)
        }
    }
    /// an alternative without recursion, preferring the first one
    fn shortest(&self, a: &[Alt]) -> usize {
        fn rec(e: &El) -> bool {
            match e {
                El::Rule(..) => true,
                El::Block(a) | El::Opt(a, _) | El::Star(a, _) | El::Plus(a, _) => {
                    a.iter().any(|x| x.iter().any(rec))
                }
                _ => false,
            }
        }
        a.iter().position(|x| !x.iter().any(rec)).unwrap_or(0)
    }
    fn el(&mut self, e: &El, depth: usize) {
        match e {
            El::Tok(t) => {
                if *t != -1 {
                    self.out.push(*t)
                }
            }
            El::Range(a, b) => {
                let v = self.rng.range(*a as i64, *b as i64) as i32;
                self.out.push(v)
            }
            El::Set(s) => {
                let (a, b) = *self.rng.pick(s);
                let v = self.rng.range(a as i64, b as i64) as i32;
                self.out.push(v)
            }
            El::NotSet(s) => {
                for _ in 0..30 {
                    let t = 1 + self.rng.below(self.g.max_tok as usize) as i32;
                    if !s.iter().any(|(a, b)| *a <= t && t <= *b) {
                        self.out.push(t);
                        break;
                    }
                }
            }
            El::Wild => {
                let t = 1 + self.rng.below(self.g.max_tok as usize) as i32;
                self.out.push(t)
            }
            El::Rule(r, _) => self.rule(*r, depth + 1),
            El::Block(a) => self.alts(a, depth),
            El::Opt(a, _) => {
                if !self.deep() && self.rng.chance(1, 2) {
                    self.alts(a, depth)
                }
            }
            El::Star(a, _) | El::Plus(a, _) => {
                let min = if matches!(e, El::Plus(..)) { 1 } else { 0 };
                let n = if self.deep() { min } else { min + self.rng.below(3) };
                for _ in 0..n {
                    self.alts(a, depth)
                }
            }
            El::Pred(_) | El::Act(_) | El::Prec(_) => {}
        }
    }
    fn rule(&mut self, r: usize, depth: usize) {
        self.calls += 1;
        let rd = &self.g.rules[r];
        self.rec[r] += 1;
        if self.out.len() > 400 || self.calls > 3000 {
            self.rec[r] -= 1;
            return;
        }
        if self.deep() && self.rec[r] > 1 {
            let i = self.shortest(&rd.alts);
            for e in &rd.alts[i] {
                self.el(e, depth)
            }
        } else {
            self.alts(&rd.alts, depth);
        }
        if rd.leftrec && depth < 12 {
            let n = if self.deep() { 0 } else { self.rng.below(4) };
            for _ in 0..n {
                let k = self.rng.below(rd.ops.len());
                for e in &rd.ops[k].1 {
                    self.el(e, depth)
                }
            }
        }
        self.rec[r] -= 1;
    }
}
/// token types of a (usually valid, predicates ignored) sentence, without EOF
pub fn sentence(g: &Grammar, rng: &mut Rng, limit: usize) -> Vec<i32> {
    sentence_of(g, 0, rng, limit)
}
pub fn sentence_of(g: &Grammar, start: usize, rng: &mut Rng, limit: usize) -> Vec<i32> {
    let mut s = S { g, rng, out: vec![], limit, calls: 0, rec: vec![0; g.rules.len()] };
    s.rule(start, 0);
    let mut v = s.out;
    if v.len() > limit * 4 {
        v.truncate(limit * 4);
    }
    v
}
pub fn mutate(v: &mut Vec<i32>, max_tok: i32, rng: &mut Rng) {
    let n = 1 + rng.below(3);
    for _ in 0..n {
        let t = 1 + rng.below(max_tok as usize) as i32;
        let l = v.len();
        match rng.below(6) {
            0 if l > 0 => {
                let i = rng.below(l);
                v.remove(i);
            }
            1 => {
                let i = rng.below(l + 1);
                v.insert(i, t)
            }
            2 if l > 0 => {
                let i = rng.below(l);
                v[i] = t
            }
            3 if l > 1 => {
                let i = rng.below(l - 1);
                v.swap(i, i + 1)
            }
            4 if l > 0 => {
                let i = rng.below(l);
                v.truncate(i)
            }
            _ if l > 0 => {
                let i = rng.below(l);
                let x = v[i];
                v.insert(i, x)
            }
            _ => v.push(t),
        }
    }
}
/// a mix of sentences, near misses and noise
pub fn input(g: &Grammar, rng: &mut Rng, limit: usize) -> Vec<i32> {
    match rng.below(10) {
        0..=5 => sentence(g, rng, limit),
        6..=8 => {
            let mut v = sentence(g, rng, limit);
            mutate(&mut v, g.max_tok, rng);
            v
        }
        _ => {
            let n = rng.below(8);
            (0..n).map(|_| 1 + rng.below(g.max_tok as usize) as i32).collect()
        }
    }
}
