//! Naive breadth first simulation of the (reference) ATN graph with explicit call stacks.
//! Only for parser grammars without predicates.
use crate::gram::*;
use std::collections::{BTreeSet, HashSet};

/// on a stack: the end of the rule a decision is in
const MARK: usize = usize::MAX;
type C = (usize, Vec<usize>);

/// terminal edges reachable without consuming; `None` stack bottom = end of start rule
pub fn closure(a: &Atn, start: &[C], limit: usize) -> Option<(Vec<C>, bool)> {
    let mut seen: HashSet<C> = HashSet::new();
    let mut todo: Vec<C> = start.to_vec();
    let mut ended = false;
    while let Some(c) = todo.pop() {
        if !seen.insert(c.clone()) {
            continue;
        }
        if seen.len() > limit {
            return None;
        }
        let (s, st) = &c;
        let state = &a.states[*s];
        if state.ty == S_RULE_STOP {
            let mut st = st.clone();
            match st.pop() {
                None => ended = true,
                Some(MARK) => todo.push((*s, st)),
                Some(r) => todo.push((r, st)),
            }
            continue;
        }
        for e in &state.edges {
            match e.ty {
                T_EPS | T_PRED | T_ACTION | T_PREC => todo.push((e.target, st.clone())),
                T_RULE => {
                    let mut st = st.clone();
                    st.push(e.follow);
                    todo.push((e.target, st));
                }
                _ => {}
            }
        }
    }
    let leaf = seen
        .into_iter()
        .filter(|(s, _)| a.states[*s].edges.iter().any(|e| terminal(e)))
        .collect();
    Some((leaf, ended))
}
fn terminal(e: &Edge) -> bool {
    matches!(e.ty, T_ATOM | T_RANGE | T_SET | T_NOTSET | T_WILD)
}
pub fn matches(e: &Edge, t: i32) -> bool {
    match e.ty {
        T_ATOM => {
            if e.a3 == 1 {
                t == -1
            } else {
                t == e.a1
            }
        }
        T_RANGE => e.a1 <= t && t <= e.a2,
        T_SET => e.set.iter().any(|(a, b)| *a <= t && t <= *b),
        T_NOTSET => t > 0 && !e.set.iter().any(|(a, b)| *a <= t && t <= *b),
        T_WILD => t > 0,
        _ => false,
    }
}
fn follow_stack(a: &Atn, calls: &[usize]) -> Vec<usize> {
    calls
        .iter()
        .map(|s| a.states[*s].edges.iter().find(|e| e.ty == T_RULE).expect("call state").follow)
        .collect()
}
/// token types which can come next in `state` with the given call stack
pub fn expected(a: &Atn, max_tok: i32, state: usize, calls: &[usize]) -> Option<BTreeSet<isize>> {
    let (leaf, ended) = closure(a, &[(state, follow_stack(a, calls))], 20_000)?;
    let mut s = BTreeSet::new();
    for t in (-1..=max_tok).filter(|t| *t != 0) {
        if leaf.iter().any(|(s, _)| a.states[*s].edges.iter().any(|e| matches(e, t))) {
            s.insert(t as isize);
        }
    }
    if ended {
        s.insert(-1);
    }
    Some(s)
}
/// first position (index into `toks`) whose token cannot be matched from `state`
pub fn death(a: &Atn, toks: &[i32], from: usize, state: usize, calls: &[usize]) -> Option<usize> {
    let mut cur = vec![(state, follow_stack(a, calls))];
    let mut work = 0;
    for pos in from..toks.len() {
        let (leaf, _) = closure(a, &cur, 5_000)?;
        work += leaf.len();
        if work > 50_000 {
            return None;
        }
        let mut nx: HashSet<C> = HashSet::new();
        for (s, st) in &leaf {
            for e in &a.states[*s].edges {
                if terminal(e) && matches(e, toks[pos]) {
                    nx.insert((e.target, st.clone()));
                }
            }
        }
        if nx.is_empty() {
            return Some(pos);
        }
        cur = nx.into_iter().collect();
    }
    Some(toks.len())
}
/// First position whose token cannot be matched from `state`, whatever the calling context is (as
/// in the fast prediction mode); `prec`: whether operators may have any precedence.
pub fn death_any(a: &Atn, toks: &[i32], from: usize, state: usize, prec: bool) -> Option<usize> {
    let mut cur: BTreeSet<C> = BTreeSet::new();
    cur.insert((state, vec![]));
    let mut work = 0;
    for pos in from..toks.len() {
        // closure
        let mut seen: HashSet<C> = HashSet::new();
        let mut todo: Vec<C> = cur.into_iter().collect();
        let mut next: BTreeSet<C> = BTreeSet::new();
        while let Some((s, st)) = todo.pop() {
            if !seen.insert((s, st.clone())) {
                continue;
            }
            work += 1;
            if work > 50_000 {
                return None;
            }
            let state = &a.states[s];
            if state.ty == S_RULE_STOP {
                let mut st = st;
                match st.pop() {
                    Some(r) => todo.push((r, st)),
                    None => {
                        for c in &a.states {
                            for e in &c.edges {
                                if e.ty == T_RULE && a.states[e.target].rule == state.rule {
                                    todo.push((e.follow, vec![]));
                                }
                            }
                        }
                        if toks[pos] == -1 {
                            return Some(toks.len());
                        }
                    }
                }
                continue;
            }
            for e in &state.edges {
                match e.ty {
                    T_PREC if !prec && pos == from => {}
                    T_EPS | T_PRED | T_ACTION | T_PREC => todo.push((e.target, st.clone())),
                    T_RULE => {
                        let mut st = st.clone();
                        st.push(e.follow);
                        if st.len() > 60 {
                            return None;
                        }
                        todo.push((e.target, st));
                    }
                    _ => {
                        if matches(e, toks[pos]) {
                            next.insert((e.target, st.clone()));
                        }
                    }
                }
            }
        }
        if next.is_empty() {
            return Some(pos);
        }
        cur = next;
    }
    Some(toks.len())
}
/// can the rule of `state` be left by matching exactly `toks[from..to]` (and possibly more of it
/// in the callers)?
pub fn leaves_rule(a: &Atn, toks: &[i32], from: usize, to: usize, state: usize, calls: &[usize]) -> Option<bool> {
    let mut st = follow_stack(a, calls);
    st.push(MARK);
    let mut cur = vec![(state, st)];
    let mut work = 0;
    for pos in from..=to {
        let (leaf, ended) = closure(a, &cur, 5_000)?;
        work += leaf.len();
        if work > 50_000 {
            return None;
        }
        if pos == to {
            return Some(ended || leaf.iter().any(|c| !c.1.contains(&MARK)));
        }
        let mut nx: HashSet<C> = HashSet::new();
        for (s, st) in &leaf {
            for e in &a.states[*s].edges {
                if terminal(e) && matches(e, toks[pos]) {
                    nx.insert((e.target, st.clone()));
                }
            }
        }
        cur = nx.into_iter().collect();
    }
    None
}
