//! Plain (lifetime free) records of what an execution of the code under test did.
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq)]
pub enum TNode {
    Rule { r: usize, label: isize, start: isize, stop: isize, kids: Vec<TNode> },
    Tok { idx: isize, ty: isize },
    Err { idx: isize, ty: isize, text: String },
}
impl TNode {
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a TNode>) {
        match self {
            TNode::Rule { kids, .. } => kids.iter().for_each(|k| k.leaves(out)),
            _ => out.push(self),
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            TNode::Rule { kids, .. } => 1 + kids.iter().map(|k| k.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    /// (r k k k) rendering without positions of rules
    pub fn show(&self) -> String {
        match self {
            TNode::Rule { r, kids, .. } => {
                let mut s = format!("(r{}", r);
                for k in kids {
                    s.push(' ');
                    s += &k.show();
                }
                s.push(')');
                s
            }
            TNode::Tok { idx, ty } => format!("{}@{}", ty, idx),
            TNode::Err { idx, ty, text } => format!("!{}@{}:{}", ty, idx, text),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ErrEv {
    /// token index of the offending token (-2 = none)
    pub tok: isize,
    pub line: isize,
    pub col: isize,
    pub msg: String,
    pub kind: &'static str,
    /// expected token set if the error carries one
    pub expected: Option<Vec<isize>>,
    /// input position of the stream when reported
    pub at: isize,
    /// ATN state and call stack (states of the rule references, outermost first)
    pub state: isize,
    pub stack: Vec<usize>,
    /// ATN state named by the error itself
    pub off_state: isize,
    /// call stacks with which the parser synchronised in that state
    pub sync_stacks: Vec<Vec<usize>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Diag {
    Full { dec: isize, start: isize, stop: isize, alts: Vec<usize> },
    Ambig { dec: isize, start: isize, stop: isize, exact: bool, alts: Vec<usize> },
    Sens { dec: isize, start: isize, stop: isize, alt: isize },
    Choice { dec: isize, pos: isize, alt: isize },
    Error { tok: isize },
}

/// listener / walker / visitor events. Rule events carry (rule, start token)
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    EnterEvery(usize),
    Enter(usize),
    Exit(usize),
    ExitEvery(usize),
    Term(isize, isize),
    Err(isize, isize),
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// "ok", or the kind of the error which ended the parse
    pub result: String,
    pub tree: Option<TNode>,
    pub lisp: String,
    pub text: String,
    pub errors: Vec<ErrEv>,
    pub diags: Vec<Diag>,
    pub events: Vec<(usize, Ev)>,
    pub walk: Vec<Ev>,
    pub visit: Vec<Ev>,
    /// (decision, token index, alternative)
    pub choices: Vec<(usize, isize, isize)>,
    /// predictions started: decision, position, result if there is one
    pub tries: Vec<(usize, isize, Option<isize>)>,
    /// last token index each of these looked at
    pub looked: Vec<isize>,
    /// violated structural expectations, found while converting the tree
    pub issues: Vec<String>,
    pub final_index: isize,
    pub ctx_left: bool,
    pub stream_ops: u64,
    pub sempreds: u64,
    pub budget_exceeded: bool,
    /// positions the stream was consumed at, in order
    pub consumed: Vec<isize>,
    pub inner_error: String,
    /// rule invocations which failed before an alternative was entered
    pub abandoned: u64,
    /// operators of left recursive rules which failed before an alternative was chosen
    pub left_twice: u64,
}

#[derive(Default)]
pub struct Log {
    pub errors: RefCell<Vec<ErrEv>>,
    pub diags: RefCell<Vec<Diag>>,
    pub events: RefCell<Vec<(usize, Ev)>>,
    pub choices: RefCell<Vec<(usize, isize, isize)>>,
    pub tries: RefCell<Vec<(usize, isize, Option<isize>)>>,
    pub looked: RefCell<Vec<isize>>,
    pub horizon: Cell<isize>,
    pub consumed: RefCell<Vec<isize>>,
    pub ops: Cell<u64>,
    pub budget: Cell<u64>,
    pub sempreds: Cell<u64>,
    pub abandoned: Cell<u64>,
    pub left_twice: Cell<u64>,
    pub stack: RefCell<Vec<usize>>,
    pub syncs: RefCell<Vec<(isize, isize, Vec<usize>)>>,
    pub issues: RefCell<Vec<String>>,
}

pub const BUDGET_MSG: &str = "VH-STEP-BUDGET-EXCEEDED";

/// Schedule perturbation and observation for concurrent workloads: a thread taking part registers
/// itself; at every point it draws a ticket (a relaxed counter, which orders nothing) and sometimes
/// lets other threads go first.
pub struct Sched {
    pub rng: crate::rng::Rng,
    pub counter: std::sync::Arc<std::sync::atomic::AtomicU64>,
    pub tickets: Vec<u64>,
}
thread_local! {
    pub static SCHED: RefCell<Option<Sched>> = RefCell::new(None);
}
pub fn sched_point() {
    SCHED.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            let t = s.counter.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if s.tickets.len() < 4000 {
                s.tickets.push(t);
            }
            match s.rng.below(64) {
                0..=3 => std::thread::yield_now(),
                4 => std::thread::sleep(std::time::Duration::from_micros(s.rng.below(60) as u64)),
                5..=8 => {
                    for _ in 0..s.rng.below(2000) {
                        std::hint::spin_loop()
                    }
                }
                _ => {}
            }
        }
    })
}

impl Log {
    pub fn tick(&self) {
        sched_point();
        let n = self.ops.get() + 1;
        self.ops.set(n);
        if n > self.budget.get() {
            panic!("{}", BUDGET_MSG);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TokSpec {
    pub ty: i32,
    pub ch: isize,
    pub text: String,
    pub start: isize,
    pub stop: isize,
    pub line: isize,
    pub col: isize,
}
pub fn toks_from_types(tys: &[i32]) -> Vec<TokSpec> {
    let mut pos = 0;
    tys.iter()
        .map(|t| {
            let text = format!("t{}_", t);
            let l = text.len() as isize;
            let s = TokSpec {
                ty: *t,
                ch: 0,
                text,
                start: pos,
                stop: pos + l - 1,
                line: 1,
                col: pos,
            };
            pos += l;
            s
        })
        .collect()
}
