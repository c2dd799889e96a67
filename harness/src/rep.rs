//! Accumulates what the monitors observed.
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Rep {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viol: Vec<String>,
    /// listed (known) findings that were seen, by key
    pub known: Vec<(String, String)>,
    pub verbose: bool,
    pub thorough: bool,
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
impl Rep {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn one(&mut self, k: &str) {
        self.add(k, 1)
    }
    /// one evaluation of the property; `key` identifies the behaviour that was exercised
    pub fn eval(&mut self, key: &str) {
        self.add("evaluations", 1);
        self.distinct.insert(hash(key));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, msg: String) {
        if self.verbose {
            println!("VIOLATED: {}", msg);
        }
        if self.viol.len() < 5 {
            self.viol.push(msg);
        }
    }
}
