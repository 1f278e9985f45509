//! Counters of one run, and their sum over runs.

use std::collections::{BTreeMap, HashSet};

#[derive(Default, Clone)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    /// Hashes of distinct image states seen.
    pub states: HashSet<u64>,
    /// Running hash over the sequence of operations and their outcomes.
    pub trace: u64,
}

pub const MAX_STATES: usize = 4_000_000;

impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.n.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        if v > 0 {
            *self.n.entry(k).or_insert(0) += v;
        }
    }
    /// Keys starting with "max" combine by maximum.
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.n.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.n {
            if k.starts_with("max") {
                self.max(k, *v);
            } else {
                *self.n.entry(k).or_insert(0) += v;
            }
        }
        for s in &o.states {
            if self.states.len() < MAX_STATES {
                self.states.insert(*s);
            }
        }
    }
}
