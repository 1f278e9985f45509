//! What the smaller engines share.

use std::path::PathBuf;
use std::rc::Rc;

use crate::dev::{self, Caught};
use crate::geo::{Geo, GEOS};
use crate::rng::hash2;
use crate::scenario::{Op, Scn};
use crate::seam::{self, Seam, SeamRef};
use crate::stats::Stats;
use crate::world::{Stop, R};

pub struct Sim {
    pub geo: Geo,
    pub seam: SeamRef,
    pub stats: Stats,
    pub step_no: usize,
    pub worker: usize,
    pub log: Option<Vec<String>>,
}

impl Sim {
    pub fn new(scn: &Scn, worker: usize, trace: bool) -> Sim {
        let seam: SeamRef = Rc::new(std::cell::RefCell::new(Seam::default()));
        seam::install(&seam);
        Sim {
            geo: GEOS[scn.cfg.geo as usize % GEOS.len()],
            seam,
            stats: Stats::default(),
            step_no: 0,
            worker,
            log: if trace { Some(vec![]) } else { None },
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(ref mut l) = self.log {
            l.push(f());
        }
    }

    pub fn fail<T>(&self, class: &str, msg: String) -> R<T> {
        Err(Stop::Violation { class: class.to_string(), msg: format!("step {}: {}", self.step_no, msg) })
    }

    pub fn caught<T>(&self, r: Result<T, Caught>) -> R<T> {
        match r {
            Ok(v) => Ok(v),
            Err(c) => {
                self.seam.borrow_mut().armed = false;
                match c {
                    Caught::Panic(m) => self.fail("panic", format!("panic: {}", m)),
                    Caught::Budget => self.fail("endless", "operation does not end: too many sector accesses".into()),
                }
            }
        }
    }

    pub fn arm(&self, budget: u64) {
        let mut s = self.seam.borrow_mut();
        s.op_deltas.clear();
        s.accesses = 0;
        s.fired = 0;
        s.budget = budget;
        s.armed = true;
    }

    pub fn disarm(&self) {
        self.seam.borrow_mut().armed = false;
    }

    pub fn path(&self, ext: &str) -> PathBuf {
        dev::scratch().join(format!("w{}{}", self.worker, ext))
    }

    pub fn trace(&mut self, op: &Op, outcome: u64) {
        self.stats.trace = hash2(self.stats.trace, hash2(op.k as u64, outcome));
    }

    /// Close the run's books.
    pub fn done(mut self) -> (Stats, Vec<String>) {
        let s = self.seam.borrow();
        self.stats.add("sector accesses", s.total_accesses);
        self.stats.add("fault: read error", s.fired_total[0]);
        self.stats.add("fault: write error", s.fired_total[1]);
        self.stats.add("fault: sync error", s.fired_total[2]);
        drop(s);
        seam::uninstall();
        (std::mem::take(&mut self.stats), self.log.take().unwrap_or_default())
    }
}
