//! One run, many runs, minimisation and replay.

use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::gen;
use crate::rng::{hash2, hash_bytes};
use crate::scenario::Scn;
use crate::stats::Stats;
use crate::world::{Stop, World};

pub struct Outcome {
    pub stop: Option<Stop>,
    pub stats: Stats,
    pub log: Vec<String>,
}

/// Execute a scenario.  A pure function of the scenario and the code under test.
pub fn execute(scn: &Scn, worker: usize, trace: bool) -> Outcome {
    // A panic that gets here was not met inside a guarded call: a handle that panics when it is
    // dropped, or an answer the harness could make no sense of.
    match crate::dev::guard(|| execute_inner(scn, worker, trace)) {
        Ok(o) => o,
        Err(c) => {
            crate::seam::uninstall();
            let m = match c {
                crate::dev::Caught::Panic(m) => m,
                crate::dev::Caught::Budget => "far too many sector accesses".into(),
            };
            Outcome {
                stop: Some(Stop::Violation { class: "panic outside a call".into(), msg: m }),
                stats: Stats::default(),
                log: vec![],
            }
        }
    }
}

fn execute_inner(scn: &Scn, worker: usize, trace: bool) -> Outcome {
    match &scn.prop[..] {
        "C10" => crate::corrupt::execute(scn, worker, trace),
        "C15" => crate::fmt::execute(scn, worker, trace),
        "C17" => crate::cli::execute(scn, worker, trace),
        "C09" => crate::ro::execute(scn, worker, trace),
        _ => {
            let mut w = match World::new(scn, worker, trace) {
                Ok(w) => w,
                Err(s) => {
                    crate::seam::uninstall();
                    return Outcome { stop: Some(s), stats: Stats::default(), log: vec![] };
                }
            };
            let stop = w.run(&scn.ops).err();
            let total = w.seam.borrow().total_accesses;
            let mut stats = std::mem::take(&mut w.stats);
            stats.add("sector accesses", total);
            let log = w.log.take().unwrap_or_default();
            drop(w);
            Outcome { stop, stats, log }
        }
    }
}

pub fn generate(prop: &str, seed: u64, thorough: bool) -> Scn {
    gen::scenario(prop, seed, thorough)
}

pub fn run_seed(master: u64, prop: &str, index: u64) -> u64 {
    hash2(hash2(master, hash_bytes(prop.as_bytes())), index) >> 1
}

fn class_of(o: &Outcome) -> Option<String> {
    match &o.stop {
        Some(Stop::Violation { class, .. }) => Some(class.clone()),
        _ => None,
    }
}

/// Shrink a failing scenario while the same class of violation persists.
pub fn minimise(scn: &Scn, class: &str, worker: usize, limit: Duration) -> (Scn, u64) {
    let start = Instant::now();
    let mut best = scn.clone();
    let mut tries = 0u64;
    let mut fails = |s: &Scn| -> bool {
        tries += 1;
        class_of(&execute(s, worker, false)).as_deref() == Some(class)
    };
    let late = || start.elapsed() > limit;
    // Cut the tail first.
    let mut lo = 0;
    let mut hi = best.ops.len();
    while lo < hi && !late() {
        let mid = (lo + hi) / 2;
        let mut s = best.clone();
        s.ops.truncate(mid);
        if fails(&s) {
            hi = mid;
            best = s;
        } else {
            lo = mid + 1;
        }
    }
    // Drop ranges of operations.
    loop {
        let mut any = false;
        let mut size = (best.ops.len() / 2).max(1);
        while size >= 1 && !late() {
            let mut i = 0;
            while i < best.ops.len() && !late() {
                let mut s = best.clone();
                let end = (i + size).min(s.ops.len());
                s.ops.drain(i..end);
                if fails(&s) {
                    best = s;
                    any = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Initial files.
        let mut i = 0;
        while i < best.pre.len() && !late() {
            let mut s = best.clone();
            s.pre.remove(i);
            if fails(&s) {
                best = s;
                any = true;
            } else {
                i += 1;
            }
        }
        // Configuration.
        let c = best.cfg.clone();
        for n in 0..8 {
            if late() {
                break;
            }
            let mut s = best.clone();
            match n {
                0 => s.cfg.dirfill = 0,
                1 => s.cfg.fill = 0,
                2 => s.cfg.frag = 0,
                3 => s.cfg.geos = 0,
                4 => s.cfg.backend = 0,
                5 => s.cfg.geo = 0,
                6 => s.cfg.geo &= !1,
                _ => s.cfg.dirfill /= 2,
            }
            if s.cfg != best.cfg && fails(&s) {
                best = s;
            }
        }
        any |= c != best.cfg;
        // Arguments.
        for i in 0..best.ops.len() {
            for j in 0..4 {
                let v = best.ops[i].a[j];
                for c in [0, 1, v / 2, v.saturating_sub(1)] {
                    if c >= best.ops[i].a[j] || late() {
                        continue;
                    }
                    let mut s = best.clone();
                    s.ops[i].a[j] = c;
                    if fails(&s) {
                        best = s;
                        any = true;
                    }
                }
            }
        }
        for i in 0..best.pre.len() {
            for c in [0, 1, best.pre[i].size / 2] {
                if c < best.pre[i].size && !late() {
                    let mut s = best.clone();
                    s.pre[i].size = c;
                    if fails(&s) {
                        best = s;
                        any = true;
                    }
                }
            }
        }
        if !any || late() {
            break;
        }
    }
    (best, tries)
}

pub struct Batch {
    pub stats: Stats,
    pub runs: u64,
    pub diverged: u64,
    pub diverged_samples: Vec<String>,
    pub traces: HashSet<u64>,
    pub samples: Vec<String>,
    pub failure: Option<(u64, Scn, String, String)>,
    pub capped: bool,
    pub log_hash: u64,
    /// Traces of non-trivial runs.
    pub nontrivial: HashSet<u64>,
    pub distinct_nontrivial: u64,
}

struct Slot {
    busy: AtomicBool,
    tid: AtomicU64,
    cpu_start: AtomicU64,
    index: AtomicU64,
}

fn thread_cpu(clock: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return 0;
    }
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

pub struct Plan {
    pub prop: String,
    pub master: u64,
    pub thorough: bool,
    pub runs: u64,
    pub workers: usize,
    pub wall: Duration,
    pub first: u64,
}

/// CPU time a single run may take before it counts as not ending.
pub const RUN_CPU_MS: u64 = 60_000;

pub fn batch(plan: &Plan, on_hang: Arc<dyn Fn(u64, &Scn) + Send + Sync>) -> Batch {
    let next = Arc::new(AtomicU64::new(plan.first));
    let end = plan.first + plan.runs;
    let worst = Arc::new(AtomicU64::new(u64::MAX));
    let out = Arc::new(Mutex::new(Batch {
        stats: Stats::default(),
        runs: 0,
        diverged: 0,
        diverged_samples: vec![],
        traces: HashSet::new(),
        samples: vec![],
        failure: None,
        capped: false,
        log_hash: 0,
        nontrivial: HashSet::new(),
        distinct_nontrivial: 0,
    }));
    let start = Instant::now();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..plan.workers)
            .map(|_| Slot {
                busy: AtomicBool::new(false),
                tid: AtomicU64::new(0),
                cpu_start: AtomicU64::new(0),
                index: AtomicU64::new(0),
            })
            .collect(),
    );
    let stop_watch = Arc::new(AtomicBool::new(false));
    std::thread::scope(|scope| {
        let mut handles = vec![];
        for worker in 0..plan.workers {
            let (next, out, worst, slots) = (next.clone(), out.clone(), worst.clone(), slots.clone());
            handles.push(scope.spawn(move || {
                let mut clock: libc::clockid_t = 0;
                unsafe {
                    libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
                }
                slots[worker].tid.store(clock as u32 as u64, Ordering::SeqCst);
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= end || i > worst.load(Ordering::SeqCst) {
                        break;
                    }
                    if start.elapsed() > plan.wall {
                        out.lock().unwrap().capped = true;
                        break;
                    }
                    let seed = run_seed(plan.master, &plan.prop, i);
                    let scn = generate(&plan.prop, seed, plan.thorough);
                    slots[worker].index.store(i, Ordering::SeqCst);
                    slots[worker].cpu_start.store(thread_cpu(clock), Ordering::SeqCst);
                    slots[worker].busy.store(true, Ordering::SeqCst);
                    crate::check::set_current(seed);
                    crate::mem::watch(true);
                    let o = execute(&scn, worker, false);
                    crate::mem::watch(false);
                    crate::check::set_current(u64::MAX);
                    slots[worker].busy.store(false, Ordering::SeqCst);
                    let mut b = out.lock().unwrap();
                    b.runs += 1;
                    b.stats.merge(&o.stats);
                    b.traces.insert(o.stats.trace);
                    b.log_hash = b.log_hash.wrapping_add(hash2(i, hash2(o.stats.trace, o.stats.get("sector accesses"))));
                    if o.stats.get("sector writes") + o.stats.get("work") > 0 {
                        b.nontrivial.insert(o.stats.trace);
                    }
                    if i < plan.first + 2 {
                        b.samples.push(scn.to_text());
                    }
                    match o.stop {
                        None => {}
                        Some(Stop::Diverged(m)) => {
                            b.diverged += 1;
                            if b.diverged_samples.len() < 5 {
                                b.diverged_samples.push(format!("seed {}: {}", seed, m));
                            }
                        }
                        Some(Stop::Violation { class, msg }) => {
                            if b.failure.as_ref().map(|f| i < f.0).unwrap_or(true) {
                                worst.store(i, Ordering::SeqCst);
                                b.failure = Some((i, scn, class, msg));
                            }
                        }
                    }
                }
            }));
        }
        {
            let (slots, stop) = (slots.clone(), stop_watch.clone());
            scope.spawn(move || {
                while !stop.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(100));
                    for s in slots.iter() {
                        if !s.busy.load(Ordering::SeqCst) {
                            continue;
                        }
                        let i = s.index.load(Ordering::SeqCst);
                        let clock = s.tid.load(Ordering::SeqCst) as u32 as libc::clockid_t;
                        let used = thread_cpu(clock).saturating_sub(s.cpu_start.load(Ordering::SeqCst));
                        if used > RUN_CPU_MS && s.busy.load(Ordering::SeqCst) && s.index.load(Ordering::SeqCst) == i {
                            let scn = generate(&plan.prop, run_seed(plan.master, &plan.prop, i), plan.thorough);
                            on_hang(i, &scn);
                        }
                    }
                }
            });
        }
        for h in handles {
            let _ = h.join();
        }
        stop_watch.store(true, Ordering::SeqCst);
    });
    let mut b = Arc::try_unwrap(out).ok().unwrap().into_inner().unwrap();
    b.distinct_nontrivial = b.nontrivial.len() as u64;
    b.samples.sort();
    b
}
