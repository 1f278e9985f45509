//! The command a check runs: search, minimise, report, and account for what was covered.

use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use crate::run::{self, Batch, Plan};
use crate::scenario::Scn;
use crate::world::Stop;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

/// Simulated runs of a quick check.
pub fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C04" | "C11" | "C15" | "C16" => 16_000,
        "C05" => 12_000,
        "C17" => 3_000,
        _ => 24_000,
    }
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn replay_dir() -> PathBuf {
    verif().join("evidence").join("replay")
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C09" | "C10" | "C15" => {
            "One case is one simulated run: a seed expands to an image, a device and an operation/fault list, executed by the real library. Distinct: the hash over the sequence of operations, sector accesses and fault hits differs from that of every other run. Non-trivial: at least one operation of the kind the property is about was carried out (a refused modification or compared read; a call on a damaged image; a format or an image creation)."
        }
        "C17" => {
            "One case is one simulated session: a seed expands to an image and a list of cdisk commands (and kills and device errors inside them), each executed as its own process running the real cdisk code. Distinct: the hash over the sequence of commands, their outcomes and resulting image states differs from that of every other run. Non-trivial: at least one command changed or read back the image."
        }
        _ => {
            "One case is one simulated run: a seed expands to an initial image, a device and an operation/fault list, executed by the real library against a reference model. Distinct: the hash over the sequence of operations, sector changes and fault hits differs from that of every other run. Non-trivial: at least one sector of the image changed."
        }
    }
}

const REAL: &str = "all of the cbm library (disk, directory, BAM, allocation, chains, files, GEOS, validation, image access, memmap), the real mmap of scratch files for mapped images";
const STUB: &str = "the storage medium behind the image (what is durable, what fails, what a kill or power loss leaves): simulated at the cfg(cbm_sim) hook and the interposed msync/ftruncate/mmap symbols; initial images are built by the harness's own image writer";

fn level(prop: &str) -> &'static str {
    match prop {
        "C04" | "C05" | "C07" => "fault_enumeration",
        _ => "exploration",
    }
}

fn evidence(prop: &str, tier: &str, seed: u64, b: Option<&Batch>, wall: f64, violations: u32, extra: &[(String, String)]) {
    let mut c = String::new();
    let mut put = |k: &str, v: String| {
        if !c.is_empty() {
            c += ",\n  ";
        }
        c += &format!("{}: {}", json_str(k), v);
    };
    match b {
        None => {
            put("evaluations", "0".into());
            put("distinct_nontrivial", "0".into());
            put("rule", json_str(rule(prop)));
            put("samples", "[]".into());
        }
        Some(b) => {
            put("evaluations", b.runs.to_string());
            put("distinct_nontrivial", b.distinct_nontrivial.to_string());
            put("rule", json_str(rule(prop)));
            let samples: Vec<String> = b.samples.iter().map(|s| json_str(s)).collect();
            put("samples", format!("[{}]", samples.join(", ")));
            put("simulated_runs_per_hour", ((b.runs as f64 / wall.max(0.001)) * 3600.0).round().to_string());
            put("seeds", format!("\"hash(VERIF_SEED={}, {}, 0..{})\"", seed, prop, b.runs));
            put("distinct_interleavings", b.traces.len().to_string());
            put("distinct_interleavings_measure", json_str("distinct hashes over (operation kind, number of sector changes or accesses, fault hit) of a run"));
            put("distinct_image_states", b.stats.states.len().to_string());
            put("distinct_image_states_measure", json_str("distinct hashes of the image contents after an operation"));
            put("simulated_operations", b.stats.get("ops").to_string());
            put("simulated_time", json_str("the system has no clock; its time is the sequence of sector accesses"));
            put("simulated_sector_accesses", b.stats.get("sector accesses").to_string());
            let mut faults = vec![];
            let mut counts = vec![];
            for (k, v) in &b.stats.n {
                if let Some(f) = k.strip_prefix("fault: ") {
                    faults.push(format!("{}: {}", json_str(f), v));
                } else {
                    counts.push(format!("{}: {}", json_str(k), v));
                }
            }
            put("faults_injected", format!("{{{}}}", faults.join(", ")));
            put("counters", format!("{{{}}}", counts.join(", ")));
            put("runs_ended_early_for_another_property", b.diverged.to_string());
            put("stopped_by_time_limit", b.capped.to_string());
            put("log_hash", json_str(&format!("{:016x}", b.log_hash)));
            put("components_real", json_str(REAL));
            put("components_simulated", json_str(STUB));
        }
    }
    for (k, v) in extra {
        put(k, v.clone());
    }
    let assumptions = [
        "at most one open writer per file, and no use of a handle on a file deleted through another handle, except where C10 covers it",
        "sector writes are ordered as issued for a kill; for a power loss any subset of unsynchronised 32-byte units may survive",
        "the search is a sample: runs not generated are not covered",
    ];
    let a: Vec<String> = assumptions.iter().map(|s| json_str(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(prop),
        json_str(tier),
        seed,
        json_str(level(prop)),
        c,
        a.join(", "),
        wall,
        violations
    );
    let dir = verif().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", prop)), text) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(2);
    }
}

fn violation_line(prop: &str, path: &Path) {
    println!("VIOLATION property={} replay={}", prop, path.display());
}

// ---- crashes of the process itself (stack overflow, bad memory access, abort) ----

static CRASH_PATH: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
static CRASH_PROP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
static CRASH_TIER: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static CURRENT_SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}

pub fn set_current(seed: u64) {
    CURRENT_SEED.with(|c| c.set(seed));
}

fn put(buf: &mut [u8], n: &mut usize, s: &[u8]) {
    for b in s {
        if *n < buf.len() {
            buf[*n] = *b;
            *n += 1;
        }
    }
}

/// A violation has been found and its replay file written.
static FOUND: AtomicBool = AtomicBool::new(false);

extern "C" fn on_signal(sig: libc::c_int) {
    let seed = CURRENT_SEED.try_with(|c| c.get()).unwrap_or(u64::MAX);
    unsafe {
        if seed == u64::MAX && !FOUND.load(Ordering::SeqCst) {
            libc::_exit(2);
        }
        let (path, prop) = match (CRASH_PATH.get(), CRASH_PROP.get()) {
            (Some(p), Some(q)) => (p, q),
            _ => libc::_exit(2),
        };
        let mut digits = [0u8; 20];
        let mut d = 20;
        let mut v = seed;
        loop {
            d -= 1;
            digits[d] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        let mut buf = [0u8; 512];
        let mut n = 0;
        put(&mut buf, &mut n, b"# the process was ended by a signal (");
        put(&mut buf, &mut n, match sig {
            libc::SIGSEGV => b"SIGSEGV",
            libc::SIGBUS => b"SIGBUS",
            libc::SIGABRT => b"SIGABRT",
            _ => b"signal",
        });
        put(&mut buf, &mut n, b")\nproperty ");
        put(&mut buf, &mut n, prop.as_bytes());
        put(&mut buf, &mut n, b"\nseed ");
        put(&mut buf, &mut n, &digits[d..]);
        put(&mut buf, &mut n, if CRASH_TIER.load(Ordering::SeqCst) == 1 { b"\ngenerate thorough\n" } else { b"\ngenerate quick\n" });
        // A violation already found (and being minimised) keeps its replay file.
        let fd = if seed == u64::MAX { -1 } else { libc::open(path.as_ptr() as *const libc::c_char, libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644) };
        if fd >= 0 {
            libc::write(fd, buf.as_ptr() as *const libc::c_void, n);
            libc::close(fd);
        }
        n = 0;
        put(&mut buf, &mut n, b"VIOLATION property=");
        put(&mut buf, &mut n, prop.as_bytes());
        put(&mut buf, &mut n, b" replay=");
        put(&mut buf, &mut n, &path[..path.len() - 1]);
        put(&mut buf, &mut n, b"\n");
        libc::write(1, buf.as_ptr() as *const libc::c_void, n);
        libc::_exit(1);
    }
}

fn install_signals(prop: &str, thorough: bool, path: &Path) {
    let mut p = path.to_string_lossy().into_owned().into_bytes();
    p.push(0);
    let _ = CRASH_PATH.set(p);
    let _ = CRASH_PROP.set(prop.to_string());
    CRASH_TIER.store(thorough as u64, Ordering::SeqCst);
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

// ---- the check ----

fn describe(scn: &Scn, class: &str, msg: &str, log: &[String], note: &str) -> String {
    let mut t = format!("# {}\n# violation of {} [{}]: {}\n", note, scn.prop, class, msg);
    t += &scn.to_text();
    if !log.is_empty() {
        t += "# trace of the run:\n";
        for l in log {
            t += &format!("# {}\n", l);
        }
    }
    t
}

pub fn check(prop: &str, tier: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = env("CBMSIM_RUNS").unwrap_or(if thorough { quick_runs(prop) * 100 } else { quick_runs(prop) });
    let wall = env("CBMSIM_WALL").unwrap_or(if thorough { 3600 } else { 240 });
    let workers = env("CBMSIM_WORKERS").unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    }) as usize;
    let _ = fs::create_dir_all(replay_dir());
    let replay = replay_dir().join(format!("{}-{}-{}.txt", prop, tier, seed));
    let _ = fs::remove_file(&replay);
    install_signals(prop, thorough, &replay);
    // Stands if the process is brought down from inside.
    evidence(prop, tier, seed, None, 0.0, 1, &[]);
    let start = Instant::now();
    let plan = Plan {
        prop: prop.to_string(),
        master: seed,
        thorough,
        runs,
        workers,
        wall: Duration::from_secs(wall),
        first: 0,
    };
    let hang_replay = replay.clone();
    let hang_prop = prop.to_string();
    let b = run::batch(
        &plan,
        Arc::new(move |i, scn| {
            let t = describe(scn, "endless", "the run does not end", &[], &format!("run {} (not minimised)", i));
            let _ = fs::write(&hang_replay, t);
            violation_line(&hang_prop, &hang_replay);
            let _ = fs::remove_dir_all(crate::dev::scratch());
            std::process::exit(1);
        }),
    );
    let searched = start.elapsed().as_secs_f64();
    println!(
        "{} {}: {} runs in {:.1} s, {} distinct interleavings, {} image states, {} ended early, log {:016x}{}",
        prop,
        tier,
        b.runs,
        searched,
        b.traces.len(),
        b.stats.states.len(),
        b.diverged,
        b.log_hash,
        if b.capped { " (time limit reached)" } else { "" }
    );
    for d in &b.diverged_samples {
        println!("  ended early: {}", d);
    }
    if let Some((index, scn, class, msg)) = &b.failure {
        println!("run {} [{}]: {}", index, class, msg);
        let _ = fs::write(&replay, describe(scn, class, msg, &[], &format!("run {} of VERIF_SEED={} (not minimised)", index, seed)));
        FOUND.store(true, Ordering::SeqCst);
        {
            // Minimising may meet a variant that does not end.
            let (prop, replay) = (prop.to_string(), replay.clone());
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(180));
                println!("minimising took too long");
                violation_line(&prop, &replay);
                let _ = fs::remove_dir_all(crate::dev::scratch());
                std::process::exit(1);
            });
        }
        crate::mem::watch(true);
        let (min, tries) = run::minimise(scn, class, 0, Duration::from_secs(60));
        let o = run::execute(&min, 0, true);
        let (text, shown) = match &o.stop {
            Some(Stop::Violation { class: c, msg: m }) if c == class => (
                describe(
                    &min,
                    c,
                    m,
                    &o.log,
                    &format!("run {} of VERIF_SEED={}, minimised from {} to {} operations in {} tries", index, seed, scn.ops.len(), min.ops.len(), tries),
                ),
                m.clone(),
            ),
            _ => (
                describe(scn, class, msg, &[], &format!("run {} of VERIF_SEED={} (minimisation did not reproduce it)", index, seed)),
                msg.clone(),
            ),
        };
        let _ = fs::write(&replay, text);
        println!("minimised: [{}] {}", class, shown);
        // Does it come back in a process of its own?
        let again = std::env::current_exe()
            .ok()
            .and_then(|e| Command::new(e).arg("replay").arg(&replay).output().ok())
            .map(|o| String::from_utf8_lossy(&o.stdout).contains(&shown))
            .unwrap_or(false);
        println!("replay in a fresh process {}", if again { "reproduces it" } else { "does NOT reproduce it" });
        evidence(
            prop,
            tier,
            seed,
            Some(&b),
            start.elapsed().as_secs_f64(),
            1,
            &[
                ("replay_reproduced".into(), again.to_string()),
                ("violation".into(), json_str(&format!("[{}] {}", class, shown))),
            ],
        );
        violation_line(prop, &replay);
        return 1;
    }
    evidence(prop, tier, seed, Some(&b), start.elapsed().as_secs_f64(), 0, &[]);
    if b.runs == 0 {
        eprintln!("no runs were made");
        return 2;
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let scn = match Scn::from_text(&text) {
        Some(s) if PROPS.contains(&&s.prop[..]) => s,
        _ => {
            eprintln!("{}: not a replay file", path);
            return 2;
        }
    };
    let mode = text.lines().find_map(|l| l.strip_prefix("generate "));
    let scn = match mode {
        Some(m) => run::generate(&scn.prop, scn.seed, m.trim() == "thorough"),
        None => scn,
    };
    let full = fs::canonicalize(path).unwrap_or_else(|_| PathBuf::from(path));
    if mode.is_some() {
        // Keep the file: a crash would write the same again.
        install_signals(&scn.prop, mode == Some("thorough"), &full);
    } else {
        install_signals(&scn.prop, false, Path::new("/dev/null"));
    }
    set_current(scn.seed);
    crate::mem::watch(true);
    {
        let (prop, full) = (scn.prop.clone(), full.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
            if t.tv_sec as u64 * 1000 > run::RUN_CPU_MS {
                println!("the run does not end");
                violation_line(&prop, &full);
                std::process::exit(1);
            }
        });
    }
    let o = run::execute(&scn, 0, true);
    for l in &o.log {
        println!("{}", l);
    }
    match o.stop {
        None => {
            println!("no violation");
            0
        }
        Some(Stop::Diverged(m)) => {
            println!("ended early: {}", m);
            0
        }
        Some(Stop::Violation { class, msg }) => {
            println!("[{}] {}", class, msg);
            violation_line(&scn.prop, &full);
            1
        }
    }
}
