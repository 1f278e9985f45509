mod base;
mod check;
mod checks;
mod cli;
mod content;
mod corrupt;
mod dev;
mod fmt;
mod gen;
mod geo;
mod mem;
mod prefill;
mod refimg;
mod ro;
mod rng;
mod run;
mod scenario;
mod seam;
mod stats;
mod valid;
mod world;

#[global_allocator]
static ALLOC: mem::Limited = mem::Limited;

use std::sync::Arc;
use std::time::{Duration, Instant};

fn main() -> std::process::ExitCode {
    if let Some(code) = cli::maybe_child() {
        return code;
    }
    dev::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| &s[..]) {
        Some("try") => {
            let prop = &args[2];
            let runs: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(100);
            let master: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let plan = run::Plan {
                prop: prop.clone(),
                master,
                thorough: false,
                runs,
                workers: 8,
                wall: Duration::from_secs(600),
                first: 0,
            };
            let t = Instant::now();
            let b = run::batch(&plan, Arc::new(|i, _s| {
                println!("HANG at run {}", i);
                std::process::exit(1);
            }));
            println!("runs {} in {:.1}s diverged {} traces {} states {}", b.runs, t.elapsed().as_secs_f64(), b.diverged, b.traces.len(), b.stats.states.len());
            for d in &b.diverged_samples {
                println!("  diverged {}", d);
            }
            for (k, v) in &b.stats.n {
                println!("  {:40} {}", k, v);
            }
            if let Some((i, scn, class, msg)) = b.failure {
                println!("FAILURE run {} [{}] {}", i, class, msg);
                let (m, tries) = run::minimise(&scn, &class, 0, Duration::from_secs(20));
                let o = run::execute(&m, 0, true);
                println!("minimised in {} tries: {:?}", tries, o.stop);
                println!("{}", m.to_text());
                for l in o.log {
                    println!("{}", l);
                }
            }
        }
        // First failure of each property named, without minimising it.
        Some("probe") => {
            let runs: u64 = args[2].parse().unwrap_or(100);
            let workers = std::env::var("CBMSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            for prop in &args[3..] {
                let plan = run::Plan {
                    prop: prop.clone(),
                    master: 1,
                    thorough: false,
                    runs: if prop == "C17" { runs / 5 } else { runs },
                    workers,
                    wall: Duration::from_secs(120),
                    first: 0,
                };
                let name = prop.clone();
                let b = run::batch(&plan, Arc::new(move |i, _s| {
                    println!("CAUGHT {} run {} [hang]", name, i);
                    std::process::exit(1);
                }));
                if let Some((i, _, class, msg)) = b.failure {
                    println!("CAUGHT {} run {} [{}] {}", prop, i, class, msg);
                    let _ = std::fs::remove_dir_all(dev::scratch());
                    std::process::exit(1);
                }
                println!("quiet {} runs {} ended early {}", prop, b.runs, b.diverged);
            }
        }
        // A digest of the traces of many runs: the same for any number of workers and any process.
        Some("digest") => {
            let runs: u64 = args[2].parse().unwrap_or(100);
            let workers = std::env::var("CBMSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            for prop in &args[3..] {
                let plan = run::Plan {
                    prop: prop.clone(),
                    master: 1,
                    thorough: false,
                    runs: if prop == "C17" { runs / 5 } else { runs },
                    workers,
                    wall: Duration::from_secs(600),
                    first: 0,
                };
                let b = run::batch(&plan, Arc::new(|_, _| std::process::exit(1)));
                let mut t: Vec<u64> = b.traces.iter().copied().collect();
                t.sort();
                let d = t.iter().fold(0, |h, x| rng::hash2(h, *x));
                let mut s: Vec<u64> = b.stats.states.iter().copied().collect();
                s.sort();
                let e = s.iter().fold(0, |h, x| rng::hash2(h, *x));
                println!("{} runs {} traces {} {:016x} states {} {:016x}", prop, b.runs, t.len(), d, s.len(), e);
            }
        }
        Some("one") => {
            let scn = run::generate(&args[2], args[3].parse().unwrap(), false);
            let o = run::execute(&scn, 0, true);
            println!("{}", scn.to_text());
            for l in o.log {
                println!("{}", l);
            }
            println!("{:?}", o.stop);
        }
        Some("replay") => {
            let code = check::replay(args.get(2).map(|s| &s[..]).unwrap_or(""));
            let _ = std::fs::remove_dir_all(dev::scratch());
            std::process::exit(code);
        }
        Some("check") => {
            let prop = args.get(2).cloned().unwrap_or_default();
            let tier = args.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let code = check::check(&prop, tier);
            let _ = std::fs::remove_dir_all(dev::scratch());
            std::process::exit(code);
        }
        _ => std::process::exit(2),
    }
    let _ = std::fs::remove_dir_all(dev::scratch());
    std::process::ExitCode::SUCCESS
}
