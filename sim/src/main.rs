//! dhtsim: deterministic simulation of rustdht. See /verif/DESIGN.md.
//!
//!   dhtsim batch  PROP  ...                     one search in this binary (used by check.py)
//!   dhtsim replay FILE                          re-execute a replay file
//!   dhtsim determinism PROP N                   run N scenarios, print an event-log digest
//!   dhtsim show   PROP RUN                      print a generated scenario
//!   dhtsim measure N                            reference-error survey
mod exec;
mod gen;
mod judge;
mod minimise;
mod model;
mod spec;

use judge::*;
use simrt::{count, sh, Stat};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
    fn personality(p: u64) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    let v: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if v.is_empty() { vec![0] } else { v }
}
fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] = 1 << (cpu % 64);
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
pub fn profile() -> &'static str {
    if cfg!(debug_assertions) { "dev" } else { "release" }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    // identical address-space layout in every process: re-execute without ASLR
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        let cur = personality(0xffff_ffff);
        if cur >= 0 && (cur as u64 & ADDR_NO_RANDOMIZE) == 0 && std::env::var_os("DHTSIM_NOASLR").is_none() {
            personality(cur as u64 | ADDR_NO_RANDOMIZE);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("DHTSIM_NOASLR", "1").exec();
            eprintln!("re-exec: {}", e);
        }
    }
    simrt::init();
    let _ = simrt::seams::keep();
    if let Err(e) = model::self_test() {
        eprintln!("HARNESS-ERROR {}", e);
        std::process::exit(2);
    }
    let seed: u64 = arg(&a, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    match cmd {
        "batch" => std::process::exit(batch(&a, seed)),
        "replay" => {
            exec::worker_init();
            let txt = std::fs::read_to_string(&a[2]).expect("read replay file");
            let sc = spec::Scenario::from_text(&txt).expect("parse replay file");
            match judge(&sc) {
                Verdict::Bad(v) => {
                    println!("class: {}\nmessage: {}", v.class, v.msg);
                    println!("VIOLATION property={} replay={}", sc.prop, a[2]);
                    std::process::exit(1);
                }
                Verdict::Harness(m) => {
                    eprintln!("HARNESS-ERROR {}", m);
                    std::process::exit(2)
                }
                v => println!("not reproduced: {:?}", v),
            }
        }
        "determinism" => {
            exec::worker_init();
            let n: u64 = a[3].parse().unwrap();
            for run in 0..n {
                let sc = gen::generate(&a[2], seed, run);
                let sc2 = spec::Scenario::from_text(&sc.to_text()).expect("round trip");
                assert!(sc == sc2, "text form is lossy");
                let r = exec::execute(&sc);
                println!("{} {:016x}", run, digest(&format!("{:?}", r)));
            }
        }
        "show" => {
            let sc = gen::generate(&a[2], seed, a[3].parse().unwrap());
            print!("{}", sc.to_text());
        }
        "measure" => measure(&a, seed),
        _ => {
            eprintln!("usage: dhtsim batch|replay|determinism|show|measure ...");
            std::process::exit(2);
        }
    }
}

/// Fork one process per worker; each pulls run numbers from the shared counter.
fn fan_out(workers: usize, f: impl Fn(usize)) {
    let cs = cpus();
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            pin(cs[w % cs.len()]);
            exec::worker_init();
            f(w);
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            eprintln!("HARNESS-ERROR worker ended with status {:#x}", st);
            std::process::exit(2);
        }
    }
}

fn batch(a: &[String], seed: u64) -> i32 {
    let prop = a[2].clone();
    let runs: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(1000);
    let first: u64 = arg(a, "--first").and_then(|s| s.parse().ok()).unwrap_or(0);
    let wall: f64 = arg(a, "--wall").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let out = arg(a, "--out").unwrap_or_else(|| "/tmp/dhtsim-out".into());
    let workers: usize = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| cpus().len());
    let min_s: f64 = arg(a, "--minimise").and_then(|s| s.parse().ok()).unwrap_or(40.0);
    std::fs::create_dir_all(&out).expect("out dir");
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(wall);
    sh().stop.store(u64::MAX, SeqCst);
    sh().next_run.store(first, SeqCst);
    let cand = |run: u64| format!("{}/candidate-{}-{}-{}.txt", out, prop, profile(), run);
    {
        let (prop, out) = (&prop, &out);
        fan_out(workers, |w| {
            let mut skipped = 0u64;
            let mut hangs = 0u64;
            let mut nondet = 0u64;
            let mut twice = 0u64;
            let mut units = 0f64;
            let mut skip_why = String::new();
            loop {
                let run = sh().next_run.fetch_add(1, SeqCst);
                if run >= first + runs || run > sh().stop.load(SeqCst) || Instant::now() > deadline {
                    break;
                }
                let sc = gen::generate(prop, seed, run);
                count(Stat::Runs, 1);
                let (v, u) = judge_full(&sc);
                units = units.max(u);
                match v {
                    Verdict::Held { hash, nontrivial } => {
                        simrt::note_distinct(hash, nontrivial);
                        if run % 97 == 0 {
                            // same seed again in another fresh process: identical outcome?
                            twice += 1;
                            match judge(&sc) {
                                Verdict::Held { hash: h2, .. } if h2 == hash => {}
                                _ => nondet += 1,
                            }
                        }
                    }
                    Verdict::Skip(m) => {
                        skipped += 1;
                        skip_why = m;
                    }
                    Verdict::Bad(v) => {
                        // a wall-clock kill must repeat before it counts
                        if v.class == "hang" && !matches!(judge(&sc), Verdict::Bad(_)) {
                            hangs += 1;
                            continue;
                        }
                        std::fs::write(cand(run), format!("# class {}\n# {}\n{}", v.class, v.msg.replace('\n', " "), v.sc.to_text())).expect("write");
                        sh().stop.fetch_min(run, SeqCst);
                    }
                    Verdict::Harness(m) => {
                        eprintln!("HARNESS-ERROR run {}: {}", run, m);
                        std::fs::write(format!("{}/harness-error-{}.txt", out, run), m).ok();
                        unsafe { _exit(3) };
                    }
                }
            }
            let _ = std::fs::write(
                format!("{}/worker-{}-{}-{}.txt", out, prop, profile(), w),
                format!("skipped {}\nhangs {}\nrepeated {}\nnondeterministic {}\nunits {:e}\nskip_why {}\n", skipped, hangs, twice, nondet, units, skip_why.replace('\n', " ")),
            );
        });
    }
    let search_s = t0.elapsed().as_secs_f64();
    // gather
    let mut sums = std::collections::BTreeMap::<String, f64>::new();
    let mut why = String::new();
    for w in 0..workers {
        let f = format!("{}/worker-{}-{}-{}.txt", out, prop, profile(), w);
        for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
            if let Some((k, v)) = l.split_once(' ') {
                if k == "units" {
                    let e = sums.entry(k.into()).or_insert(0.0);
                    *e = e.max(v.parse().unwrap_or(0.0));
                } else if k == "skip_why" {
                    if !v.is_empty() {
                        why = v.to_string();
                    }
                } else {
                    *sums.entry(k.into()).or_insert(0.0) += v.parse::<f64>().unwrap_or(0.0);
                }
            }
        }
        std::fs::remove_file(&f).ok();
    }
    let mut st = String::new();
    for (i, n) in simrt::STAT_NAMES.iter().enumerate() {
        st += &format!("{} {}\n", n, sh().stats[i].load(SeqCst));
    }
    let (cov, pre) = simrt::cov_counts();
    st += &format!("distinct {}\ndistinct_nontrivial {}\nedges_total {}\nedges_covered {}\nedges_preempted {}\nsearch_s {}\nworkers {}\n", sh().distinct.load(SeqCst), sh().distinct_nontrivial.load(SeqCst), simrt::total_edges(), cov, pre, search_s, workers);
    for (k, v) in &sums {
        st += &format!("{} {}\n", k, v);
    }
    st += &format!("skip_why {}\n", why);
    std::fs::write(format!("{}/stats-{}-{}.txt", out, prop, profile()), st).expect("stats");
    // the lowest violating run
    let stop = sh().stop.load(SeqCst);
    if stop == u64::MAX {
        return 0;
    }
    exec::worker_init();
    let txt = std::fs::read_to_string(cand(stop)).expect("candidate");
    let sc = spec::Scenario::from_text(&txt).expect("candidate text");
    let class = txt.lines().next().unwrap_or("").trim_start_matches("# class ").to_string();
    let mut found = None;
    for _ in 0..3 {
        if let Verdict::Bad(v) = judge(&sc) {
            found = Some(v);
            break;
        }
    }
    let replay = format!("{}/{}-{}-seed{}-run{}.replay", out, prop, profile(), seed, stop);
    let (text, note) = match found {
        Some(v) => {
            let (m, tries) = minimise::minimise(v, Duration::from_secs_f64(if class == "hang" { 0.0 } else { min_s }));
            (
                format!("# property {} violated: {}\n# {}\n# found by seed {} run {} ({} build); minimised in {} attempts\n# re-execute: dhtsim replay <this file>\n{}violation {}\nbuild-profile {}\n", prop, m.class, m.msg.replace('\n', " "), seed, stop, profile(), tries, m.sc.to_text(), m.class, profile()),
                m.msg,
            )
        }
        None => (format!("# did not repeat in three further executions of the same scenario\n{}violation {}\nbuild-profile {}\n", txt, class, profile()), "not repeatable".into()),
    };
    std::fs::write(&replay, text).expect("replay file");
    for e in std::fs::read_dir(&out).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with(&format!("candidate-{}-{}-", prop, profile())) {
            std::fs::remove_file(e.path()).ok();
        }
    }
    println!("seed {} run {} ({} build): {}", seed, stop, profile(), note);
    println!("VIOLATION property={} replay={}", prop, replay);
    1
}

fn measure(a: &[String], seed: u64) {
    let n: u64 = a[2].parse().unwrap();
    let prop = arg(a, "--prop").unwrap_or("C09".into());
    sh().next_run.store(0, SeqCst);
    fan_out(cpus().len(), |w| {
        let mut worst = 0f64;
        loop {
            let run = sh().next_run.fetch_add(1, SeqCst);
            if run >= n {
                break;
            }
            let sc = gen::generate(&prop, seed, run);
            let began = std::time::Instant::now();
            let (v, u) = judge_full(&sc);
            if began.elapsed().as_secs_f64() > 3.0 {
                println!("run {} took {:.1} s", run, began.elapsed().as_secs_f64());
            }
            if let Verdict::Bad(v) = &v {
                println!("run {} {}: {}", run, v.class, v.msg);
            }
            if let Verdict::Skip(v) = &v {
                println!("run {} skip {}", run, v);
            }
            if let Verdict::Harness(v) = &v {
                println!("run {} harness {}", run, v);
            }
            if u > worst {
                worst = u;
                println!("worker {} run {} {:?} units {:.3}", w, run, sc.scalar, u);
            }
        }
    });
}

fn digest(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    h
}
