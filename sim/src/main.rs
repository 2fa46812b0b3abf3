//! The simulator's driver.
mod churn;
mod corpus;
mod dynp;
mod evidence;
mod exec;
mod gena;
mod judge;
mod kept;
mod minimise;
mod proc;
mod scale;
mod tree;
mod user;

use exec::RunResult;
use judge::{Solo, Violation};
use proc::{outcome, shared_map, Runner};
use serde::{Deserialize, Serialize};
use simlib::session::*;
use simrt::rng::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub const TREE_PROPS: [&str; 6] = ["C06", "C07", "C08", "C10", "C12", "C13"];

pub struct Limits {
    pub sessions: u64,
    pub wall_s: f64,
}

/// How many runs a check makes.
fn limits(prop: &str, tier: &str) -> Limits {
    let quick = match prop {
        "C02" => 20_000,
        "C05" => 36_000,
        "C09" => 24_000,
        "C11" => 8_000,
        "C16" | "C17" => 12_000,
        "C12" => 12_000,
        "C06" | "C07" | "C08" | "C10" | "C13" => 16_000,
        _ => 16_000,
    };
    if tier == "thorough" {
        Limits { sessions: quick * 400, wall_s: 600.0 }
    } else {
        Limits { sessions: quick, wall_s: 100.0 }
    }
}

pub fn session_seed(vseed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(vseed ^ 0xA0C_5EED);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(idx))
}

/// One session in so many is a large parse.
fn large_every(prop: &str) -> Option<u64> {
    match prop {
        "C01" | "C02" | "C05" | "C11" | "C14" | "C15" | "C16" | "C17" => None,
        "C03" | "C04" | "C09" => Some(150),
        _ => Some(80),
    }
}

pub fn generate(prop: &str, vseed: u64, idx: u64) -> Session {
    let seed = session_seed(vseed, prop, idx);
    if let Some(every) = large_every(prop) {
        if idx % every == 40 % every {
            return scale::gen(prop, seed);
        }
    }
    if TREE_PROPS.contains(&prop) && !(prop == "C12" && idx % 5 == 4) {
        simlib::genb::gen(prop, seed)
    } else {
        gena::gen(prop, vseed, seed)
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Summary {
    pub sessions: u64,
    pub runs: u64,
    pub solo_runs: u64,
    pub ops: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempted: u64,
    pub calls: u64,
    pub fired: BTreeMap<String, u64>,
    pub clock: u64,
    pub random: u64,
    pub futex: u64,
    pub allocs: u64,
    pub reused: u64,
    pub b: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub nontrivial: u64,
    pub rechecked: u64,
    pub diverged: u64,
    pub samples: Vec<serde_json::Value>,
    pub found: Option<(u64, Vec<Violation>)>,
    pub harness: Option<String>,
    pub undecided: u64,
    pub truncated: bool,
    pub edges: u64,
}

pub fn execute(r: &mut Runner, solo: &mut Solo, s: &Session) -> (RunResult, Vec<Violation>) {
    let out = outcome(r.run(s));
    let v = solo.judge(r, s, &out);
    (out, v)
}

fn worker(prop: &str, vseed: u64, me: u64, jobs: u64, lim: &Limits, min_bad: &AtomicU64) -> Summary {
    let mut r = Runner::new();
    let mut solo = Solo::new();
    let mut sum = Summary::default();
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let t0 = Instant::now();
    let mut idx = me;
    while idx < lim.sessions {
        if idx > min_bad.load(Ordering::Relaxed) {
            break;
        }
        if t0.elapsed().as_secs_f64() > lim.wall_s {
            sum.truncated = true;
            break;
        }
        let began = Instant::now();
        let s = generate(prop, vseed, idx);
        let generated = began.elapsed();
        let (out, v) = execute(&mut r, &mut solo, &s);
        if began.elapsed().as_secs_f64() > 1.0 && std::env::var_os("AOCSIM_DEBUG").is_some() {
            eprintln!("slow: session {idx}: {generated:?} to generate, {:?} in all", began.elapsed());
        }
        if let Some(h) = v.iter().find(|x| x.class == "harness") {
            // one run the simulator could not carry through says nothing; many of them say it is broken
            sum.undecided += 1;
            if sum.undecided > 4 {
                sum.harness = Some(format!("session {idx}: {}", h.detail));
                break;
            }
            idx += jobs;
            continue;
        }
        sum.sessions += 1;
        sum.ops += out.ops.len() as u64 + out.b.get("texts").copied().unwrap_or(0);
        sum.steps += out.steps;
        sum.switches += out.switches.len() as u64;
        sum.preempted += out.switches.iter().filter(|w| w.3 == 0 || w.3 == 4).count() as u64;
        sum.calls += out.calls;
        sum.clock += out.clock;
        sum.random += out.random;
        sum.futex += out.futex;
        sum.allocs += out.allocs;
        sum.reused += out.reused;
        for (k, n) in &out.fired {
            *sum.fired.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &out.b {
            if k.starts_with("max_") {
                let e = sum.b.entry(k.clone()).or_default();
                *e = (*e).max(*n);
            } else {
                *sum.b.entry(k.clone()).or_default() += n;
            }
        }
        if evidence::nontrivial(prop, &s, &out) && seen.insert(out.hash) {
            sum.nontrivial += 1;
            if sum.samples.len() < 2 {
                sum.samples.push(evidence::sample(idx, &s, &out));
            }
        }
        if idx % 97 == 13 {
            let again = outcome(r.run(&s));
            sum.rechecked += 1;
            if (again.hash, again.steps, &again.bad, &again.ops) != (out.hash, out.steps, &out.bad, &out.ops) {
                sum.diverged += 1;
                if std::env::var_os("AOCSIM_DEBUG").is_some() {
                    eprintln!("diverged: session {idx}: {} {} / {} {}", out.hash, out.steps, again.hash, again.steps);
                }
            }
        }
        if !v.is_empty() {
            min_bad.fetch_min(idx, Ordering::Relaxed);
            sum.found = Some((idx, v));
            break;
        }
        idx += jobs;
    }
    sum.runs = r.runs;
    sum.solo_runs = solo.runs;
    let n = simrt::hooks::n_edges() as usize;
    sum.edges = n as u64;
    // hand the edges over through the hash list's tail: positions of reached edges
    let reached: Vec<u64> = (0..n).filter(|&i| unsafe { *r.edges.add(i) } != 0).map(|i| i as u64).collect();
    sum.hashes = seen.into_iter().collect();
    sum.hashes.push(u64::MAX);
    sum.hashes.extend(reached);
    sum
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn stable_addresses() {
    unsafe {
        const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let now = libc::personality(0xffffffff);
        if now >= 0 && now as libc::c_ulong & NO_RANDOMIZE == 0 && std::env::var_os("AOCSIM_REEXEC").is_none() && libc::personality(now as libc::c_ulong | NO_RANDOMIZE) >= 0 {
            use std::os::unix::process::CommandExt;
            // room for deep recursion, whatever the shell's limit
            let mut lim: libc::rlimit = std::mem::zeroed();
            if libc::getrlimit(libc::RLIMIT_STACK, &mut lim) == 0 {
                let want = 64 << 20;
                lim.rlim_cur = if lim.rlim_max == libc::RLIM_INFINITY { want } else { lim.rlim_max.min(want) };
                libc::setrlimit(libc::RLIMIT_STACK, &lim);
            }
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("AOCSIM_REEXEC", "1").exec();
            eprintln!("re-exec failed: {e}");
        }
    }
}

fn pin(core: usize) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) != 0 {
            return;
        }
        let cores: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &have)).collect();
        if cores.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cores[core % cores.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn main() {
    stable_addresses();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => replay(&args),
        Some("show") => {
            let s = generate(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            let mut r = Runner::new();
            let (out, v) = execute(&mut r, &mut Solo::new(), &s);
            println!("{out:#?}\n{v:#?}");
        }
        _ => {
            eprintln!("usage: aocsim check --prop ID --tier quick|thorough --seed N --jobs N --out DIR --evidence FILE | replay FILE | show ID VSEED INDEX");
            std::process::exit(2);
        }
    }
}

fn check(args: &[String]) {
    let t0 = Instant::now();
    let prop = arg(args, "--prop").expect("--prop");
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let vseed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let jobs: u64 = arg(args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let outdir = arg(args, "--out").unwrap_or("/verif/out".into());
    let mut lim = limits(&prop, &tier);
    if let Some(n) = arg(args, "--sessions").and_then(|s| s.parse().ok()) {
        lim.sessions = n;
    }
    if let Some(n) = arg(args, "--wall").and_then(|s| s.parse().ok()) {
        lim.wall_s = n;
    }
    let min_bad: &AtomicU64 = unsafe { &*(shared_map(4096) as *const AtomicU64) };
    min_bad.store(u64::MAX, Ordering::Relaxed);
    let mut pipes = Vec::new();
    for w in 0..jobs {
        let mut fd = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fd[0]);
                pin(w as usize);
                let sum = worker(&prop, vseed, w, jobs, &lim, min_bad);
                let mut f = std::fs::File::from_raw_fd(fd[1]);
                let _ = f.write_all(&serde_json::to_vec(&sum).unwrap());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fd[1]);
            pipes.push((pid, fd[0]));
        }
    }
    let mut sums = Vec::new();
    for (pid, fd) in pipes {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut b = Vec::new();
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Summary>(&b) {
            Ok(s) => sums.push(s),
            Err(e) => sums.push(Summary { harness: Some(format!("a worker died (status {st:#x}): {e}")), ..Default::default() }),
        }
    }
    let found = sums.iter().filter_map(|s| s.found.clone()).min_by_key(|f| f.0);
    let mut code = 0;
    let mut nviol = 0;
    if let Some((idx, v)) = found {
        nviol = 1;
        let s = generate(&prop, vseed, idx);
        let _ = std::fs::create_dir_all(&outdir);
        let path = format!("{outdir}/{prop}-{vseed}-{idx}.json");
        eprintln!("session {idx} (seed {}): {}: {}", s.seed, v[0].class, shown(&v[0].detail));
        let (small, viol, tries) = minimise::minimise(&s, &v[0], if tier == "thorough" { 120.0 } else { 40.0 });
        minimise::write_replay(&path, &small, &viol, idx, vseed, tries);
        println!("{}: {}", viol.class, shown(&viol.detail));
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    let harness: Vec<String> = sums.iter().filter_map(|s| s.harness.clone()).collect();
    if code == 0 && !harness.is_empty() {
        eprintln!("harness error: {}", harness.join("; "));
        code = 2;
    }
    if let Some(path) = arg(args, "--evidence") {
        evidence::write(&path, &prop, &tier, vseed, &sums, t0.elapsed().as_secs_f64(), nviol, &lim);
    }
    std::process::exit(code);
}

/// The beginning and the end of what may be very long.
fn shown(t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    if c.len() <= 4000 {
        return t.to_string();
    }
    format!("{} ... {}", c[..2500].iter().collect::<String>(), c[c.len() - 1000..].iter().collect::<String>())
}

fn replay(args: &[String]) {
    let b = std::fs::read(&args[2]).expect("replay file");
    let j: serde_json::Value = serde_json::from_slice(&b).expect("replay file");
    let s: Session = serde_json::from_value(j["session"].clone()).expect("session");
    let want: Violation = serde_json::from_value(j["violation"].clone()).expect("violation");
    pin(0);
    let mut r = Runner::new();
    let (out, v) = execute(&mut r, &mut Solo::new(), &s);
    let same_run = j["hash"].as_u64() == Some(out.hash) && j["steps"].as_u64() == Some(out.steps);
    println!("steps {} hash {:#x} ({})", out.steps, out.hash, if same_run { "the recorded execution, step for step" } else { "not the recorded execution" });
    match v.iter().find(|x| x.class == want.class).or(v.first()) {
        Some(x) => {
            println!("{}: {}", x.class, shown(&x.detail));
            println!("VIOLATION property={} replay={}", s.prop, args[2]);
            std::process::exit(1);
        }
        None => println!("no violation"),
    }
}
