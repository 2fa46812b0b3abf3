//! What a run covered.
use crate::exec::RunResult;
use crate::{Limits, Summary, TREE_PROPS};
use serde_json::{json, Value};
use simlib::session::*;
use std::collections::{BTreeMap, BTreeSet};

/// Did this run exercise what the property is about?
pub fn nontrivial(prop: &str, s: &Session, out: &RunResult) -> bool {
    let f = |k: &str| out.fired.get(k).copied().unwrap_or(0) > 0;
    match prop {
        "C01" | "C02" => out.switches.iter().any(|w| w.3 == 0 || w.3 == 4 || w.3 == 1),
        "C03" => f("reenter_same") || f("reenter_other"),
        "C04" => f("panic"),
        "C05" => out.allocs > 0,
        "C09" => out.ops.iter().any(|o| o.cur.iter().filter(|c| c.len() >= 2).count() >= 2),
        "C11" => out.allocs > 0,
        "C14" => f("stall_for_all") || f("stall"),
        "C15" => out.ops.len() >= 2,
        "C17" => out.b.contains_key("parsers_copied") || f("parser_comes_and_goes_in_callback"),
        "C12" if s.cases.is_empty() => out.ops.iter().any(|o| !o.out.is_empty()),
        _ => out.b.get("nontrivial").copied().unwrap_or(0) > 0,
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "seeded sessions of 2-12 threads over shared and private parsers; non-trivial: at least one thread was preempted in the middle of a parse; distinct: event hash of the run (every switch with thread and step, every call-out, every outcome)",
        "C02" => "seeded sessions in a fresh process whose first library calls are number parses on 2-10 threads; non-trivial: at least one preemption or futex wait while first use was under way; distinct: event hash",
        "C03" => "seeded sessions in which call-outs parse again; non-trivial: at least one nested parse was made; distinct: event hash",
        "C04" => "seeded sessions in which user code panics; non-trivial: at least one injected panic was raised; distinct: event hash",
        "C05" => "seeded operations repeated five times with ends by success, error, panic, refusal and abandonment; non-trivial: simulated memory was allocated; distinct: event hash",
        "C09" => "seeded programs over 1-5 match iterators; non-trivial: at least two iterators made at least two observable moves each; distinct: event hash",
        "C11" => "seeded placement policy, hash seed and text position; non-trivial: simulated memory was allocated under that policy; distinct: event hash",
        "C14" => "seeded sessions in which user code stalls; non-trivial: a stall was injected while other threads had work; distinct: event hash",
        "C15" => "seeded histories of 2-30 operations; non-trivial: at least two operations in the same process; distinct: event hash",
        "C17" => "seeded histories on one or more threads in which parsers are built, copied and dropped between parses, in callbacks, while match iterators are suspended and on other threads, and originals, copies and copies of dropped originals parse; non-trivial: at least one copy was made; distinct: event hash",
        "C16" => "seeded histories on one or more threads whose results and errors are kept and looked at again (message, debug form, position, text; the error or a copy) during and after later parses, on other threads, after parser, text and thread are gone; non-trivial: at least one kept error was looked at again; distinct: event hash",
        _ => "seeded pattern trees with scripted sub-parsers, each parsing several texts; non-trivial: at least one text needed a rejected offer (backtracking) or was refused; distinct: event hash of the run",
    }
}

pub fn sample(idx: u64, s: &Session, out: &RunResult) -> Value {
    let mut s2 = s.clone();
    s2.cases.truncate(1);
    json!({
        "index": idx,
        "session": s2,
        "steps": out.steps,
        "switches": out.switches.len(),
        "first_switches": &out.switches[..out.switches.len().min(6)],
        "fired": out.fired,
        "outcomes": out.ops.iter().take(6).map(|o| o.out.chars().take(120).collect::<String>()).collect::<Vec<_>>(),
        "hash": format!("{:#x}", out.hash),
    })
}

#[allow(clippy::too_many_arguments)]
pub fn write(path: &str, prop: &str, tier: &str, seed: u64, sums: &[Summary], wall: f64, violations: u64, lim: &Limits) {
    let mut t = Summary::default();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut edges: BTreeSet<u64> = BTreeSet::new();
    for s in sums {
        t.sessions += s.sessions;
        t.runs += s.runs;
        t.solo_runs += s.solo_runs;
        t.ops += s.ops;
        t.steps += s.steps;
        t.switches += s.switches;
        t.preempted += s.preempted;
        t.calls += s.calls;
        t.clock += s.clock;
        t.random += s.random;
        t.futex += s.futex;
        t.allocs += s.allocs;
        t.reused += s.reused;
        t.rechecked += s.rechecked;
        t.diverged += s.diverged;
        t.undecided += s.undecided;
        t.truncated |= s.truncated;
        t.edges = t.edges.max(s.edges);
        for (k, n) in &s.fired {
            *t.fired.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &s.b {
            let e = t.b.entry(k.clone()).or_default();
            *e = if k.starts_with("max_") { (*e).max(*n) } else { *e + n };
        }
        let cut = s.hashes.iter().position(|&h| h == u64::MAX).unwrap_or(s.hashes.len());
        hashes.extend(&s.hashes[..cut]);
        edges.extend(s.hashes.iter().skip(cut + 1));
    }
    let samples: Vec<Value> = sums.iter().flat_map(|s| s.samples.iter().cloned()).take(3).collect();
    let tree = TREE_PROPS.contains(&prop);
    let mut cov = json!({
        "evaluations": t.sessions,
        "distinct_nontrivial": hashes.len(),
        "rule": rule(prop),
        "samples": samples,
        "simulated_runs": t.runs,
        "runs_alone_for_comparison": t.solo_runs,
        "sessions_planned": lim.sessions,
        "cut_short_by_wall_clock": t.truncated,
        "sessions_per_hour": if wall > 0.0 { (t.sessions as f64 * 3600.0 / wall) as u64 } else { 0 },
        "operations": t.ops,
        "simulated_steps": t.steps,
        "runs_the_simulator_gave_up": t.undecided,
        "simulated_time_s": t.b.get("simulated_us").copied().unwrap_or(0) as f64 / 1e6,
        "scheduling_decisions": t.switches,
        "preemptions": t.preempted,
        "call_outs_to_user_code": t.calls,
        "faults_fired": t.fired.iter().filter(|f| !f.0.starts_with("in:")).collect::<BTreeMap<_, _>>(),
        "faults_fired_in": t.fired.iter().filter_map(|f| f.0.strip_prefix("in:").map(|k| (k, f.1))).collect::<BTreeMap<_, _>>(),
        "futex_waits_simulated": t.futex,
        "clock_reads": t.clock,
        "random_reads": t.random,
        "simulated_allocations": t.allocs,
        "addresses_reused": t.reused,
        "instrumented_edges_reached": edges.len(),
        "instrumented_edges": t.edges,
        "reruns_for_determinism": t.rechecked,
        "reruns_that_diverged": t.diverged,
        "real_components": ["aoc-parse (built from /repo)", "regex, num-bigint, lazy_static", "std: threads, Once, Mutex, collections, panics"],
        "stubs": ["thread scheduler", "futex", "clock", "getrandom", "heap allocator (simulated threads)", "user code: conversions, sub-parsers and their match iterators, collections, element hash and comparison"],
    });
    cov[if tree { "trees" } else { "counted" }] = json!(t.b);
    let _: BTreeMap<String, u64> = BTreeMap::new();
    let j = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "interleavings are sequentially consistent at the granularity of loads, stores and control-flow edges of aoc-parse and the scenarios; inside regex, num-bigint and std, threads switch only at allocations and futex waits",
            "x86-64 Linux, the installed stable toolchain, opt-level 1",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).expect("evidence file");
}
