#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
A = "deterministic simulation with fault injection: "
TECH = {
 "C01": A + "seeded thread interleaving at every load, store and edge; results compared with solo runs",
 "C02": A + "seeded interleaving of first uses in a fresh process with simulated futexes",
 "C03": A + "re-entrant parses injected at seeded call-outs",
 "C04": A + "panics injected at seeded call-outs, later and concurrent parses compared with solo runs",
 "C05": A + "panic/refuse/abandon faults with exact accounting in a simulated allocator and a value ledger",
 "C09": A + "seeded interleaving, cancellation and dropping of suspended match iterators against solo runs",
 "C11": A + "seeded allocator placement, address reuse and hash seeds against solo runs",
 "C14": A + "seeded stalls in user code under a controlled scheduler, progress of everyone else checked",
 "C15": A + "seeded histories of parses, faults, drops and thread restarts against solo runs",
 "C06": A + "simulated sub-parsers and conversions, recorded call history checked against a reference model",
 "C07": A + "simulated sub-parsers as protocol monitors, seeded refusals and withdrawals",
 "C08": A + "simulated sub-parsers whose offers and refusals are seeded, results checked against a reference model",
 "C10": A + "simulated sub-parsers reporting failures at seeded points, error checked against a reference model",
 "C12": A + "step-bounded runs under seeded refusals and empty matches, request counts checked against a reference model",
 "C13": A + "simulated sub-parsers inside line/section recording what they are given, checked against a reference model",
}
NOTE_A = "Every run of the quick and thorough tiers is a seeded execution of the real library; a clean batch is evidence, not proof. Trusts the simulator (scheduler, allocator, futex stand-ins) and that each operation run alone in a fresh process is right."
NOTE_B = "Seeded search over pattern trees, texts and scripts of simulated sub-parsers on the real library, checked against an executable reference model; a clean batch is evidence, not proof. Trusts the model."
NA = {
 "C21": "a pure function of the text: no schedule, clock, fault or second party takes part (regex matching and number conversion of one slice)",
 "C22": "a pure function of the text at one position: no schedule, fault or second party takes part",
 "C23": "decided by macro expansion at compile time: nothing to simulate",
 "C24": "a pure function of source text and offset: no schedule, fault or second party takes part",
 "C25": "a pure function of one string: no schedule, fault or second party takes part",
}
built = set(open(here + "/tools/built.txt").read().split())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE_A if i in ("C01","C02","C03","C04","C05","C09","C11","C14","C15") else NOTE_B})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: instrumentation comes from the compiler (sim/rustc-wrap.sh) and from interposed system calls. ./check replay FILE replays a violation."},
          open(here + "/MANIFEST.json", "w"), indent=1)
