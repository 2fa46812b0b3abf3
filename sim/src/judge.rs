//! Oracles over a finished run: every operation must have had the outcome it has
//! when it is alone in a fresh process.
use crate::exec::{OpRes, RunResult};
use crate::proc::Runner;
use serde::{Deserialize, Serialize};
use simlib::session::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub struct Solo {
    cache: BTreeMap<String, Option<OpRes>>,
    pub runs: u64,
}

/// One match sequence, driven alone: ends, values, final error.
struct Alone {
    ends: Vec<i64>,
    values: Vec<String>,
    error: Option<String>,
}
const DEPTH: usize = 48;

impl Solo {
    pub fn new() -> Solo {
        Solo { cache: BTreeMap::new(), runs: 0 }
    }

    fn run(&mut self, r: &mut Runner, key: String, mut ops: Vec<Op>, faults: Vec<Fault>) -> Option<OpRes> {
        if let Some(x) = self.cache.get(&key) {
            return x.clone();
        }
        let s = Session {
            prop: "solo".into(),
            seed: 0,
            env: Env { place: PlaceS::Fresh, hash_seed: 1 },
            threads: false,
            wave: 0,
        one_text: false,
        last_words: false,
            tasks: vec![std::mem::take(&mut ops)],
            faults,
            cases: vec![],
            plan: PlanS::Serial,
            cap: 40_000_000,
        };
        let n = s.tasks[0].len();
        let out = r.run(&s);
        self.runs += 1;
        let v = match out {
            Ok(mut x) if x.bad.is_empty() && x.ops.len() == n => x.ops.pop(),
            _ => None,
        };
        if self.cache.len() > 60_000 {
            self.cache.clear();
        }
        self.cache.insert(key, v.clone());
        v
    }

    /// `warm`: in a process that has used this parser before.
    fn parse(&mut self, r: &mut Runner, p: &str, t: &str, rejects: &[u32], warm: bool) -> Option<OpRes> {
        let key = format!("P{p}\u{0}{t}\u{0}{rejects:?}{warm}");
        let op = |t: &str| Op::Parse { p: p.into(), t: t.into(), inst: Inst::Temp, buf: Buf::Own, times: 1 };
        let i = crate::corpus::index(p);
        let mut ops = Vec::new();
        if warm && i < crate::corpus::DEFS.len() {
            let d = &crate::corpus::DEFS[i];
            ops.extend(d.texts.iter().take(3).map(|t| op(t)));
        }
        let me = ops.len() as u32;
        ops.push(op(t));
        let faults = rejects.iter().map(|&at| Fault { task: 0, op: me, at, kind: FaultKind::Reject }).collect();
        self.run(r, key, ops, faults)
    }

    fn cursor(&mut self, r: &mut Runner, p: &str, t: &str) -> Option<Alone> {
        let key = format!("C{p}\u{0}{t}");
        let mut acts = vec![(0, Act::Start)];
        for _ in 0..DEPTH {
            acts.push((0, Act::Value));
            acts.push((0, Act::Next));
        }
        let op = Op::Cursors { open: vec![(p.into(), t.into(), false)], acts };
        let x = self.run(r, key, vec![op], vec![])?;
        let mut a = Alone { ends: vec![], values: vec![], error: None };
        for (code, n, text) in &x.cur[0] {
            let text = text.split_once('\u{0}').map_or("", |x| x.1);
            match code {
                1 if *n >= 0 => a.ends.push(*n),
                1 => {
                    a.ends.push(-1);
                    a.error = Some(text.to_string());
                }
                2 => a.values.push(text.to_string()),
                _ => return None,
            }
        }
        Some(a)
    }

    /// All violations in this run, most telling first.
    pub fn judge(&mut self, r: &mut Runner, s: &Session, out: &RunResult) -> Vec<Violation> {
        let mut v: Vec<Violation> = out.bad.iter().map(|b| Violation { class: b.0.clone(), detail: b.1.clone() }).collect();
        if out.stall_blocked {
            v.push(Violation { class: "blocked".into(), detail: "another parse could not go on until a parse stalled in user code was resumed".into() });
        }
        for o in &out.ops {
            let op = &s.tasks[o.task as usize][o.op as usize];
            let at = format!("task {} operation {}", o.task, o.op);
            match op {
                Op::Parse { p, t, buf, .. } => {
                    let t = &*text_of(t, *buf);
                    if !o.clean {
                        // ended with the injected panic, as it should
                    } else {
                        let rejects: Vec<u32> = s
                            .faults
                            .iter()
                            .filter(|f| f.task == o.task && f.op == o.op && f.kind == FaultKind::Reject)
                            .map(|f| f.at)
                            .collect();
                        if let Some(b) = self.parse(r, p, t, &rejects, s.prop == "C02") {
                            if b.out != o.out {
                                v.push(mismatch(&at, p, t, &o.out, &b.out));
                            }
                        }
                    }
                }
                Op::Churn { .. } => {
                    if o.clean && !o.out.starts_with("ok:") {
                        v.push(Violation { class: "mismatch".into(), detail: format!("{at}: many rule sets: {}", o.out) });
                    }
                }
                Op::Scale { kind, n, .. } => {
                    if o.clean && !o.out.starts_with("ok:") {
                        v.push(Violation { class: "panic".into(), detail: format!("{at}: {kind} of size {n}: {}", o.out) });
                    }
                }
                Op::Cursors { open, .. } => {
                    for (i, (p, t, shared)) in open.iter().enumerate() {
                        let sharing = open.iter().any(|o| o.2) && (i == 0 || *shared);
                        let a = match self.cursor(r, p, t) {
                            Some(a) => a,
                            None => continue,
                        };
                        for (code, n, text) in &o.cur[i] {
                            let (k, text) = text.split_once('\u{0}').unwrap_or(("0", ""));
                            let k: usize = k.parse().unwrap_or(0);
                            match code {
                                1 => {
                                    if let Some(e) = a.ends.get(k) {
                                        if e != n {
                                            v.push(Violation {
                                                class: "mismatch".into(),
                                                detail: format!("{at}: match iterator {i} ({p} on {t:?}): match {k} ends at {n}, alone it ends at {e} (-1: no more matches)"),
                                            });
                                        } else if *n < 0 && !sharing && a.error.as_deref() != Some(text) {
                                            v.push(Violation {
                                                class: "mismatch".into(),
                                                detail: format!("{at}: match iterator {i} ({p} on {t:?}): final error {text:?}, alone {:?}", a.error),
                                            });
                                        }
                                    }
                                }
                                2 => {
                                    if let Some(b) = a.values.get(k) {
                                        if b != text {
                                            v.push(Violation {
                                                class: "mismatch".into(),
                                                detail: format!("{at}: match iterator {i} ({p} on {t:?}): value of match {k} is {text:?}, alone {b:?}"),
                                            });
                                        }
                                    }
                                }
                                _ => v.push(Violation {
                                    class: "panic".into(),
                                    detail: format!("{at}: match iterator {i} ({p} on {t:?}): {text}"),
                                }),
                            }
                        }
                    }
                }
            }
            for (p, t, got) in &o.nested {
                if let Some(b) = self.parse(r, p, t, &[], false) {
                    if &b.out != got {
                        v.push(mismatch(&format!("{at}, nested parse"), p, t, got, &b.out));
                    }
                }
            }
        }
        v
    }
}

fn mismatch(at: &str, p: &str, t: &str, got: &str, want: &str) -> Violation {
    let class = if got.starts_with("panic") { "panic" } else { "mismatch" };
    Violation { class: class.into(), detail: format!("{at}: {p} on {t:?} gave {got:?}; alone it gives {want:?}") }
}
