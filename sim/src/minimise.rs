//! Shrinks a failing session and writes the replay file.
use crate::exec::RunResult;
use crate::judge::{Solo, Violation};
use crate::proc::Runner;
use simlib::session::*;
use simrt::rng::mix;
use std::time::Instant;

struct M {
    r: Runner,
    solo: Solo,
    class: String,
    t0: Instant,
    budget: f64,
    tries: u64,
    best: Option<(Session, RunResult, Violation)>,
}

impl M {
    fn over(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.budget
    }
    /// Does it still fail in the same way?
    fn fails(&mut self, s: &Session) -> bool {
        if self.tries > 0 && self.over() {
            return false;
        }
        self.tries += 1;
        let (out, v) = crate::execute(&mut self.r, &mut self.solo, s);
        match v.into_iter().find(|x| x.class == self.class) {
            Some(x) => {
                self.best = Some((s.clone(), out, x));
                true
            }
            None => false,
        }
    }
    /// The same structure under its own schedule, or another one.
    fn fails_somehow(&mut self, s: &Session) -> bool {
        if self.fails(s) {
            return true;
        }
        if !s.threads || matches!(s.plan, PlanS::Serial) {
            return false;
        }
        for i in 0..24u64 {
            if self.over() {
                return false;
            }
            let mut c = s.clone();
            c.plan = PlanS::Random { seed: mix(i) >> 12, gap: [3, 10, 40, 200, 1000, 8000][i as usize % 6], p_event: [0, 300][i as usize % 2], hold: [0, 0, 20][i as usize % 3] };
            if self.fails(&c) {
                return true;
            }
        }
        false
    }
    fn cur(&self) -> Session {
        self.best.as_ref().unwrap().0.clone()
    }
}

fn drop_op(s: &Session, t: usize, o: usize) -> Session {
    let mut c = s.clone();
    c.tasks[t].remove(o);
    c.faults.retain(|f| !(f.task as usize == t && f.op as usize == o));
    for f in &mut c.faults {
        if f.task as usize == t && f.op as usize > o {
            f.op -= 1;
        }
    }
    c
}
fn drop_task(s: &Session, t: usize) -> Session {
    let mut c = s.clone();
    c.tasks.remove(t);
    c.faults.retain(|f| f.task as usize != t);
    for f in &mut c.faults {
        if f.task as usize > t {
            f.task -= 1;
        }
    }
    c
}

pub fn shorter_texts(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let n = cs.len();
    let mut v = Vec::new();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            let mut x = cs.clone();
            x.drain(i..(i + k).min(n));
            v.push(x.into_iter().collect());
            i += k;
        }
        k /= 2;
    }
    v
}

fn structure(m: &mut M) {
    // fewer tasks, many at once first
    let mut k = m.cur().tasks.len() / 2;
    while k > 1 && !m.over() {
        let mut t = 0;
        while t + k <= m.cur().tasks.len() && m.cur().tasks.len() > k {
            let mut c = m.cur();
            for _ in 0..k {
                c = drop_task(&c, t);
            }
            if !m.fails(&c) {
                t += k;
            }
            if m.over() {
                break;
            }
        }
        k /= 2;
    }
    let mut again = true;
    while again && !m.over() {
        again = false;
        let s = m.cur();
        for t in (0..s.tasks.len()).rev() {
            if s.tasks.len() > 1 && m.fails_somehow(&drop_task(&s, t)) {
                again = true;
                break;
            }
        }
    }
    // fewer operations
    again = true;
    while again && !m.over() {
        again = false;
        let s = m.cur();
        'o: for t in 0..s.tasks.len() {
            // big bites first
            let n = s.tasks[t].len();
            if n > 4 {
                let mut c = s.clone();
                for _ in 0..n / 2 {
                    c = drop_op(&c, t, 0);
                }
                if m.fails_somehow(&c) {
                    again = true;
                    break 'o;
                }
            }
            for o in (0..n).rev() {
                if m.fails_somehow(&drop_op(&s, t, o)) {
                    again = true;
                    break 'o;
                }
            }
        }
    }
    // fewer faults
    again = true;
    while again && !m.over() {
        again = false;
        let s = m.cur();
        for f in 0..s.faults.len() {
            let mut c = s.clone();
            c.faults.remove(f);
            if m.fails_somehow(&c) {
                again = true;
                break;
            }
        }
    }
    // plainer surroundings
    for k in 0..3 {
        let s = m.cur();
        let mut c = s.clone();
        match k {
            0 => c.last_words = false,
            1 => c.one_text = false,
            _ => c.wave = 0,
        }
        if c != s && !m.over() {
            m.fails_somehow(&c);
        }
    }
    let s = m.cur();
    let mut c = s.clone();
    c.env = Env { place: PlaceS::Fresh, hash_seed: 1 };
    if c != s {
        m.fails_somehow(&c);
    }
    let s = m.cur();
    for t in 0..s.tasks.len() {
        for o in 0..s.tasks[t].len() {
            if m.over() {
                return;
            }
            let s = m.cur();
            if let Op::Parse { p, t: text, times, .. } = &s.tasks[t][o] {
                let mut c = s.clone();
                c.tasks[t][o] = Op::Parse { p: p.clone(), t: text.clone(), inst: Inst::Shared, buf: Buf::Own, times: *times };
                if c != s {
                    m.fails_somehow(&c);
                }
            }
            // fewer times
            let s = m.cur();
            if let Op::Parse { times, .. } = &s.tasks[t][o] {
                let most = *times;
                let (mut lo, mut hi) = (0, most);
                while hi - lo > 1 && !m.over() {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = s.clone();
                    if let Op::Parse { times, .. } = &mut c.tasks[t][o] {
                        *times = mid;
                    }
                    if m.fails(&c) {
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
            }
            // shorter texts
            let mut go = true;
            while go && !m.over() {
                go = false;
                let s = m.cur();
                if let Op::Parse { p, t: text, inst, buf, times } = &s.tasks[t][o] {
                    for x in shorter_texts(text) {
                        if m.over() {
                            return;
                        }
                        let mut c = s.clone();
                        c.tasks[t][o] = Op::Parse { p: p.clone(), t: x, inst: *inst, buf: *buf, times: *times };
                        if m.fails(&c) {
                            go = true;
                            break;
                        }
                    }
                }
            }
            // fewer cursor moves
            let mut go = true;
            while go && !m.over() {
                go = false;
                let s = m.cur();
                if let Op::Cursors { open, acts } = &s.tasks[t][o] {
                    let mut k = acts.len().div_ceil(2);
                    'k: while k >= 1 {
                        let mut i = 0;
                        while i < acts.len() {
                            if m.over() {
                                return;
                            }
                            let mut a = acts.clone();
                            a.drain(i..(i + k).min(acts.len()));
                            let mut c = s.clone();
                            c.tasks[t][o] = Op::Cursors { open: open.clone(), acts: a };
                            if m.fails(&c) {
                                go = true;
                                break 'k;
                            }
                            i += k;
                        }
                        if k == 1 {
                            break;
                        }
                        k /= 2;
                    }
                }
            }
            let s = m.cur();
            if let Op::Scale { n, .. } = &s.tasks[t][o] {
                let (mut lo, mut hi) = (1, *n);
                while hi - lo > 1 && !m.over() {
                    let mut c = m.cur();
                    let mid = lo + (hi - lo) / 2;
                    if let Op::Scale { n, .. } = &mut c.tasks[t][o] {
                        *n = mid;
                    }
                    if m.fails(&c) {
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
            }
            let mut go = true;
            while go && !m.over() {
                go = false;
                let s = m.cur();
                if let Op::Churn { n, keep } = &s.tasks[t][o] {
                    for x in [n / 2, n.saturating_sub(1)] {
                        if x < *n && x > 0 {
                            let mut c = s.clone();
                            c.tasks[t][o] = Op::Churn { n: x, keep: *keep };
                            if m.fails(&c) {
                                go = true;
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
}

fn schedule(m: &mut M) {
    let (s, out, _) = m.best.clone().unwrap();
    if !s.threads || out.fired.contains_key("schedule_too_long_to_list") {
        return;
    }
    let mut c = s.clone();
    c.plan = PlanS::Explicit(out.switches.clone());
    if !m.fails(&c) {
        return;
    }
    // drop whole ranges of decisions, then single ones
    let mut k = out.switches.len().div_ceil(2).max(1);
    loop {
        let mut i = 0;
        loop {
            if m.over() {
                return;
            }
            let s = m.cur();
            let PlanS::Explicit(w) = &s.plan else { return };
            if i >= w.len() {
                break;
            }
            let mut x = w.clone();
            x.drain(i..(i + k).min(w.len()));
            let mut c = s.clone();
            c.plan = PlanS::Explicit(x);
            if !m.fails(&c) {
                i += k;
            }
        }
        if k == 1 {
            break;
        }
        k = k.div_ceil(2);
    }
}

pub fn minimise(s: &Session, v: &Violation, budget: f64) -> (Session, Violation, u64) {
    let mut m = M { r: Runner::new(), solo: Solo::new(), class: v.class.clone(), t0: Instant::now(), budget, tries: 0, best: None };
    if !m.fails(s) {
        let mut v = v.clone();
        v.detail.push_str(" (did not fail again when rerun for minimisation)");
        return (s.clone(), v, m.tries);
    }
    if s.cases.is_empty() {
        structure(&mut m);
        schedule(&mut m);
    } else {
        cases(&mut m);
    }
    let (s, _, v) = m.best.unwrap();
    (s, v, m.tries)
}

fn cases(m: &mut M) {
    let s = m.cur();
    for i in 0..s.cases.len() {
        let mut c = s.clone();
        c.cases = vec![s.cases[i].clone()];
        if s.cases.len() > 1 && m.fails(&c) {
            break;
        }
    }
    let mut go = true;
    while go && !m.over() {
        go = false;
        let s = m.cur();
        for c in simlib::genb::smaller(&s) {
            if m.over() {
                return;
            }
            if m.fails(&c) {
                go = true;
                break;
            }
        }
    }
}

pub fn write_replay(path: &str, s: &Session, v: &Violation, idx: u64, vseed: u64, tries: u64) {
    let mut r = Runner::new();
    let (out, _) = crate::execute(&mut r, &mut Solo::new(), s);
    let j = serde_json::json!({
        "property": s.prop,
        "violation": v,
        "found_at": { "VERIF_SEED": vseed, "session_index": idx, "session_seed": s.seed },
        "minimiser_runs": tries,
        "session": s,
        "steps": out.steps,
        "hash": out.hash,
        "how_to_replay": format!("/verif/check replay {path}"),
    });
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
}
