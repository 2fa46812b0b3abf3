//! Executes one session inside a forked child.
use crate::corpus::{self, Cursor, Entry};
use crate::user;
use serde::{Deserialize, Serialize};
use simlib::session::*;
use simrt::arena::{self, arena, Place};
use simrt::sched::{self, loud, quiet, Plan, Switch};
use simrt::hooks;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct OpRes {
    pub task: u32,
    pub op: u32,
    /// Empty if the operation ended with the injected panic, as it should.
    pub out: String,
    pub clean: bool,
    /// Per cursor: (what, end or -1, text)
    #[serde(default)]
    pub cur: Vec<Vec<(u8, i64, String)>>,
    #[serde(default)]
    pub nested: Vec<(String, String, String)>,
    pub calls: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct RunResult {
    /// (class, detail) found while running.
    pub bad: Vec<(String, String)>,
    pub ops: Vec<OpRes>,
    pub steps: u64,
    pub switches: Vec<(u32, u64, u32, u8)>,
    pub hash: u64,
    pub stall_blocked: bool,
    pub fired: BTreeMap<String, u64>,
    pub clock: u64,
    pub random: u64,
    pub futex: u64,
    pub allocs: u64,
    pub reused: u64,
    pub calls: u64,
    /// tree engine: texts tried, accepted, requests made by the library and by the model
    #[serde(default)]
    pub b: BTreeMap<String, u64>,
}

static mut RES: Option<RunResult> = None;
/// The results so far. Only the token holder (or the controller) may use it.
#[allow(static_mut_refs)]
pub fn res() -> &'static mut RunResult {
    unsafe { RES.get_or_insert_with(RunResult::default) }
}

/// Called once, at the very end, to hand the result to the parent.
static mut SEND: fn(&RunResult) = |_| {};

/// The most scheduling decisions a result lists one by one.
const LISTED: usize = 400_000;

fn finish() {
    let r = sched::report();
    let out = res();
    out.steps = r.steps;
    out.hash = r.hash;
    out.stall_blocked = r.stall_blocked;
    if sched::s().holds > 0 {
        out.fired.insert("held_in_library".into(), sched::s().holds);
    }
    if r.switches.len() <= LISTED {
        out.switches = r.switches.iter().map(|w: &Switch| (w.tid, w.step, w.to, w.why)).collect();
    } else {
        // still replayable from its plan, only not as a list
        out.fired.insert("schedule_too_long_to_list".into(), 1);
    }
    out.b.insert("simulated_us".into(), r.now_ns / 1000);
    out.clock = hooks::CLOCK_READS.load(Ordering::Relaxed);
    out.random = hooks::RANDOM_READS.load(Ordering::Relaxed);
    out.futex = hooks::FUTEX_WAITS.load(Ordering::Relaxed);
    out.allocs = arena().allocs;
    out.reused = arena().reused;
    let b = out.bad.len() as u64;
    let mut h = out.hash ^ b;
    for o in &out.ops {
        for c in o.out.bytes() {
            h = (h ^ c as u64).wrapping_mul(0x100000001b3);
        }
    }
    out.hash = h;
    unsafe { SEND(out) }
}

fn on_fatal(class: &str, detail: &str) -> ! {
    res().bad.push((class.to_string(), detail.to_string()));
    finish();
    unsafe { libc::_exit(0) }
}

pub fn plan(p: &PlanS) -> Plan {
    match p {
        PlanS::Serial => Plan::Serial,
        PlanS::Random { seed, gap, p_event, hold } => Plan::Random { seed: *seed, gap: *gap, p_event: *p_event, hold: *hold },
        PlanS::Pct { seed, depth, est, hold } => Plan::Pct { seed: *seed, depth: *depth, est: *est, hold: *hold },
        PlanS::Explicit(v) => Plan::Explicit(v.iter().map(|&(tid, step, to, why)| Switch { tid, step, to, why }).collect()),
    }
}

/// Run the session; `send` gets the result. Never returns.
pub fn child(s: &Session, send: fn(&RunResult)) -> ! {
    unsafe { SEND = send };
    if std::env::var_os("AOCSIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    sched::set_fatal(on_fatal);
    if !arena::reserve() {
        on_fatal("harness", "cannot reserve simulated memory");
    }
    arena().setup(match s.env.place {
        PlaceS::Lifo => Place::Lifo,
        PlaceS::Fresh => Place::Fresh,
        PlaceS::LowBits(k) => Place::LowBits(k),
        PlaceS::Gaps(x) => Place::Gaps(x),
        PlaceS::Wide(k) => Place::Wide(k),
    });
    hooks::HASH_SEED.store(s.env.hash_seed, Ordering::Relaxed);
    if !s.cases.is_empty() {
        sched::run_here(s.cap, || crate::tree::run(s));
    } else {
        run_ops(s);
    }
    finish();
    unsafe { libc::_exit(0) }
}

fn uses(s: &Session) -> Vec<usize> {
    let mut v = Vec::new();
    for t in &s.tasks {
        for o in t {
            match o {
                Op::Parse { p, inst: Inst::Shared, .. } => v.push(corpus::index(p)),
                Op::Cursors { open, .. } => v.extend(open.iter().map(|o| corpus::index(&o.0))),
                _ => {}
            }
        }
    }
    for f in &s.faults {
        if let FaultKind::Reenter { p, same: false, .. } = &f.kind {
            v.push(corpus::index(p));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// The texts that everybody shares.
static mut TEXTS: BTreeMap<String, String> = BTreeMap::new();
#[allow(static_mut_refs)]
pub fn shared_text(t: &str) -> Option<&'static str> {
    unsafe { TEXTS.get(t).map(|s| s.as_str()) }
}
#[allow(static_mut_refs)]
fn share_texts(s: &Session) {
    let ops = s.tasks.iter().flatten().flat_map(|o| match o {
        Op::Parse { t, buf: Buf::Own, .. } => vec![t],
        Op::Cursors { open, .. } => open.iter().map(|o| &o.1).collect(),
        _ => vec![],
    });
    for t in ops {
        let here = loud(|| t.to_string());
        unsafe { TEXTS.insert(t.clone(), here) };
    }
}

fn run_ops(s: &Session) {
    let u = uses(s);
    if s.prop == "C16" {
        crate::kept::keep_from_now_on();
    }
    if s.prop == "C17" {
        user::others_come_and_go();
    }
    sched::run_here(s.cap, || {
        for i in u {
            corpus::prepare(i);
        }
        if s.one_text {
            quiet(|| share_texts(s));
        }
    });
    if s.threads {
        let tasks: Vec<sched::Task> = (0..s.tasks.len())
            .map(|i| {
                let sp = s as *const Session as usize;
                let b: sched::Task = Box::new(move || {
                    let s: &'static Session = unsafe { &*(sp as *const Session) };
                    task(s, i);
                });
                b
            })
            .collect();
        // a wave of threads after the other
        let size = if s.wave == 0 { tasks.len() } else { s.wave as usize };
        let mut tasks = tasks.into_iter();
        let mut base = 0;
        let mut held = Vec::new();
        loop {
            let now: Vec<sched::Task> = tasks.by_ref().take(size).collect();
            if now.is_empty() {
                break;
            }
            let n = now.len();
            sched::run_threads(now, base, plan(&s.plan), s.cap);
            base += n;
            held.push((arena().live, arena().live_bytes));
            if s.wave != 0 {
                *res().fired.entry("threads_ended_before_others_began".into()).or_default() += n as u64;
            }
        }
        // every thread did the same, and has ended
        if s.prop == "C05" && held.len() >= 30 && !user::any_may_leak() {
            let late = &held[held.len() - 16..];
            if late.windows(2).all(|w| w[1].0 > w[0].0) || late.windows(2).all(|w| w[1].1 > w[0].1) {
                res().bad.push(("leak".into(), format!("memory still held after each of {} threads has ended (blocks, bytes), the last 16: {late:?}", held.len())));
            }
        }
    } else {
        let s: &'static Session = unsafe { &*(s as *const Session) };
        sched::run_here(s.cap, || {
            for i in 0..s.tasks.len() {
                task(s, i);
            }
        });
    }
    if crate::kept::on() {
        // on the main thread, when all others have ended
        sched::run_here(s.cap, crate::kept::close);
    }
}

#[derive(Default)]
struct TaskState {
    reused: Option<Vec<u8>>,
}

struct Last(RefCell<Option<(&'static Session, usize, TaskState)>>);
impl Drop for Last {
    fn drop(&mut self) {
        let Some((s, ti, mut st)) = quiet(|| self.0.take()) else { return };
        quiet(|| *res().fired.entry("parse_while_the_thread_ends".into()).or_default() += 1);
        let n = s.tasks[ti].len();
        let r = catch_unwind(AssertUnwindSafe(|| ops(s, ti, n - 1..n, &mut st)));
        if r.is_err() {
            quiet(|| res().bad.push(("panic".into(), "a task panicked at its end".into())));
        }
        corpus::drop_kept();
        drop(st);
    }
}
thread_local! {
    static LAST: Last = const { Last(RefCell::new(None)) };
}

fn task(s: &'static Session, ti: usize) {
    let mut st = TaskState::default();
    let n = s.tasks[ti].len();
    if s.threads && s.last_words && n > 0 {
        // older than LAST, so that they outlive it
        user::with(|_| ());
        corpus::touch_kept();
        crate::tree::touch();
        LAST.with(|l| quiet(|| *l.0.borrow_mut() = None));
        ops(s, ti, 0..n - 1, &mut st);
        LAST.with(|l| quiet(|| *l.0.borrow_mut() = Some((s, ti, st))));
    } else {
        ops(s, ti, 0..n, &mut st);
        corpus::drop_kept();
        drop(st);
    }
}

fn ops(s: &Session, ti: usize, which: std::ops::Range<usize>, st: &mut TaskState) {
    quiet(|| {
        for oi in which {
            let op = &s.tasks[ti][oi];
            user::with(|c| {
                c.task = ti as u32;
                c.op = oi as u32;
            });
            let times = if let Op::Parse { times, .. } = op { *times } else { 1 };
            let reps = if s.prop == "C05" { times.max(5) } else { times };
            let mut first: Option<OpRes> = None;
            // memory held after 32, 64, 128 and 256 times
            let slow = s.prop == "C05" && reps >= 256;
            let mut held = Vec::new();
            let mut deltas = Vec::new();
            let mut last = OpRes::default();
            for rep in 0..reps {
                reset(s, ti, oi);
                let before = (arena().live, arena().live_bytes);
                last = one(op, st, &s.prop);
                let after = (arena().live, arena().live_bytes);
                if rep < 40 {
                    deltas.push((after.0 - before.0, after.1 - before.1));
                }
                if slow && [31, 63, 127, 255].contains(&rep) {
                    held.push(after);
                }
                if s.prop == "C05" {
                    ledger(&mut last, op);
                }
                if rep + 1 < reps {
                    user::with(|c| {
                        for (k, n) in c.fired.drain(..) {
                            *res().fired.entry(k.to_string()).or_default() += n as u64;
                        }
                        res().calls += c.calls as u64;
                    });
                }
                match &first {
                    None => first = Some(last.clone()),
                    Some(f) if times > 1 && s.prop != "C05" && (f.clean, &f.out, &f.nested) != (last.clean, &last.out, &last.nested) => {
                        res().bad.push((
                            if last.out.starts_with("panic") { "panic" } else { "mismatch" }.into(),
                            format!("task {ti} operation {oi}: {op:?}: time {} gave {:?} {:?}, the first time {:?} {:?}", rep + 1, last.out, last.nested, f.out, f.nested),
                        ));
                        break;
                    }
                    _ => {}
                }
            }
            if let (true, Some(f)) = (times > 1, first) {
                last = f;
            }
            if s.prop == "C05" && !user::with(|c| c.may_leak) {
                let d = &deltas[2..];
                if d.iter().all(|x| x.0 > 0) || d.iter().all(|x| x.1 > 0) {
                    res().bad.push(("leak".into(), format!("task {ti} op {oi}: memory still held after each repetition (blocks, bytes): {deltas:?}")));
                } else if d.iter().all(|x| x.0 < 0) {
                    res().bad.push(("leak".into(), format!("task {ti} op {oi}: more memory freed than allocated in each repetition: {deltas:?}")));
                }
            }
            if held.len() == 4 && !user::with(|c| c.may_leak) && (held.windows(2).all(|w| w[1].0 > w[0].0) || held.windows(2).all(|w| w[1].1 > w[0].1)) {
                res().bad.push(("leak".into(), format!("task {ti} op {oi}: memory held after 32, 64, 128 and 256 repetitions (blocks, bytes): {held:?}")));
            }
            last.task = ti as u32;
            last.op = oi as u32;
            user::with(|c| {
                for (k, n) in c.fired.drain(..) {
                    *res().fired.entry(k.to_string()).or_default() += n as u64;
                }
                res().calls += c.calls as u64;
            });
            for b in last.out.bytes().take(64) {
                sched::note_event(b as u64);
            }
            res().ops.push(last);
            crate::kept::look_again(2, (ti * 1000 + oi) as u64);
        }
    });
}

fn reset(s: &Session, ti: usize, oi: usize) {
    user::with(|c| {
        c.calls = 0;
        c.conv_calls = 0;
        c.faults.clear();
        c.faults.extend(s.faults.iter().filter(|f| f.task == ti as u32 && f.op == oi as u32).cloned());
        c.nested.clear();
        c.raised = None;
        c.running.clear();
        c.depth = 0;
        c.toks.clear();
        c.tok_double = 0;
        c.may_leak = false;
        c.tok_shown = s.prop == "C05";
    })
}

fn without_serials(text: &str) -> (String, Vec<u32>) {
    let mut plain = String::new();
    let mut seen: Vec<u32> = Vec::new();
    let mut rest = text;
    while let Some(i) = rest.find('\u{1}') {
        let Some(n) = rest[i..].find('\u{2}') else { break };
        let Ok(serial) = rest[i + 1..i + n].parse() else { break };
        plain.push_str(&rest[..i]);
        seen.push(serial);
        rest = &rest[i + n + 1..];
    }
    plain.push_str(rest);
    (plain, seen)
}

fn ledger(r: &mut OpRes, op: &Op) {
    let (toks, double, nested, may_leak) = user::with(|c| (c.toks.clone(), c.tok_double, c.nested.len(), c.may_leak));
    let bad = &mut res().bad;
    let never = toks.iter().filter(|&&n| n == 0).count();
    if double > 0 {
        bad.push(("drop".into(), format!("{double} user values dropped more than once ({op:?})")));
    }
    if never > 0 && !may_leak {
        bad.push(("drop".into(), format!("{never} of {} user values never dropped ({op:?})", toks.len())));
    }
    // take the serial numbers out of the texts again
    let (plain, mut seen) = without_serials(&r.out);
    r.out = plain;
    for c in r.cur.iter_mut().flatten() {
        c.2 = without_serials(&c.2).0;
    }
    for n in &mut r.nested {
        n.2 = without_serials(&n.2).0;
    }
    if let (Op::Parse { p, .. }, true) = (op, r.out.starts_with("ok:")) {
        let n = seen.len();
        seen.sort();
        seen.dedup();
        if seen.len() != n {
            bad.push(("drop".into(), format!("a user value occurs twice in the result ({op:?})")));
        }
        let conserving = !corpus::may_merge(corpus::index(p)) && nested == 0 && r.nested.is_empty();
        if conserving && seen.len() != toks.len() {
            bad.push(("drop".into(), format!("{} user values created, {} in the result ({op:?})", toks.len(), seen.len())));
        }
    }
}

/// Take a finished (or unwound) piece of work apart.
fn settle<R>(r: std::thread::Result<R>) -> Result<R, (String, bool)> {
    match r {
        Ok(v) => match user::with(|c| c.raised.take()) {
            None => Ok(v),
            Some(id) => {
                loud(|| drop(v));
                Err((format!("panic #{id} was swallowed"), true))
            }
        },
        Err(payload) => {
            let want = user::with(|c| c.raised.take());
            let ok = want.is_some_and(|id| user::is_payload(&*payload, id));
            let text = user::panic_text(&*payload);
            loud(|| drop(payload));
            if ok {
                Err((String::new(), false))
            } else {
                Err((format!("panic: {text} (expected: {want:?})"), true))
            }
        }
    }
}

/// Whatever panics outside the places that expect it, it is the operation that has failed.
fn one(op: &Op, st: &mut TaskState, prop: &str) -> OpRes {
    match catch_unwind(AssertUnwindSafe(|| one_unguarded(op, st, prop))) {
        Ok(r) => r,
        Err(payload) => {
            let text = user::panic_text(&*payload);
            loud(|| drop(payload));
            user::with(|c| c.raised = None);
            OpRes { clean: true, out: format!("panic: {text} (outside of any call of user code)"), ..Default::default() }
        }
    }
}

fn copied(yes: bool) {
    *res().b.entry(if yes { "parsers_copied" } else { "parsers_that_cannot_be_copied" }.into()).or_default() += 1;
}

fn one_unguarded(op: &Op, st: &mut TaskState, prop: &str) -> OpRes {
    let mut r = OpRes { clean: true, ..Default::default() };
    match op {
        Op::Parse { p, t, inst, buf, .. } => {
            let i = corpus::index(p);
            let got = catch_unwind(AssertUnwindSafe(|| {
                let mut temp: Option<Box<dyn Entry>> = None;
                let e: &dyn Entry = match inst {
                    Inst::Shared => corpus::shared(i).unwrap_or_else(|| corpus::kept(i)),
                    Inst::Kept => corpus::kept(i),
                    Inst::Renewed => loud(|| corpus::renewed(i)),
                    Inst::Copy => {
                        let of = corpus::shared(i).unwrap_or_else(|| corpus::kept(i));
                        temp = loud(|| of.copy());
                        copied(temp.is_some());
                        temp.as_deref().unwrap_or(of)
                    }
                    Inst::Orphan => {
                        let of = loud(|| corpus::build(i));
                        temp = loud(|| of.copy());
                        copied(temp.is_some());
                        match temp {
                            Some(_) => loud(|| drop(of)),
                            None => temp = Some(of),
                        }
                        &**temp.as_ref().unwrap()
                    }
                    Inst::Temp => {
                        temp = Some(loud(|| corpus::build(i)));
                        &**temp.as_ref().unwrap()
                    }
                };
                struct Loud<T>(Option<T>);
                impl<T> Drop for Loud<T> {
                    fn drop(&mut self) {
                        loud(|| self.0.take());
                    }
                }
                let out = match buf {
                    Buf::Own if shared_text(t).is_some() => loud(|| corpus::run_entry(e, shared_text(t).unwrap())),
                    Buf::Own => {
                        let s = Loud(Some(loud(|| t.to_string())));
                        loud(|| corpus::run_entry(e, s.0.as_ref().unwrap()))
                    }
                    Buf::Reused => {
                        let b = st.reused.get_or_insert_with(|| loud(|| vec![b'#'; 8192]));
                        if t.len() > b.len() {
                            loud(|| b.resize(t.len(), b'#'));
                        }
                        let n = t.len();
                        b[..n].copy_from_slice(t.as_bytes());
                        let s = std::str::from_utf8(&b[..n]).unwrap();
                        loud(|| corpus::run_entry(e, s))
                    }
                    Buf::Helper => {
                        let s = Loud(Some(loud(|| t.to_string())));
                        loud(|| corpus::run_entry_as(e, s.0.as_ref().unwrap(), true))
                    }
                    Buf::Sub(k) => {
                        let s = Loud(Some(loud(|| {
                            let mut s = String::with_capacity(t.len() + 2 * *k as usize);
                            for j in 0..*k {
                                s.push(b"a1\n,"[j as usize % 4] as char);
                            }
                            s.push_str(t);
                            for j in 0..*k {
                                s.push(b"1a\n)"[j as usize % 4] as char);
                            }
                            s
                        })));
                        let k = *k as usize;
                        loud(|| corpus::run_entry(e, &s.0.as_ref().unwrap()[k..k + t.len()]))
                    }
                };
                let _t = Loud(temp);
                out
            }));
            match settle(got) {
                Ok(out) => r.out = out,
                Err((text, clean)) => {
                    r.out = text;
                    r.clean = clean;
                }
            }
        }
        Op::Cursors { open, acts } => cursors(open, acts, &mut r, prop == "C17"),
        Op::Scale { kind, n, k } => {
            let got = catch_unwind(AssertUnwindSafe(|| loud(|| crate::scale::scale(kind, *n, *k))));
            match settle(got) {
                Ok((out, bad)) => {
                    r.out = out;
                    let b = &mut res().b;
                    *b.entry("large_parses".into()).or_default() += 1;
                    *b.entry("nontrivial".into()).or_default() += 1;
                    let e = b.entry(format!("max_size_{kind}")).or_default();
                    *e = (*e).max(*n as u64);
                    for (class, text) in bad {
                        if crate::scale::concerns(prop, class) {
                            res().bad.push((class.into(), format!("{kind} of size {n} ({k}): {text}")));
                        }
                    }
                }
                Err((text, clean)) => {
                    r.out = text;
                    r.clean = clean;
                }
            }
        }
        Op::Churn { n, keep } => {
            let got = catch_unwind(AssertUnwindSafe(|| loud(|| crate::churn::churn(*n, *keep))));
            match settle(got) {
                Ok(out) => r.out = out,
                Err((text, clean)) => {
                    r.out = text;
                    r.clean = clean;
                }
            }
        }
    }
    user::with(|c| {
        r.calls = c.calls;
        for n in c.nested.drain(..) {
            if n.clean {
                r.nested.push((n.p, n.t, n.out));
            }
        }
    });
    r
}

fn cursors(open: &[(String, String, bool)], acts: &[(u8, Act)], r: &mut OpRes, others: bool) {
    let texts: Vec<Option<String>> = open.iter().map(|o| if shared_text(&o.1).is_some() { None } else { Some(loud(|| o.1.to_string())) }).collect();
    let sharing = open.iter().any(|o| o.2);
    let mut cs: Vec<Option<Box<dyn Cursor>>> = Vec::new();
    for (i, (p, _, in_first)) in open.iter().enumerate() {
        let e = corpus::instance(p);
        let c = loud(|| unsafe {
            if *in_first && i > 0 {
                let ctx = cs[0].as_mut().unwrap().ctx();
                e.open_in(ctx, 0)
            } else {
                e.open(texts[i].as_deref().or(shared_text(&open[i].1)).unwrap(), !(sharing && i == 0))
            }
        });
        cs.push(Some(c));
        r.cur.push(Vec::new());
    }
    let mut live = vec![false; cs.len()];
    let mut k = vec![0usize; cs.len()];
    for (n, (who, act)) in acts.iter().enumerate() {
        if others && n % 3 == 2 {
            // other parsers come and go
            let i = corpus::index(&open[n % open.len()].0);
            let _ = settle(catch_unwind(AssertUnwindSafe(|| loud(|| corpus::come_and_go(i, n as u64)))));
        }
        let w = *who as usize % cs.len();
        let c = match &mut cs[w] {
            Some(c) => c,
            None => continue,
        };
        if matches!(act, Act::Next | Act::Value) && !live[w] {
            continue;
        }
        let own_err = !(sharing && (w == 0 || open[w].2));
        let got = catch_unwind(AssertUnwindSafe(|| {
            loud(|| match act {
                Act::Start => (0u8, c.start().map_or(-1, |e| e as i64), String::new()),
                Act::Next => (1, c.next().map_or(-1, |e| e as i64), String::new()),
                Act::Value => (2, 0, c.value()),
                Act::Drop => {
                    c.stop();
                    (3, 0, String::new())
                }
            })
        }));
        match settle(got) {
            Ok((kind, end, text)) => {
                match kind {
                    0 => {
                        k[w] = 0;
                        live[w] = end >= 0;
                    }
                    1 => {
                        k[w] += 1;
                        live[w] = end >= 0;
                    }
                    3 => live[w] = false,
                    _ => {}
                }
                let mut text = text;
                if kind < 2 && end < 0 && own_err {
                    let e = catch_unwind(AssertUnwindSafe(|| loud(|| c.error())));
                    text = match settle(e) {
                        Ok(t) => t,
                        Err((t, _)) => t,
                    };
                }
                let code = if kind == 2 { 2 } else if kind == 3 { 3 } else { 1 };
                if code != 3 {
                    r.cur[w].push((code, if code == 2 { k[w] as i64 } else { end }, text));
                    let (c, e, t) = r.cur[w].pop().unwrap();
                    // (1, end, error) for the match with number k, (2, k, value)
                    r.cur[w].push((c, e, format!("{}\u{0}{}", k[w], t)));
                }
            }
            Err((text, clean)) => {
                // After a panic an iterator is good for nothing but to be dropped.
                if clean {
                    r.cur[w].push((9, 0, format!("{}\u{0}{}", k[w], text)));
                }
                live[w] = false;
                let _ = settle(catch_unwind(AssertUnwindSafe(|| loud(|| c.stop()))));
            }
        }
    }
    for (w, c) in cs.iter_mut().enumerate().rev() {
        if let Some(mut c) = c.take() {
            if let Err((text, true)) = settle(catch_unwind(AssertUnwindSafe(|| loud(|| c.stop())))) {
                r.cur[w].push((9, 0, format!("{}\u{0}{}", k[w], text)));
            }
            loud(|| drop(c));
        }
    }
    for t in texts {
        loud(|| drop(t));
    }
}
