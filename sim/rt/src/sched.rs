//! The scheduler. Simulated threads are real threads, but only the one holding
//! the token runs; every other one waits at its gate. All state below belongs to
//! the token holder (or to the controller, while no simulated thread runs).
use crate::raw::Gate;
use crate::rng::Rng;
use std::cell::{Cell, UnsafeCell};

pub const MAXT: usize = 140;
/// Longest run of steps of one thread while another one is ready.
pub const FAIR: u64 = 300_000;
/// A thread that has yielded this often in a row, with next to nothing in between, is
/// waiting for somebody else.
pub const SPINNING: u64 = 8_000;

struct Tls {
    tid: Cell<i32>,
    guard: Cell<u32>,
    step: Cell<u64>,
    next: Cell<u64>,
}
thread_local! {
    static T: Tls = const { Tls { tid: Cell::new(-1), guard: Cell::new(0), step: Cell::new(0), next: Cell::new(u64::MAX) } };
}

/// Ends a simulated thread: a thread is at its end when its thread-locals are destroyed.
struct End(Cell<Option<usize>>);
impl Drop for End {
    fn drop(&mut self) {
        let Some(i) = self.0.get() else { return };
        T.with(|t| {
            t.guard.set(1);
            let n = t.step.get();
            sync(s(), i, n);
            s().th[i].st = St::Done;
            t.tid.set(-1);
            t.guard.set(0);
        });
        s().ctl.open();
    }
}
thread_local! {
    static END: End = const { End(Cell::new(None)) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Idle,
    Ready,
    Blocked,
    Stalled,
    /// Taken off its processor in the middle of library code, for a long time.
    Held,
    Done,
}

/// One scheduling decision: thread `tid`, after its `step`-th step, gave way to `to`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Switch {
    pub tid: u32,
    pub step: u64,
    pub to: u32,
    /// 0: preempted, 1: blocked, 2: finished, 3: stalled, 4: yielded at a call-out,
    /// 5: preempted and not run again for seconds
    pub why: u8,
}

#[derive(Clone, Debug)]
pub enum Plan {
    /// Never preempt.
    Serial,
    /// Preempt after exponentially distributed gaps, and at call-outs with probability p/1000.
    /// A preempted thread is held back for seconds with probability hold/1000.
    Random { seed: u64, gap: u64, p_event: u64, hold: u64 },
    /// Fixed priorities with `depth` random demotions over `est` steps.
    Pct { seed: u64, depth: u32, est: u64, hold: u64 },
    /// Exactly these decisions.
    Explicit(Vec<Switch>),
}

struct Th {
    gate: Gate,
    st: St,
    addr: usize,
    bits: u32,
    deadline: Option<u64>,
    timed_out: bool,
    /// total step count at which a stall ends; u64::MAX = when all others are done
    stall_until: u64,
    /// clock at which a hold ends
    held_until: u64,
    prio: u64,
    step: u64,
    /// `step` when it last got the token
    since: u64,
    /// yields in a row with next to no steps between them, and the step of the last one
    spins: u64,
    yielded: u64,
    plan_pos: usize,
}

pub struct Sched {
    th: [Th; MAXT],
    n: usize,
    /// Number of the first thread, where earlier ones have come and gone.
    base: usize,
    ctl: Gate,
    controlled: bool,
    cur: usize,
    plan: Plan,
    per_thread: Vec<Vec<Switch>>,
    rng: Rng,
    demotions: Vec<u64>,
    low_prio: u64,
    total_base: u64,
    cap: u64,
    clock_skip: u64,
    pub log: Vec<Switch>,
    pub hash: u64,
    /// A stalled thread kept others from finishing.
    pub stall_blocked: bool,
    pub stalls: u64,
    pub holds: u64,
    on_fatal: fn(&str, &str) -> !,
    log_on: bool,
}

fn no_handler(_: &str, _: &str) -> ! {
    std::process::abort()
}

struct Cell_(UnsafeCell<Sched>);
unsafe impl Sync for Cell_ {}
static S: Cell_ = Cell_(UnsafeCell::new(Sched {
    th: [const {
        Th {
            gate: Gate::new(),
            st: St::Idle,
            addr: 0,
            bits: 0,
            deadline: None,
            timed_out: false,
            stall_until: 0,
            held_until: 0,
            prio: 0,
            step: 0,
            since: 0,
            spins: 0,
            yielded: 0,
            plan_pos: 0,
        }
    }; MAXT],
    n: 0,
    base: 0,
    ctl: Gate::new(),
    controlled: false,
    cur: 0,
    plan: Plan::Serial,
    per_thread: Vec::new(),
    rng: Rng::new(0),
    demotions: Vec::new(),
    low_prio: 0,
    total_base: 0,
    cap: u64::MAX,
    clock_skip: 0,
    log: Vec::new(),
    hash: 0xcbf29ce484222325,
    stall_blocked: false,
    stalls: 0,
    holds: 0,
    on_fatal: no_handler,
    log_on: true,
}));

#[allow(clippy::mut_from_ref)]
pub fn s() -> &'static mut Sched {
    unsafe { &mut *S.0.get() }
}

#[inline]
pub fn is_sim_thread() -> bool {
    T.with(|t| t.tid.get() >= 0)
}
#[inline]
pub fn in_sim() -> bool {
    T.with(|t| t.tid.get() >= 0 && t.guard.get() == 0)
}
pub fn tid() -> i32 {
    T.with(|t| t.tid.get())
}
/// Which thread this is of all that ever were.
pub fn number() -> u64 {
    (tid() as u64).wrapping_add(s().base as u64)
}
/// Steps taken so far by this thread.
pub fn my_steps() -> u64 {
    T.with(|t| t.step.get())
}

/// Run harness code on a simulated thread without it counting as a step, touching
/// simulated memory or being preempted.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            T.with(|t| t.guard.set(t.guard.get() - 1));
        }
    }
    T.with(|t| t.guard.set(t.guard.get() + 1));
    let _g = G;
    f()
}

/// Undo `quiet` around a call back into simulated code.
pub fn loud<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            T.with(|t| t.guard.set(self.0));
        }
    }
    let _g = G(T.with(|t| t.guard.replace(0)));
    f()
}

/// One step of simulated code. True if it counted.
#[inline(always)]
pub fn step(site: u32) -> bool {
    T.with(|t| {
        if t.tid.get() < 0 || t.guard.get() != 0 {
            return false;
        }
        let n = t.step.get() + 1;
        t.step.set(n);
        if n >= t.next.get() {
            slow(t, site);
        }
        true
    })
}

pub fn fatal(class: &str, detail: &str) -> ! {
    T.with(|t| t.guard.set(t.guard.get() + 1));
    (s().on_fatal)(class, detail)
}

fn note(x: u64) {
    let s = s();
    s.hash = (s.hash ^ x).wrapping_mul(0x100000001b3);
    s.hash ^= s.hash >> 29;
}
/// Mix an observable event into the run's event hash.
pub fn note_event(x: u64) {
    note(x ^ (number() << 56));
}

impl Sched {
    fn total(&self, step_now: u64) -> u64 {
        self.total_base + (step_now - self.th[self.cur].step)
    }

    fn ready(&self, except: usize) -> Vec<usize> {
        (0..self.n).filter(|&i| i != except && self.th[i].st == St::Ready).collect()
    }

    /// Step at which thread `i` must next enter the scheduler.
    fn horizon(&mut self, i: usize) -> u64 {
        let now = self.th[i].step;
        let h = match &self.plan {
            Plan::Serial => u64::MAX,
            Plan::Random { gap, .. } => {
                if *gap == 0 || self.n < 2 {
                    u64::MAX
                } else {
                    let g = *gap;
                    now + self.rng.gap(g)
                }
            }
            Plan::Pct { .. } => {
                let tb = self.total_base;
                match self.demotions.last() {
                    Some(&d) => now + d.saturating_sub(tb).max(1),
                    None => u64::MAX,
                }
            }
            Plan::Explicit(_) => {
                let th = &mut self.th[i];
                let l = &self.per_thread[i];
                while th.plan_pos < l.len() && l[th.plan_pos].step < now {
                    th.plan_pos += 1;
                }
                if th.plan_pos < l.len() && l[th.plan_pos].step > now {
                    l[th.plan_pos].step
                } else if th.plan_pos + 1 < l.len() {
                    l[th.plan_pos + 1].step
                } else {
                    u64::MAX
                }
            }
        };
        let fair = (self.th[i].since + FAIR).max(now + 1);
        h.min(fair).min(now + self.cap.saturating_sub(self.total_base) + 1)
    }

    /// The planned successor of `i` at its current step, if the plan has one and it can run.
    fn planned(&mut self, i: usize, ready: &[usize]) -> Option<usize> {
        self.planned_why(i, ready).map(|x| x.0)
    }

    fn planned_why(&mut self, i: usize, ready: &[usize]) -> Option<(usize, u8)> {
        if let Plan::Explicit(_) = self.plan {
            let now = self.th[i].step;
            let th = &mut self.th[i];
            let l = &self.per_thread[i];
            while th.plan_pos < l.len() && l[th.plan_pos].step < now {
                th.plan_pos += 1;
            }
            if th.plan_pos < l.len() && l[th.plan_pos].step == now {
                let to = l[th.plan_pos].to as usize;
                let why = l[th.plan_pos].why;
                th.plan_pos += 1;
                if ready.contains(&to) {
                    return Some((to, why));
                }
            }
        }
        None
    }

    fn choose(&mut self, ready: &[usize]) -> usize {
        match &self.plan {
            Plan::Serial | Plan::Explicit(_) => ready[0],
            Plan::Random { .. } => ready[self.rng.below(ready.len() as u64) as usize],
            Plan::Pct { .. } => *ready.iter().max_by_key(|&&i| self.th[i].prio).unwrap(),
        }
    }

    /// Somebody must run next; `cur` cannot (or has just been made ready last).
    /// Handles stalls, timeouts and deadlock.
    fn next_thread(&mut self, cur: usize, step_now: u64) -> usize {
        loop {
            let total = self.total_base;
            for i in 0..self.n {
                if self.th[i].st == St::Stalled && self.th[i].stall_until != u64::MAX && self.th[i].stall_until <= total {
                    self.th[i].st = St::Ready;
                }
            }
            let r = self.ready(usize::MAX);
            if !r.is_empty() {
                if let Some(t) = self.planned(cur, &r) {
                    return t;
                }
                return self.choose(&r);
            }
            // Discrete-event clock: jump to the earliest deadline.
            let dl = (0..self.n)
                .filter_map(|i| match self.th[i].st {
                    St::Blocked => self.th[i].deadline.map(|d| (d, i)),
                    St::Held => Some((self.th[i].held_until, i)),
                    _ => None,
                })
                .min();
            if let Some((d, i)) = dl {
                let now = now_at(total);
                if d > now {
                    self.clock_skip += d - now;
                }
                self.th[i].timed_out = self.th[i].st == St::Blocked;
                self.th[i].st = St::Ready;
                continue;
            }
            // Only stalled and blocked threads are left.
            let stalled: Vec<usize> = (0..self.n).filter(|&i| self.th[i].st == St::Stalled).collect();
            if !stalled.is_empty() {
                let others_left = (0..self.n).any(|i| self.th[i].st == St::Blocked);
                if others_left {
                    self.stall_blocked = true;
                }
                // finite stalls first
                let i = *stalled.iter().min_by_key(|&&i| self.th[i].stall_until).unwrap();
                self.th[i].st = St::Ready;
                continue;
            }
            let who: Vec<String> = (0..self.n).map(|i| format!("t{}:{:?}@{}", i, self.th[i].st, self.th[i].step)).collect();
            let _ = step_now;
            fatal("deadlock", &format!("no thread can run: {}", who.join(" ")));
        }
    }
}

/// Entered when a thread reaches its horizon.
#[cold]
#[inline(never)]
fn slow(t: &Tls, site: u32) {
    t.guard.set(1);
    let s = s();
    let me = t.tid.get() as usize;
    let n = t.step.get();
    let total = s.total(n);
    if total > s.cap {
        fatal("no-progress", &format!("no verdict after {} steps", total));
    }
    sync(s, me, n);
    let mut hold = 0;
    let due = match &s.plan {
        Plan::Serial => false,
        Plan::Random { gap, hold: h, .. } => {
            hold = *h;
            *gap != 0 && s.n > 1
        }
        Plan::Pct { hold: h, .. } => {
            hold = *h;
            if s.demotions.last().is_some_and(|&d| d <= total) {
                while s.demotions.last().is_some_and(|&d| d <= total) {
                    s.demotions.pop();
                }
                s.low_prio -= 1;
                s.th[me].prio = s.low_prio;
                true
            } else {
                false
            }
        }
        Plan::Explicit(_) => s.per_thread[me].iter().any(|w| w.step == n),
    };
    // Nobody keeps the token for ever while others could run, whatever the plan:
    // a spinning thread must let the one it waits for make progress.
    let unfair = s.n > 1 && n >= s.th[me].since + FAIR;
    if unfair {
        s.th[me].since = n;
    }
    if unfair && !due {
        let r = s.ready(me);
        if !r.is_empty() {
            if let Plan::Pct { .. } = s.plan {
                s.low_prio -= 1;
                s.th[me].prio = s.low_prio;
            }
            let to = *r.iter().find(|&&i| i > me).unwrap_or(&r[0]);
            switch(s, me, to, n, 0);
        } else if let Some(to) = earliest_held(s) {
            // (spinning on what a held thread has to do)
            s.th[to].st = St::Ready;
            switch(s, me, to, n, 0);
        }
    } else if due {
        let r = s.ready(me);
        let mut held = false;
        let target = if let Plan::Explicit(_) = s.plan {
            s.planned_why(me, &r).map(|(to, why)| {
                held = why == 5;
                to
            })
        } else if r.is_empty() {
            None
        } else if let Plan::Pct { .. } = s.plan {
            let mut all = r.clone();
            all.push(me);
            let c = s.choose(&all);
            (c != me).then_some(c)
        } else {
            Some(s.choose(&r))
        };
        if let Some(to) = target {
            note(site as u64);
            if hold > 0 && s.rng.below(1000) < hold {
                held = true;
            }
            if held {
                s.holds += 1;
                s.th[me].st = St::Held;
                // 1 to 16 simulated seconds
                s.th[me].held_until = now_at(s.total_base) + (1_000_000_000 << (n % 5));
            }
            switch(s, me, to, n, if held { 5 } else { 0 });
        }
    }
    let h = s.horizon(me);
    t.next.set(h);
    t.guard.set(0);
}

fn earliest_held(s: &Sched) -> Option<usize> {
    (0..s.n).filter(|&i| s.th[i].st == St::Held).min_by_key(|&i| s.th[i].held_until)
}

/// Account the steps `me` has taken up to `n`.
fn sync(s: &mut Sched, me: usize, n: u64) {
    s.total_base += n - s.th[me].step;
    s.th[me].step = n;
    if s.holds > 0 {
        let now = now_at(s.total_base);
        for t in &mut s.th[..s.n] {
            if t.st == St::Held && t.held_until <= now {
                t.st = St::Ready;
            }
        }
    }
    if s.th[..s.n].iter().any(|t| t.st == St::Stalled && t.stall_until <= s.total_base) {
        for t in &mut s.th[..s.n] {
            if t.st == St::Stalled && t.stall_until <= s.total_base {
                t.st = St::Ready;
            }
        }
    }
}

fn switch(s: &mut Sched, me: usize, to: usize, n: u64, why: u8) {
    if s.log_on {
        s.log.push(Switch { tid: (s.base + me) as u32, step: n, to: (s.base + to) as u32, why });
    }
    note((me as u64) << 48 ^ (to as u64) << 40 ^ n);
    if me == to {
        return;
    }
    s.cur = to;
    s.th[to].gate.open();
    s.th[me].gate.pass();
    s.cur = me;
    s.th[me].since = n;
}

/// A call-out into user code: an extra, named scheduling point.
pub fn event(kind: u64) {
    T.with(|t| {
        if t.tid.get() < 0 {
            return;
        }
        let g = t.guard.replace(1);
        let s = s();
        let me = t.tid.get() as usize;
        let n = t.step.get() + 1;
        t.step.set(n);
        sync(s, me, n);
        note(kind.wrapping_mul(0x9e37));
        if s.n > 1 {
            let r = s.ready(me);
            let to = match &s.plan {
                Plan::Random { p_event, .. } if !r.is_empty() => {
                    let p = *p_event;
                    if s.rng.below(1000) < p {
                        Some(s.choose(&r))
                    } else {
                        None
                    }
                }
                Plan::Explicit(_) => s.planned(me, &r),
                _ => None,
            };
            if let Some(to) = to {
                switch(s, me, to, n, 4);
            }
        }
        let h = s.horizon(me);
        t.next.set(h);
        t.guard.set(g);
    })
}

/// sched_yield(): let somebody else run if anybody can.
pub fn yield_hint() {
    T.with(|t| {
        let g = t.guard.replace(1);
        let s = s();
        let me = t.tid.get() as usize;
        let n = t.step.get() + 1;
        t.step.set(n);
        let total = s.total(n);
        if total > s.cap {
            fatal("no-progress", "no verdict (spinning)");
        }
        sync(s, me, n);
        spun(s, me, n);
        let r = s.ready(me);
        if !r.is_empty() {
            if let Plan::Pct { .. } = s.plan {
                s.low_prio -= 1;
                s.th[me].prio = s.low_prio;
            }
            let to = s.planned(me, &r).unwrap_or_else(|| s.choose(&r));
            switch(s, me, to, n, 0);
        } else if s.th[..s.n].iter().any(|t| t.st == St::Held) {
            // nobody else to give the processor to: a time slice goes by
            s.clock_skip += 1_000_000;
        } else if s.th[..s.n].iter().any(|t| t.st == St::Stalled) {
            // only a stalled thread could help: waiting for it counts as being blocked by it
            s.th[me].st = St::Blocked;
            s.th[me].deadline = Some(now_at(s.total_base) + 1);
            let any_ready = s.ready(usize::MAX);
            if any_ready.is_empty() {
                s.stall_blocked = true;
                let i = (0..s.n).filter(|&i| s.th[i].st == St::Stalled).min_by_key(|&i| s.th[i].stall_until).unwrap();
                s.th[i].st = St::Ready;
                s.th[me].st = St::Ready;
                s.th[me].deadline = None;
                switch(s, me, i, n, 0);
            }
        }
        let h = s.horizon(me);
        t.next.set(h);
        t.guard.set(g);
    })
}

/// `me` yields, or takes a nap.
fn spun(s: &mut Sched, me: usize, n: u64) {
    let th = &mut s.th[me];
    th.spins = if n - th.yielded <= 200 { th.spins + 1 } else { 0 };
    th.yielded = n;
    if s.th[me].spins >= SPINNING {
        all_spinning(s);
    }
}

/// Sleep until then.
pub fn sleep(until: u64) {
    T.with(|t| {
        let g = t.guard.replace(1);
        let s = s();
        let me = t.tid.get() as usize;
        let n = t.step.get() + 1;
        t.step.set(n);
        if s.total(n) > s.cap {
            fatal("no-progress", "no verdict (sleeping)");
        }
        sync(s, me, n);
        spun(s, me, n);
        t.guard.set(g);
    });
    block(0, 0, Some(until));
}

/// If every thread that can run does nothing but yield or sleep, only one that is being kept from
/// running can help.
fn all_spinning(s: &mut Sched) {
    if s.th[..s.n].iter().any(|t| t.st == St::Ready && t.spins < SPINNING) {
        return;
    }
    if let Some(i) = earliest_held(s) {
        s.th[i].st = St::Ready;
    } else if let Some(i) = (0..s.n).filter(|&i| s.th[i].st == St::Stalled).min_by_key(|&i| s.th[i].stall_until) {
        s.stall_blocked = true;
        s.th[i].st = St::Ready;
    } else if let Some((d, i)) = (0..s.n).filter(|&i| s.th[i].st == St::Blocked).filter_map(|i| s.th[i].deadline.map(|d| (d, i))).min() {
        s.clock_skip += d.saturating_sub(now_at(s.total_base));
        s.th[i].timed_out = true;
        s.th[i].st = St::Ready;
    } else if s.th[..s.n].iter().all(|t| t.st != St::Ready || t.spins > 10 * SPINNING) {
        fatal("no-progress", "every thread that can run spins");
    } else {
        return;
    }
    for t in &mut s.th[..s.n] {
        t.spins = 0;
    }
}

fn leave(why: u8, prepare: impl FnOnce(&mut Th)) {
    T.with(|t| {
        let g = t.guard.replace(1);
        let s = s();
        let me = t.tid.get() as usize;
        let n = t.step.get() + 1;
        t.step.set(n);
        sync(s, me, n);
        prepare(&mut s.th[me]);
        let to = s.next_thread(me, n);
        switch(s, me, to, n, why);
        let h = s.horizon(me);
        t.next.set(h);
        t.guard.set(g);
    })
}

/// Futex wait. True if woken, false if timed out.
pub fn block(addr: usize, bits: u32, deadline: Option<u64>) -> bool {
    leave(1, |th| {
        th.st = St::Blocked;
        th.addr = addr;
        th.bits = bits;
        th.deadline = deadline;
        th.timed_out = false;
    });
    let me = tid() as usize;
    !s().th[me].timed_out
}

pub fn wake(addr: usize, mut count: i64, bits: u32) -> i64 {
    let s = s();
    let mut n = 0;
    for i in 0..s.n {
        if count <= 0 {
            break;
        }
        let th = &mut s.th[i];
        if th.st == St::Blocked && th.addr == addr && addr != 0 && th.bits & bits != 0 {
            th.st = St::Ready;
            th.deadline = None;
            count -= 1;
            n += 1;
        }
    }
    n
}

/// Stop running for `steps` steps of the others; `u64::MAX`: until all others have finished.
pub fn stall(steps: u64) {
    let s_ = s();
    s_.stalls += 1;
    if s_.n < 2 {
        return;
    }
    let total = s_.total(T.with(|t| t.step.get()));
    let until = if steps == u64::MAX { u64::MAX } else { total + steps };
    leave(3, |th| {
        th.st = St::Stalled;
        th.stall_until = until;
    });
}

const EPOCH: u64 = 1_700_000_000_000_000_000;
fn simulated_ns(total: u64) -> u64 {
    total * 1000 + s().clock_skip
}
fn now_at(total: u64) -> u64 {
    // one step is one simulated microsecond
    EPOCH + simulated_ns(total)
}
pub fn now_ns() -> u64 {
    let s = s();
    now_at(s.total(T.with(|t| t.step.get())))
}

pub fn set_fatal(f: fn(&str, &str) -> !) {
    s().on_fatal = f;
}

pub struct Report {
    pub steps: u64,
    pub switches: Vec<Switch>,
    pub hash: u64,
    pub stall_blocked: bool,
    pub now_ns: u64,
}

pub fn report() -> Report {
    let s = s();
    Report { steps: s.total_base, switches: s.log.clone(), hash: s.hash, stall_blocked: s.stall_blocked, now_ns: simulated_ns(s.total_base) }
}

fn init(n: usize, base: usize, plan: Plan, cap: u64) {
    assert!(n <= MAXT);
    let s = s();
    s.n = n;
    s.base = base;
    s.cap = cap;
    s.per_thread = vec![Vec::new(); MAXT];
    match &plan {
        Plan::Explicit(l) => {
            for w in l {
                let ours = base as u32..(base + n) as u32;
                if ours.contains(&w.tid) && ours.contains(&w.to) {
                    s.per_thread[w.tid as usize - base].push(Switch { tid: w.tid - ours.start, to: w.to - ours.start, ..*w });
                }
            }
        }
        Plan::Random { seed, .. } => s.rng = Rng::new(*seed ^ (base as u64) << 40),
        Plan::Pct { seed, depth, est, .. } => {
            s.rng = Rng::new(*seed ^ (base as u64) << 40);
            let mut d: Vec<u64> = (0..*depth).map(|_| s.total_base + 1 + s.rng.below((*est).max(1))).collect();
            d.sort_unstable_by(|a, b| b.cmp(a));
            s.demotions = d;
            s.low_prio = 1_000_000;
            for i in 0..n {
                s.th[i].prio = 2_000_000 + s.rng.below(1 << 30);
            }
        }
        Plan::Serial => {}
    }
    s.plan = plan;
    for i in 0..n {
        let th = &mut s.th[i];
        th.st = St::Ready;
        th.step = 0;
        th.since = 0;
        th.spins = 0;
        th.yielded = 0;
        th.plan_pos = 0;
    }
}

/// Run `f` as the only simulated thread, on the calling thread.
pub fn run_here<R>(cap: u64, f: impl FnOnce() -> R) -> R {
    init(1, 0, Plan::Serial, s().total_base + cap);
    s().controlled = false;
    s().cur = 0;
    T.with(|t| {
        t.step.set(0);
        t.tid.set(0);
        t.guard.set(1);
        let h = s().horizon(0);
        t.next.set(h);
        t.guard.set(0);
    });
    let r = f();
    T.with(|t| {
        t.guard.set(1);
        let n = t.step.get();
        sync(s(), 0, n);
        s().th[0].st = St::Done;
        t.tid.set(-1);
        t.guard.set(0);
    });
    r
}

pub type Task = Box<dyn FnOnce() + Send>;

/// Run the tasks as simulated threads, the first of them number `base`, to completion.
pub fn run_threads(tasks: Vec<Task>, base: usize, plan: Plan, cap: u64) {
    let n = tasks.len();
    init(n, base, plan, s().total_base + cap);
    s().controlled = true;
    let mut handles = Vec::new();
    for (i, task) in tasks.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                // first of all thread-locals, so the last to be destroyed
                END.with(|e| e.0.set(Some(i)));
                T.with(|t| {
                    t.step.set(0);
                    t.guard.set(1);
                    t.tid.set(i as i32);
                });
                // announce, then wait for the first turn
                s().ctl.open();
                s().th[i].gate.pass();
                s().cur = i;
                T.with(|t| {
                    let h = s().horizon(i);
                    t.next.set(h);
                    t.guard.set(0);
                });
                task();
                // the turn passes on in END's destructor, after those of all other thread-locals
            })
            .expect("spawn");
        s().ctl.pass();
        handles.push(Some(h));
    }
    // first turn
    let first = {
        let s = s();
        let r = s.ready(usize::MAX);
        if r.is_empty() {
            return;
        }
        let f = match &s.plan {
            Plan::Explicit(l) => l.iter().map(|w| (w.tid as usize).wrapping_sub(base)).find(|t| r.contains(t)).unwrap_or(0),
            _ => s.choose(&r),
        };
        note(f as u64);
        f
    };
    let mut cur = first;
    s().cur = cur;
    s().th[cur].gate.open();
    loop {
        s().ctl.pass();
        // `cur` is whoever finished
        let s_ = s();
        cur = (0..n).find(|&i| s_.th[i].st == St::Done && handles[i].is_some()).unwrap();
        let r = handles[cur].take().unwrap().join();
        if r.is_err() {
            fatal("harness", "simulated thread panicked outside its task");
        }
        if handles.iter().all(|h| h.is_none()) {
            break;
        }
        let step = s_.th[cur].step;
        let to = s_.next_thread(cur, step);
        s_.log.push(Switch { tid: (s_.base + cur) as u32, step, to: (s_.base + to) as u32, why: 2 });
        note((cur as u64) << 48 ^ (to as u64) << 40 ^ 2);
        s_.cur = to;
        s_.th[to].gate.open();
    }
}
