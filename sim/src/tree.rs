//! Engine B: seeded patterns over simulated sub-parsers, run on the real library
//! and compared with the reference model.
use crate::dynp::{hide, DynP, It, Obj};
use crate::exec::res;
use crate::user;
use aoc_parse::{parser, prelude::*, ParseContext, Parser, Reported};
use simlib::ast::*;
use simlib::genb::cap;
use simlib::model::{flat, Model, Tag};
use simlib::session::{Case, Session};
use simrt::sched::{self, quiet};
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Default)]
struct Tr {
    scripts: Vec<Script>,
    /// Requests made to simulated sub-parsers in this parse.
    requests: u64,
    limit: u64,
    flaky: Vec<u32>,
    refused: u64,
    log: Vec<u16>,
    converted: Vec<(u32, bool)>,
    insts: u32,
    given: HashSet<(u16, String)>,
    record: bool,
    bad: Vec<(&'static str, String)>,
}
thread_local! {
    static TR: RefCell<Tr> = RefCell::new(Tr::default());
}
fn tr<R>(f: impl FnOnce(&mut Tr) -> R) -> R {
    quiet(|| TR.with(|t| f(&mut t.borrow_mut())))
}
struct Stop;

fn complain(class: &'static str, detail: String) {
    quiet(|| {
        tr(|t| {
            if t.bad.len() < 4 {
                t.bad.push((class, detail.clone()))
            }
        });
        drop(detail)
    })
}

/// One request to a simulated sub-parser. True: it refuses.
fn request() -> bool {
    let (over, refuse, n) = tr(|t| {
        let n = t.requests;
        t.requests += 1;
        let r = t.flaky.contains(&(n as u32));
        t.refused += r as u64;
        (n > t.limit, r, n)
    });
    if over {
        sched::fatal("no-progress", &quiet(|| format!("{n} requests to sub-parsers without a verdict")));
    }
    refuse
}

// ---------------------------------------------------------------- sub-parsers

/// Script number; true under string(...) or in a separator, where no values are wanted.
struct LeafP(u16, bool, Mode);
/// Engine B: recorded in `TR`. Engine A: user code like any other, on its own scripts.
#[derive(Clone)]
pub enum Mode {
    B,
    A(Rc<Vec<Script>>),
}
thread_local! {
    static BUILDING: RefCell<Mode> = const { RefCell::new(Mode::B) };
}
/// Thread-locals of ours that must be older than those of the library.
pub fn touch() {
    TR.with(|_| ());
    BUILDING.with(|_| ());
}
fn building() -> Mode {
    BUILDING.with(|b| b.borrow().clone())
}
/// A pattern as a parser for engine A.
pub fn standalone(g: &Node, scripts: Vec<Script>) -> DynP<V> {
    let m = Mode::A(Rc::new(scripts));
    BUILDING.with(|b| *b.borrow_mut() = m);
    let p = build(g, &vec![], At::default());
    BUILDING.with(|b| *b.borrow_mut() = Mode::B);
    p
}
struct LeafA<'p> {
    leaf: u16,
    scripts: &'p [Script],
    text: &'p str,
    at: usize,
    ends: Vec<usize>,
    i: usize,
}
fn report_a(c: &mut ParseContext<'_>, s: &[Script], leaf: u16, text: &str, at: usize, m: Moment) -> Reported {
    match quiet(|| s[leaf as usize].report(text, at, m).map(|p| (p, tag(leaf, at, m)))) {
        Some((p, s)) => {
            let r = c.error_expected(p, &s);
            quiet(|| drop(s));
            r
        }
        None => Reported,
    }
}
impl Drop for LeafA<'_> {
    fn drop(&mut self) {
        let e = std::mem::take(&mut self.ends);
        quiet(|| drop(e));
    }
}
impl<'p> It<'p, V> for LeafA<'p> {
    fn end(&self) -> usize {
        self.ends[self.i]
    }
    fn back(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> {
        let refuse = user::call_out(user::K_NEXT, self.leaf as u32);
        if refuse || self.i + 1 >= self.ends.len() {
            return Err(report_a(c, self.scripts, self.leaf, self.text, self.at, Moment::Out));
        }
        self.i += 1;
        let _ = report_a(c, self.scripts, self.leaf, self.text, self.at, Moment::Next(self.i));
        Ok(())
    }
    fn conv(&self) -> V {
        user::call_out(user::K_VALUE, self.leaf as u32);
        let o = user::out(self.leaf as u32, (self.at, self.ends[self.i], self.i));
        Rc::new(Val::User(User(Box::new(o))))
    }
}
struct LeafI<'p> {
    leaf: u16,
    text: &'p str,
    at: usize,
    ends: Vec<usize>,
    i: usize,
    inst: u32,
    silent: bool,
}
fn report(c: &mut ParseContext<'_>, leaf: u16, text: &str, at: usize, m: Moment) -> Reported {
    let what = quiet(|| tr(|t| t.scripts[leaf as usize].report(text, at, m)).map(|p| (p, tag(leaf, at, m))));
    match what {
        Some((p, s)) => {
            let r = c.error_expected(p, &s);
            quiet(|| drop(s));
            r
        }
        None => Reported,
    }
}
impl Obj<V> for LeafP {
    fn start<'p>(&'p self, c: &mut ParseContext<'p>, at: usize) -> Result<Box<dyn It<'p, V> + 'p>, Reported> {
        let text = c.source();
        let leaf = self.0;
        if let Mode::A(scripts) = &self.2 {
            let refuse = user::call_out(user::K_START, leaf as u32);
            let ends = quiet(|| scripts[leaf as usize].offers(text, at).ends);
            if refuse || ends.is_empty() {
                quiet(|| drop(ends));
                return Err(report_a(c, scripts, leaf, text, at, Moment::Refuse));
            }
            let _ = report_a(c, scripts, leaf, text, at, Moment::Start);
            return Ok(Box::new(LeafA { leaf, scripts, text, at, ends, i: 0 }));
        }
        let refuse = request();
        let ends = quiet(|| {
            tr(|t| {
                if t.record {
                    t.given.insert((leaf, text.to_string()));
                }
                t.scripts[leaf as usize].offers(text, at).ends
            })
        });
        sched::note_event((leaf as u64) << 32 | at as u64);
        if refuse || ends.is_empty() {
            quiet(|| drop(ends));
            return Err(report(c, leaf, text, at, Moment::Refuse));
        }
        let _ = report(c, leaf, text, at, Moment::Start);
        let inst = tr(|t| {
            t.insts += 1;
            t.insts
        });
        Ok(Box::new(LeafI { leaf, text, at, ends, i: 0, inst, silent: self.1 }))
    }
}
impl Drop for LeafI<'_> {
    fn drop(&mut self) {
        let e = std::mem::take(&mut self.ends);
        quiet(|| drop(e));
    }
}
impl<'p> It<'p, V> for LeafI<'p> {
    fn end(&self) -> usize {
        self.ends[self.i]
    }
    fn back(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> {
        let refuse = request();
        sched::note_event(self.i as u64);
        if refuse || self.i + 1 >= self.ends.len() {
            return Err(report(c, self.leaf, self.text, self.at, Moment::Out));
        }
        self.i += 1;
        let _ = report(c, self.leaf, self.text, self.at, Moment::Next(self.i));
        Ok(())
    }
    fn conv(&self) -> V {
        let (inst, silent) = (self.inst, self.silent);
        tr(|t| t.converted.push((inst, silent)));
        Rc::new(Val::Leaf { leaf: self.leaf, start: self.at, end: self.ends[self.i], ord: self.i, inst: Inst(inst) })
    }
}

// ---------------------------------------------------------------- monitors

/// A user-written combinator around every part: passes everything on, and checks
/// that the library keeps to the protocol.
struct Mon {
    inner: DynP<V>,
    what: String,
    in_region: bool,
}
struct MonI<'p> {
    inner: Option<Box<dyn It<'p, V> + 'p>>,
    mon: &'p Mon,
    text: &'p str,
    at: usize,
    out: bool,
}
fn show(t: &str) -> String {
    format!("{:?}", t.chars().take(60).collect::<String>())
}
impl Obj<V> for Mon {
    fn start<'p>(&'p self, c: &mut ParseContext<'p>, at: usize) -> Result<Box<dyn It<'p, V> + 'p>, Reported> {
        let text = c.source();
        if !text.is_char_boundary(at) {
            complain("protocol", quiet(|| format!("{} started at {at}, which is not a character boundary inside {}", self.what, show(text))));
            std::panic::panic_any(Stop);
        }
        let inner = self.inner.0.start(c, at)?;
        Ok(Box::new(MonI { inner: Some(inner), mon: self, text, at, out: false }))
    }
}
impl MonI<'_> {
    fn check(&self, call: &str) {
        if self.out {
            complain(
                "protocol",
                quiet(|| format!("{call} asked of {} (started at {} of {}) after it had reported that it is exhausted", self.mon.what, self.at, show(self.text))),
            );
            std::panic::panic_any(Stop);
        }
    }
}
impl<'p> It<'p, V> for MonI<'p> {
    fn end(&self) -> usize {
        self.check("match_end");
        self.inner.as_ref().unwrap().end()
    }
    fn back(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> {
        self.check("backtrack");
        let now = c.source();
        if (now.as_ptr(), now.len()) != (self.text.as_ptr(), self.text.len()) {
            complain("protocol", quiet(|| format!("{} was started on {} and is continued on {}", self.mon.what, show(self.text), show(now))));
            std::panic::panic_any(Stop);
        }
        if self.mon.in_region && self.inner.as_ref().unwrap().end() == self.text.len() {
            complain("rematch", quiet(|| format!("{} had matched the whole of {} and was asked for another match", self.mon.what, show(self.text))));
        }
        let r = self.inner.as_mut().unwrap().back(c);
        self.out = r.is_err();
        r
    }
    fn conv(&self) -> V {
        self.check("convert");
        self.inner.as_ref().unwrap().conv()
    }
}

fn mon(inner: DynP<V>, what: String, in_region: bool) -> DynP<V> {
    DynP(Rc::new(Mon { inner, what, in_region }))
}

// ---------------------------------------------------------------- patterns

fn conv(a: bool, id: u16, v: V) -> V {
    if a {
        // not with the value inside: it may be shared
        let o = user::mk(1000 + id as u32, ());
        return Rc::new(Val::Map(id, Rc::new(Val::Seq(vec![v, Rc::new(Val::User(User(Box::new(o))))]))));
    }
    tr(|t| t.log.push(id));
    sched::note_event(id as u64 | 1 << 40);
    Rc::new(Val::Map(id, v))
}
fn unit() -> V {
    Rc::new(Val::Unit)
}
fn vs(v: Vec<V>) -> V {
    Rc::new(Val::Seq(v))
}
fn many(v: Vec<V>) -> V {
    Rc::new(Val::Many(v))
}
fn o(v: Option<V>) -> V {
    Rc::new(Val::Opt(v))
}
fn alt(k: u8, v: V) -> V {
    Rc::new(Val::Alt(k, v))
}
/// Text and character literals are quoted differently.
fn plain(s: &str) -> String {
    s.replace(['"', '\''], "")
}
fn num<T: std::fmt::Display>(x: T) -> V {
    Rc::new(Val::Str(x.to_string()))
}
fn ch(c: char) -> V {
    Rc::new(Val::Ch(c))
}
fn st(s: String) -> V {
    Rc::new(Val::Str(s))
}

type Env = Vec<(u16, DynP<V>)>;

fn rule<R>(n: (&Node, &Env, u16), rs: &[R]) -> DynP<V>
where
    R: Parser<Output = V, RawOutput = (V,)> + Copy + 'static,
{
    let mut env = n.1.clone();
    for (i, r) in rs.iter().enumerate() {
        env.push((n.2 + i as u16, hide(*r)));
    }
    build(n.0, &env, At::default())
}
fn rule1<R>(n: (&Node, &Env, u16), a: R) -> DynP<V>
where
    R: Parser<Output = V, RawOutput = (V,)> + Copy + 'static,
{
    rule(n, &[a])
}
fn rule2<R>(n: (&Node, &Env, u16), a: R, b: R) -> DynP<V>
where
    R: Parser<Output = V, RawOutput = (V,)> + Copy + 'static,
{
    rule(n, &[a, b])
}
fn rule3<R>(n: (&Node, &Env, u16), a: R, b: R, c: R) -> DynP<V>
where
    R: Parser<Output = V, RawOutput = (V,)> + Copy + 'static,
{
    rule(n, &[a, b, c])
}

/// Where a pattern stands.
#[derive(Clone, Copy, Default)]
struct At {
    /// directly inside line(...) or section(...)
    region: bool,
    /// inside string(...) or a separator
    silent: bool,
}

fn build(n: &Node, env: &Env, at: At) -> DynP<V> {
    let sub = |x: &Node| build(x, env, At { region: false, silent: at.silent });
    let reg = |x: &Node| build(x, env, At { region: true, silent: at.silent });
    let quietly = |x: &Node| build(x, env, At { region: false, silent: true });
    let mode = building();
    let ua: &'static bool = if matches!(mode, Mode::A(_)) { &true } else { &false };
    let p: DynP<V> = match n {
        Node::Leaf(i) => DynP(Rc::new(LeafP(*i, at.silent, mode.clone()))),
        Node::Lit(s) => {
            let mut cs = s.chars();
            match (cs.next(), cs.next()) {
                (Some(x), None) => hide(parser!(x => unit())),
                _ => {
                    let lit: &'static str = quiet(|| Box::leak(s.clone().into_boxed_str()));
                    hide(parser!(lit => unit()))
                }
            }
        }
        Node::Char(c) => {
            match c {
                0 => hide(parser!(a:any_char => ch(a))),
                1 => hide(parser!(a:alpha => ch(a))),
                2 => hide(parser!(a:digit => ch((b'0' + a as u8) as char))),
                3 => hide(parser!(a:lower => ch(a))),
                4 => hide(parser!(a:alnum => ch(a))),
                5 => hide(parser!(a:u8 => num(a))),
                6 => hide(parser!(a:i8 => num(a))),
                7 => hide(parser!(a:bool => num(a))),
                8 => hide(parser!(a:char_of(SEL) => num(a))),
                9 => hide(parser!(a:u8_hex => num(a))),
                _ => hide(parser!(a:upper => ch(a))),
            }
        }
        Node::Seq(v) => {
            let p: Vec<DynP<V>> = v.iter().map(sub).collect();
            match &p[..] {
                [] => hide(parser!("" => vs(vec![]))),
                [p0] => {
                    let p0 = p0.clone();
                    hide(parser!(a:p0 => vs(vec![a])))
                }
                [p0, p1] => {
                    let (p0, p1) = (p0.clone(), p1.clone());
                    hide(parser!(a:p0 b:p1 => vs(vec![a, b])))
                }
                [p0, p1, p2] => {
                    let (p0, p1, p2) = (p0.clone(), p1.clone(), p2.clone());
                    hide(parser!(a:p0 b:p1 c:p2 => vs(vec![a, b, c])))
                }
                [p0, p1, p2, p3] => {
                    let (p0, p1, p2, p3) = (p0.clone(), p1.clone(), p2.clone(), p3.clone());
                    hide(parser!(a:p0 b:p1 c:p2 d:p3 => vs(vec![a, b, c, d])))
                }
                _ => unreachable!(),
            }
        }
        Node::Alt(v) => {
            let p: Vec<DynP<V>> = v.iter().map(sub).collect();
            match &p[..] {
                [p0] => {
                    let p0 = p0.clone();
                    hide(parser!({ a:p0 => alt(0, a) }))
                }
                [p0, p1] => {
                    let (p0, p1) = (p0.clone(), p1.clone());
                    hide(parser!({ a:p0 => alt(0, a), a:p1 => alt(1, a) }))
                }
                [p0, p1, p2] => {
                    let (p0, p1, p2) = (p0.clone(), p1.clone(), p2.clone());
                    hide(parser!({ a:p0 => alt(0, a), a:p1 => alt(1, a), a:p2 => alt(2, a) }))
                }
                [p0, p1, p2, p3] => {
                    let (p0, p1, p2, p3) = (p0.clone(), p1.clone(), p2.clone(), p3.clone());
                    hide(parser!({ a:p0 => alt(0, a), a:p1 => alt(1, a), a:p2 => alt(2, a), a:p3 => alt(3, a) }))
                }
                _ => unreachable!(),
            }
        }
        Node::Opt(x) => {
            let p = sub(x);
            hide(parser!(a:p? => o(a)))
        }
        Node::Star(x) => {
            let p = sub(x);
            hide(parser!(a:p* => many(a)))
        }
        Node::Plus(x) => {
            let p = sub(x);
            hide(parser!(a:p+ => many(a)))
        }
        Node::RepSep(x, y) => {
            let (p, q) = (sub(x), quietly(y));
            hide(parser!(a:repeat_sep(p, q) => many(a)))
        }
        Node::Map(id, x) => {
            let id: &'static u16 = quiet(|| Box::leak(Box::new(*id)));
            let p = sub(x);
            hide(parser!(a:p => conv(*ua, *id, a)))
        }
        Node::Str(x) => {
            let p = quietly(x);
            hide(parser!(a:string(p) => st(a)))
        }
        Node::Line(x) => {
            let p = reg(x);
            hide(parser!(a:line(p) => a))
        }
        Node::Section(x) => {
            let p = reg(x);
            hide(parser!(a:section(p) => a))
        }
        Node::Lines(x) => {
            let p = reg(x);
            hide(parser!(a:lines(p) => many(a)))
        }
        Node::Sections(x) => {
            let p = reg(x);
            hide(parser!(a:sections(p) => many(a)))
        }
        Node::Rules { base, rules, body } => {
            let (b, e) = (*base, env);
            let bd = (&**body, e, b);
            match &rules[..] {
                [r0] => {
                    let n0 = (r0, e, b);
                    hide(parser!(rule r0: V = rule1(n0, r0); rule1(bd, r0)))
                }
                [r0, r1] => {
                    let (n0, n1) = ((r0, e, b), (r1, e, b));
                    hide(parser!(rule r0: V = rule2(n0, r0, r1); rule r1: V = rule2(n1, r0, r1); rule2(bd, r0, r1)))
                }
                [r0, r1, r2] => {
                    let (n0, n1, n2) = ((r0, e, b), (r1, e, b), (r2, e, b));
                    hide(parser!(
                        rule r0: V = rule3(n0, r0, r1, r2);
                        rule r1: V = rule3(n1, r0, r1, r2);
                        rule r2: V = rule3(n2, r0, r1, r2);
                        rule3(bd, r0, r1, r2)
                    ))
                }
                _ => unreachable!(),
            }
        }
        Node::Ref(i) => env.iter().rev().find(|x| x.0 == *i).expect("unbound rule").1.clone(),
        Node::Tmpl(t, v, m) => {
            let parts: Vec<DynP<V>> = v.iter().map(|x| build(x, env, At { region: *t == 6 || *t == 11, silent: at.silent || *t == 4 })).collect();
            template(*t, &parts, *m)
        }
    };
    if *ua {
        return p;
    }
    let what = quiet(|| name(n));
    mon(p, what, at.region)
}

fn name(n: &Node) -> String {
    let s = serde_json::to_string(n).unwrap();
    s.chars().take(90).collect()
}

fn template(t: u8, p: &[DynP<V>], m: u16) -> DynP<V> {
    let m: &'static u16 = quiet(|| Box::leak(Box::new(m)));
    let ua: &'static bool = if matches!(building(), Mode::A(_)) { &true } else { &false };
    let c = |i: usize| p[i].clone();
    match t {
        0 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:p* b:q => vs(vec![many(a), b])))
        }
        1 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:(x:p y:q => conv(*ua, *m, vs(vec![x, y])))* => many(a)))
        }
        2 => {
            let (p, q) = (c(0), c(1));
            hide(parser!({ a:p "!" => alt(0, vs(vec![a, unit()])), b:q? => alt(1, o(b)) }))
        }
        3 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:repeat_sep({ x:p => alt(0, conv(*ua, *m, x)), y:q => alt(1, conv(*ua, *m + 1, y)) }, ",") => many(a)))
        }
        4 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:string(x:p* y:q => conv(*ua, *m, vs(vec![many(x), y]))) => st(a)))
        }
        5 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:line(x:p+ y:q? => conv(*ua, *m, vs(vec![many(x), o(y)])))* => many(a)))
        }
        6 => {
            let p = c(0);
            hide(parser!(a:section(lines(x:p => conv(*ua, *m, x))) => many(a)))
        }
        7 => {
            let (p, q, r) = (c(0), c(1), c(0));
            hide(parser!(t:(p? q? r) => { let (a, b, x) = t; vs(vec![o(a), o(b), x]) }))
        }
        8 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:(p q)+ => many(a.into_iter().map(|(x, y)| vs(vec![x, y])).collect())))
        }
        9 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:vec_deque(p*) b:q => { let a: VecDeque<V> = a; vs(vec![many(a.into_iter().collect()), b]) }))
        }
        10 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:(x:p => conv(*ua, *m, x)) b:(y:(z:q => conv(*ua, *m + 1, z)) => conv(*ua, *m + 2, y)) => vs(vec![a, b])))
        }
        11 => {
            let (p, q) = (c(0), c(1));
            hide(parser!(a:sections(x:line(p) y:lines(q) => conv(*ua, *m, vs(vec![x, many(y)]))) => many(a)))
        }
        12 => {
            let (p, q, w) = (c(0), c(1), c(2));
            hide(parser!(
                rule r: V = {
                    "(" x:r ")" => alt(0, conv(*ua, *m, vs(vec![unit(), x, unit()]))),
                    y:p => alt(1, y),
                    z:q => alt(2, conv(*ua, *m + 1, z)),
                };
                a:r b:w => vs(vec![a, b])
            ))
        }
        _ => {
            let (p, q) = (c(0), c(1));
            hide(parser!(
                rule s: V = x:p rest:t => conv(*ua, *m, vs(vec![x, rest]));
                rule t: V = {
                    "," y:s => alt(0, conv(*ua, *m + 1, vs(vec![unit(), y]))),
                    "" => alt(1, conv(*ua, *m + 2, unit())),
                };
                a:s b:q => vs(vec![a, b])
            ))
        }
    }
}

// ---------------------------------------------------------------- one session

/// Which complaints are about which property.
fn wanted(prop: &str, class: &str) -> bool {
    match class {
        "panic" => true,
        "conversion" => prop == "C06",
        "protocol" => prop == "C07",
        "result" => prop == "C08" || prop == "C13",
        "error" => prop == "C10",
        "requests" => prop == "C12",
        "slice" | "rematch" => prop == "C13",
        _ => true,
    }
}

fn bump(k: &str, n: u64) {
    quiet(|| *res().b.entry(k.to_string()).or_default() += n)
}
fn peak(k: &str, n: u64) {
    quiet(|| {
        let e = res().b.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    })
}

const CAP: u64 = 6_000;
const CAP_ALL: u64 = 40_000;

pub fn run(s: &Session) {
    for (ci, c) in s.cases.iter().enumerate() {
        tr(|t| {
            *t = Tr::default();
            t.scripts = c.scripts.clone();
            t.record = s.prop == "C13";
        });
        let p = build(&c.g, &vec![], At::default());
        for ti in 0..c.texts.len() {
            one(s, c, ci, ti, &p);
        }
        drop(p);
    }
    quiet(|| {
        let f = res().b.get("refusals").copied().unwrap_or(0);
        if f > 0 {
            *res().fired.entry("reject".into()).or_default() += f;
        }
    });
}

fn one(s: &Session, c: &Case, ci: usize, ti: usize, p: &DynP<V>) {
    let text = &c.texts[ti];
    let flaky: Vec<u32> = quiet(|| c.flaky.iter().filter(|f| f.0 == ti as u32).map(|f| f.1).collect());
    let faulty = !flaky.is_empty();
    // what the model says
    let mut m = Model::new(&c.scripts, cap(CAP, text), false, false);
    let want = quiet(|| m.parse(&c.g, text));
    if m.over {
        bump("skipped", 1);
        quiet(|| drop((m, want, flaky)));
        return;
    }
    let need_all = faulty || matches!(s.prop.as_str(), "C12" | "C13");
    let mut all = Model::new(&c.scripts, cap(CAP_ALL, text), true, s.prop == "C13");
    if need_all {
        quiet(|| all.parse(&c.g, text));
    }
    if faulty && all.over {
        // refusals may send the parse through everything there is: too much here
        bump("skipped", 1);
        quiet(|| drop((m, all, want, flaky)));
        return;
    }
    let bound = if need_all && !all.over { Some(all.requests.max(m.requests)) } else { None };
    tr(|t| {
        t.requests = 0;
        t.limit = 2_000_000;
        t.flaky = flaky;
        t.refused = 0;
        t.log.clear();
        t.converted.clear();
        t.given.clear();
        t.bad.clear();
    });
    let got = catch_unwind(AssertUnwindSafe(|| p.parse(text)));
    quiet(|| {
        let (requests, refused, log, converted, given, mut bad) = tr(|t| {
            (t.requests, t.refused, std::mem::take(&mut t.log), std::mem::take(&mut t.converted), std::mem::take(&mut t.given), std::mem::take(&mut t.bad))
        });
        let mut accepted = false;
        match &got {
            Err(payload) => {
                if !payload.is::<Stop>() {
                    bad.push(("panic", format!("panicked: {}", crate::user::panic_text(&**payload))));
                }
            }
            Ok(r) => {
                if let Ok(v) = r {
                    accepted = true;
                    sched::note_event(v.show().bytes().fold(7, |h: u64, b| h.wrapping_mul(31).wrapping_add(b as u64)));
                    let mut ids = Vec::new();
                    v.conversions(&mut ids);
                    if ids != log {
                        bad.push(("conversion", format!("conversions ran as {log:?}; the returned value {} asks for {ids:?}", v.show())));
                    }
                    let mut inst = Vec::new();
                    v.instances(&mut inst);
                    if let Some(x) = converted.iter().find(|x| !x.1 && !inst.contains(&x.0)) {
                        bad.push(("protocol", format!("a value was asked of match iterator {}, which is not part of the accepted parse {}", x.0, v.show())));
                    }
                } else {
                    if !log.is_empty() {
                        bad.push(("conversion", format!("the parse failed, but conversions ran: {log:?}")));
                    }
                    if !converted.is_empty() {
                        bad.push(("protocol", format!("the parse failed, but {} match iterators were asked for a value", converted.len())));
                    }
                }
                if !faulty {
                    match (&want.value, r) {
                        (Some(w), Ok(v)) => {
                            if w != v {
                                bad.push(("result", format!("gave {}, should be {}", v.show(), w.show())));
                            }
                        }
                        (Some(w), Err(e)) => bad.push(("result", format!("failed with {e}, should give {}", w.show()))),
                        (None, Ok(v)) => bad.push(("result", format!("gave {}, should not match", v.show()))),
                        (None, Err(e)) => {
                            let (at, t) = want.error.clone().expect("a failing model has a report");
                            let msg = e.to_string();
                            sched::note_event(e.location as u64);
                            if e.location != at {
                                bad.push(("error", format!("reported {msg:?} at {}, the first report at the farthest point is at {at} ({t:?})", e.location)));
                            } else {
                                match &t {
                                    Tag::Leaf(x) if !msg.contains(x.as_str()) => bad.push(("error", format!("reported {msg:?}; the first report at {at} was {x:?}"))),
                                    Tag::Lib(x) if !plain(&msg).starts_with(&plain(x)) => bad.push(("error", format!("reported {msg:?}; the first report at {at} was the library's own {x:?}"))),
                                    _ => {}
                                }
                            }
                            if e.source != *text {
                                bad.push(("error", format!("the error names the text {:?}", e.source)));
                            }
                        }
                    }
                }
                if let Some(n) = bound {
                    if requests > n + n / 2 + 8 {
                        bad.push(("requests", format!("{requests} requests to sub-parsers; one walk over all they offer takes {n}")));
                    }
                }
                if need_all && !all.over && s.prop == "C13" {
                    for g in &given {
                        if !all.given.contains(g) {
                            bad.push(("slice", format!("sub-parser {} was given {:?}, which is not the text of a line or section here", g.0, g.1)));
                            break;
                        }
                    }
                }
            }
        }
        for (class, d) in bad {
            if wanted(&s.prop, class) {
                let g = serde_json::to_string(&c.g).unwrap();
                res().bad.push((class.to_string(), format!("case {ci}, text {ti} {text:?}: {d}; pattern {g}")));
            }
        }
        res().calls += requests;
        bump("texts", 1);
        bump("accepted", accepted as u64);
        bump("requests", requests);
        bump("model_requests", m.requests);
        bump("refusals", refused);
        bump("conversions", log.len() as u64);
        if m.rejected > 0 || !accepted || refused > 0 {
            bump("nontrivial", 1);
        }
        if m.rejected > 0 && accepted {
            bump("accepted_after_rejecting", 1);
        }
        peak("max_requests", requests);
        peak("max_rule_depth", m.deepest);
        peak("max_text_bytes", text.len() as u64);
        drop((m, all, want, got, given, converted, log));
        let _ = flat;
    });
}
