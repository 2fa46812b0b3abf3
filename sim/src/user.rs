//! "User code": everything the library calls out to, and the faults that strike there.
use crate::corpus::{self, Entry};
use aoc_parse::{ParseContext, ParseIter, Parser, Reported};
use simlib::session::{Fault, FaultKind};
use simrt::sched::{self, quiet};
use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, Ordering};

/// The payload of one in four injected panics; the others carry texts, as most panics do.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct SimPanic(pub u32);
const WORDS: [&str; 4] = ["user code gave up", "", "called `Option::unwrap()` on a `None` value", "index out of bounds"];

fn raise(id: u32) -> ! {
    match id % 4 {
        0 => std::panic::panic_any(SimPanic(id)),
        1 => std::panic::panic_any(format!("user code gave up: {id}")),
        2 => std::panic::panic_any(WORDS[(id / 4 % 4) as usize]),
        _ => std::panic::panic_any(Box::new(id)),
    }
}
/// Is this the payload of injected panic `id`?
pub fn is_payload(p: &(dyn std::any::Any + Send), id: u32) -> bool {
    match id % 4 {
        0 => p.downcast_ref() == Some(&SimPanic(id)),
        1 => p.downcast_ref::<String>().is_some_and(|s| s.strip_prefix("user code gave up: ") == Some(&*id.to_string())),
        2 => p.downcast_ref::<&'static str>() == Some(&WORDS[(id / 4 % 4) as usize]),
        _ => p.downcast_ref::<Box<u32>>().is_some_and(|x| **x == id),
    }
}

pub const K_CONV: u64 = 1;
pub const K_START: u64 = 2;
pub const K_NEXT: u64 = 3;
pub const K_VALUE: u64 = 4;
pub const K_HASH: u64 = 5;
pub const K_EQ: u64 = 6;
pub const K_ORD: u64 = 7;
pub const K_DROP: u64 = 8;
pub const K_ITER: u64 = 9;
const PLACES: [&str; 10] = [
    "",
    "in:conversion",
    "in:start of a sub-parser",
    "in:next match of a sub-parser",
    "in:value of a sub-parser",
    "in:hash",
    "in:equality",
    "in:comparison",
    "in:drop of a match iterator",
    "in:iteration over a collection",
];

pub struct Nested {
    pub p: String,
    pub t: String,
    pub out: String,
    pub clean: bool,
}

/// Per simulated thread.
#[derive(Default)]
pub struct Ctx {
    pub task: u32,
    pub op: u32,
    pub calls: u32,
    /// Faults of the current operation, by ordinal.
    pub faults: Vec<Fault>,
    pub nested: Vec<Nested>,
    /// The payload currently unwinding, if any.
    pub raised: Option<u32>,
    /// Parsers now running on this thread, innermost last.
    pub running: Vec<*const dyn Entry>,
    pub depth: u32,
    pub fired: Vec<(&'static str, u32)>,
    /// Life of every token created by the current operation: number of drops.
    pub toks: Vec<u8>,
    pub tok_double: u32,
    pub tok_shown: bool,
    /// The injected panic struck inside a std collection, which may then leak.
    pub may_leak: bool,
    /// set when a user callback ran although the operation's result was already complete
    pub conv_calls: u32,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

fn fired(kind: &'static str) {
    with(|c| match c.fired.iter_mut().find(|x| x.0 == kind) {
        Some(x) => x.1 += 1,
        None => c.fired.push((kind, 1)),
    })
}

static MAY_LEAK: AtomicBool = AtomicBool::new(false);
/// Has any operation of the run been allowed to leak?
pub fn any_may_leak() -> bool {
    MAY_LEAK.load(Ordering::Relaxed)
}

/// Written only before any thread starts.
static mut COME_AND_GO: bool = false;
/// From now on, call-outs build, copy and drop other parsers.
pub fn others_come_and_go() {
    unsafe { COME_AND_GO = true }
}

/// Where user code gets control. True: the caller should refuse.
#[inline(never)]
pub fn call_out(kind: u64, site: u32) -> bool {
    if !sched::is_sim_thread() {
        return false;
    }
    let f = quiet(|| {
        with(|c| {
            let n = c.calls;
            c.calls += 1;
            if kind == K_CONV {
                c.conv_calls += 1;
            }
            c.faults.iter().find(|f| f.at == n).map(|f| f.kind.clone())
        })
    });
    sched::event(kind << 32 | site as u64);
    let mut refuse = false;
    if f.is_some() {
        quiet(|| fired(PLACES[kind as usize]));
    }
    match &f {
        None => {}
        Some(FaultKind::Panic(id)) => {
            quiet(|| {
                fired("panic");
                with(|c| {
                    // if the library goes on after a panic, the first one is still the one to report
                    c.raised = c.raised.or(Some(*id));
                    c.may_leak |= matches!(kind, K_HASH | K_EQ | K_ORD | K_DROP);
                    if c.may_leak {
                        MAY_LEAK.store(true, Ordering::Relaxed);
                    }
                });
            });
            let id = *id;
            raise(id);
        }
        Some(FaultKind::Stall(n)) => {
            quiet(|| fired("stall"));
            sched::stall(*n);
        }
        Some(FaultKind::StallForAll) => {
            quiet(|| fired("stall_for_all"));
            sched::stall(u64::MAX);
        }
        Some(FaultKind::Reject) => {
            if kind == K_START || kind == K_NEXT {
                quiet(|| fired("reject"));
                refuse = true;
            }
        }
        Some(FaultKind::Reenter { p, t, same, catch }) => {
            quiet(|| fired(if *same { "reenter_same" } else { "reenter_other" }));
            nested_parse(p, t, *same, *catch);
        }
    }
    quiet(move || drop(f));
    if unsafe { COME_AND_GO } {
        let (n, here) = quiet(|| with(|c| (c.calls, c.running.last().copied())));
        if let (true, Some(e)) = (n % 5 == 3 && n < 120 || n % 256 == 3 && n < 8_000, here) {
            quiet(|| fired("parser_comes_and_goes_in_callback"));
            let i = quiet(|| corpus::index(unsafe { (*e).name() }));
            corpus::come_and_go(i, n as u64);
        }
    }
    if crate::kept::on() {
        let n = quiet(|| with(|c| c.calls));
        if n % 4 == 2 && n < 200 || n % 128 == 2 && n < 8_000 {
            crate::kept::look_again(1, n as u64 * 77 + site as u64);
        }
    }
    refuse
}

/// A parse from within a callback.
fn nested_parse(p: &str, t: &str, same: bool, catch: bool) {
    let (target, name): (*const dyn Entry, &str) = quiet(|| {
        let here = with(|c| c.running.last().copied());
        match here {
            // (on another parser's text it might take exponential time)
            Some(e) if same && unsafe { (*e).name() } == p => (e, unsafe { (*e).name() }),
            _ => (corpus::instance(p) as *const dyn Entry, p),
        }
    });
    let own;
    let text: &str = match crate::exec::shared_text(t) {
        Some(s) => s,
        None => {
            own = t.to_string();
            &own
        }
    };
    with(|c| c.depth += 1);
    let before = with(|c| c.conv_calls);
    // sometimes a parser is built for the occasion, or an iterator left suspended meanwhile
    let (temp, open) = (!same && t.len() % 3 == 1, t.len() % 4 == 2);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let built = if temp { Some(corpus::build(corpus::index(p))) } else { None };
        let target: &dyn Entry = match &built {
            Some(b) => &**b,
            None => unsafe { &*target },
        };
        let mut cursor = None;
        if open {
            quiet(|| fired("iterator_suspended_in_callback"));
            let mut c = unsafe { target.open(text, true) };
            if c.start().is_some() && t.len() % 8 == 2 {
                let v = c.value();
                quiet(|| drop(v));
                c.next();
            }
            cursor = Some(c);
        }
        let out = corpus::run_entry(target, text);
        if let Some(mut c) = cursor {
            c.next();
        }
        if temp {
            quiet(|| fired("parser_built_in_callback"));
        }
        out
    }));
    quiet(|| {
        with(|c| {
            c.depth -= 1;
            c.conv_calls = before;
        })
    });
    match r {
        Ok(out) => quiet(|| {
            with(|c| c.nested.push(Nested { p: name.to_string(), t: t.to_string(), out: out.clone(), clean: true }));
            drop(out);
        }),
        Err(payload) => {
            let known = quiet(|| with(|c| c.raised).is_some_and(|id| is_payload(&*payload, id)));
            if !known {
                // not one of ours: report it as the nested parse's outcome
                let msg = quiet(|| panic_text(&*payload));
                quiet(|| with(|c| c.nested.push(Nested { p: name.to_string(), t: t.to_string(), out: format!("panic: {msg}"), clean: true })));
                drop(payload);
            } else if catch {
                quiet(|| {
                    with(|c| {
                        c.raised = None;
                        c.nested.push(Nested { p: name.to_string(), t: t.to_string(), out: String::new(), clean: false })
                    })
                });
                drop(payload);
            } else {
                std::panic::resume_unwind(payload);
            }
        }
    }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(SimPanic(n)) = p.downcast_ref::<SimPanic>() {
        format!("injected #{n}")
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(payload of unknown type)".to_string()
    }
}

/// A user value whose life is tracked.
pub struct Tok(u32);
impl Tok {
    fn new() -> Tok {
        quiet(|| {
            with(|c| {
                c.toks.push(0);
                Tok(c.toks.len() as u32 - 1)
            })
        })
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        quiet(|| {
            let _ = CTX.try_with(|c| {
                let mut c = c.borrow_mut();
                match c.toks.get_mut(self.0 as usize) {
                    Some(n) => {
                        *n += 1;
                        if *n > 1 {
                            c.tok_double += 1;
                        }
                    }
                    None => c.tok_double += 1,
                }
            });
        })
    }
}
impl Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if with(|c| c.tok_shown) {
            write!(f, "\u{1}{}\u{2}", self.0)
        } else {
            Ok(())
        }
    }
}

/// What conversions produce.
pub struct Out {
    site: u32,
    val: Box<dyn Debug>,
    tok: Tok,
}
impl Debug for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}{:?} {:?}>", self.site, self.tok, self.val)
    }
}

/// The body of every conversion.
pub fn mk<T: Debug + 'static>(site: u32, v: T) -> Out {
    call_out(K_CONV, site);
    Out { site, val: Box::new(v), tok: Tok::new() }
}

/// A tracked value, without calling out.
pub fn out<T: Debug + 'static>(site: u32, v: T) -> Out {
    Out { site, val: Box::new(v), tok: Tok::new() }
}

/// An element with user-written hash and comparisons.
#[derive(Debug)]
pub struct Key(pub u32, pub Out);
impl std::hash::Hash for Key {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        call_out(K_HASH, self.0);
        self.0.hash(h)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        // (how often different elements meet depends on the hash seed, so that
        // only finding an equal one counts as a call-out)
        let same = self.0 == o.0;
        if same {
            call_out(K_EQ, self.0);
        }
        same
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> std::cmp::Ordering {
        call_out(K_ORD, self.0);
        self.0.cmp(&o.0)
    }
}

/// An element equal only to itself.
#[derive(Debug)]
pub struct Uniq(pub Out);
pub trait Serial {
    fn serial(&self) -> u32;
}
impl Serial for Uniq {
    fn serial(&self) -> u32 {
        self.0.tok.0
    }
}
impl<T> Serial for (Uniq, T) {
    fn serial(&self) -> u32 {
        self.0.serial()
    }
}
impl std::hash::Hash for Uniq {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        call_out(K_HASH, self.0.site);
        self.0.tok.0.hash(h)
    }
}
impl PartialEq for Uniq {
    fn eq(&self, o: &Uniq) -> bool {
        self.0.tok.0 == o.0.tok.0
    }
}
impl Eq for Uniq {}
impl PartialOrd for Uniq {
    fn partial_cmp(&self, o: &Uniq) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Uniq {
    fn cmp(&self, o: &Uniq) -> std::cmp::Ordering {
        call_out(K_ORD, self.0.site);
        self.0.tok.0.cmp(&o.0.tok.0)
    }
}

/// A user-written collection.
pub struct Bag<T>(pub Vec<T>, pub u32);
pub struct BagIter<T>(std::vec::IntoIter<T>, u32);
impl<T> IntoIterator for Bag<T> {
    type Item = T;
    type IntoIter = BagIter<T>;
    fn into_iter(self) -> BagIter<T> {
        call_out(K_ITER, self.1);
        BagIter(self.0.into_iter(), self.1)
    }
}
impl<T> Iterator for BagIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        call_out(K_ITER, self.1);
        self.0.next()
    }
}

/// A user-written parser: one to three letters, longest match first.
#[derive(Clone, Copy)]
pub struct Probe(pub u32);
pub struct ProbeIter {
    site: u32,
    start: usize,
    len: usize,
    text: String,
}
impl Parser for Probe {
    type Output = Out;
    type RawOutput = (Out,);
    type Iter<'parse> = ProbeIter;
    fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<ProbeIter, Reported> {
        let refuse = call_out(K_START, self.0);
        let rest = &context.source()[start..];
        let n = rest.bytes().take_while(|b| b.is_ascii_lowercase()).count().min(3);
        if refuse || n == 0 {
            return Err(context.error_expected(start, "probe"));
        }
        Ok(ProbeIter { site: self.0, start, len: n, text: rest[..n].to_string() })
    }
}
impl<'parse> ParseIter<'parse> for ProbeIter {
    type RawOutput = (Out,);
    fn match_end(&self) -> usize {
        self.start + self.len
    }
    fn backtrack(&mut self, context: &mut ParseContext<'parse>) -> Result<(), Reported> {
        let refuse = call_out(K_NEXT, self.site);
        if refuse || self.len <= 1 {
            return Err(context.error_expected(self.start + self.len, "more probe"));
        }
        self.len -= 1;
        Ok(())
    }
    fn convert(&self) -> (Out,) {
        call_out(K_VALUE, self.site);
        (Out { site: self.site, val: Box::new(self.text[..self.len].to_string()), tok: Tok::new() },)
    }
}

/// The user's code for dropping a match iterator.
fn dropped(site: u32) {
    if !std::thread::panicking() {
        call_out(K_DROP, site);
    }
}
impl Drop for ProbeIter {
    fn drop(&mut self) {
        dropped(self.site);
    }
}

/// A user-written combinator that drives a library parser inside it.
#[derive(Clone, Copy)]
pub struct Via<P>(pub u32, pub P);
pub struct ViaIter<I>(u32, I);
impl<P: Parser> Parser for Via<P> {
    type Output = P::Output;
    type RawOutput = P::RawOutput;
    type Iter<'parse>
        = ViaIter<P::Iter<'parse>>
    where
        P: 'parse;
    fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<Self::Iter<'parse>, Reported> {
        let refuse = call_out(K_START, self.0);
        let it = self.1.parse_iter(context, start)?;
        if refuse {
            return Err(context.error_expected(start, "via"));
        }
        Ok(ViaIter(self.0, it))
    }
}
impl<I> Drop for ViaIter<I> {
    fn drop(&mut self) {
        dropped(self.0);
    }
}
impl<'parse, I: ParseIter<'parse>> ParseIter<'parse> for ViaIter<I> {
    type RawOutput = I::RawOutput;
    fn match_end(&self) -> usize {
        self.1.match_end()
    }
    fn backtrack(&mut self, context: &mut ParseContext<'parse>) -> Result<(), Reported> {
        if call_out(K_NEXT, self.0) {
            return Err(context.error_expected(self.1.match_end(), "more via"));
        }
        self.1.backtrack(context)
    }
    fn convert(&self) -> I::RawOutput {
        call_out(K_VALUE, self.0);
        self.1.convert()
    }
}
