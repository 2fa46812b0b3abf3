//! The parsers under simulation, with sample texts.
use crate::user::{self, mk, Bag, Key, Out, Probe, Serial, Uniq, Via};
use aoc_parse::{parser, prelude::*, ParseContext, ParseError, ParseIter, Parser, Reported};
use simlib::session::{text_of, Buf};
use simrt::sched::quiet;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

pub trait Entry {
    /// Another parser just like this one, if its type can be copied.
    fn copy(&self) -> Option<Box<dyn Entry>>;
    fn name(&self) -> &'static str;
    fn parse(&self, t: &str) -> String;
    fn parse_helped(&self, t: &str) -> String;
    /// Safety: the cursor must be gone before the parser and the text are.
    unsafe fn open(&self, t: &str, fresh: bool) -> Box<dyn Cursor>;
    /// Start one more iterator in the context of an existing cursor.
    unsafe fn open_in(&self, ctx: *mut ParseContext<'static>, at: usize) -> Box<dyn Cursor>;
}

/// A match iterator driven by hand.
pub trait Cursor {
    /// Start: the end of the first match, if any.
    fn start(&mut self) -> Option<usize>;
    fn next(&mut self) -> Option<usize>;
    fn value(&mut self) -> String;
    fn stop(&mut self);
    fn error(&mut self) -> String;
    fn ctx(&mut self) -> *mut ParseContext<'static>;
}

pub struct E<P> {
    name: &'static str,
    p: P,
    copy: Option<fn(&P) -> P>,
}

/// Finds out if a type can be copied (a reference to the first is a better match than to the second).
pub struct Look<'a, P>(&'a P);
pub trait CanCopy<P> {
    fn copier(&self) -> Option<fn(&P) -> P>;
}
impl<P: Clone> CanCopy<P> for Look<'_, P> {
    fn copier(&self) -> Option<fn(&P) -> P> {
        Some(P::clone)
    }
}
pub trait CannotCopy<P> {
    fn copier(&self) -> Option<fn(&P) -> P>;
}
impl<P> CannotCopy<P> for &Look<'_, P> {
    fn copier(&self) -> Option<fn(&P) -> P> {
        None
    }
}

/// Show the error, and drop it; the library's part of the work is simulated.
fn loud_err(e: ParseError, t: &str) -> String {
    let copy = e.clone();
    let text = copy.to_string();
    let debug = if t.len() <= 40 { format!("{copy:?}") } else { String::new() };
    drop(copy);
    let s = quiet(|| {
        let own = if e.source == t { "" } else { " (error carries another text)" };
        let odd = if debug.is_empty() || debug.contains(&format!("{text:?}")) { "" } else { " (differs when shown for debugging)" };
        format!("err@{}: {}{}{}", e.location, text, own, odd)
    });
    drop(debug);
    drop(text);
    if crate::kept::on() {
        crate::kept::keep_error(e);
    } else {
        drop(e);
    }
    s
}

impl<P, T> Entry for E<P>
where
    P: Parser<Output = T, RawOutput = (T,)> + 'static,
    T: Debug + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn copy(&self) -> Option<Box<dyn Entry>> {
        let f = self.copy?;
        Some(Box::new(E { name: self.name, p: f(&self.p), copy: self.copy }))
    }
    fn parse(&self, t: &str) -> String {
        match self.p.parse(t) {
            Ok(v) => quiet_show(v),
            Err(e) => loud_err(e, t),
        }
    }
    fn parse_helped(&self, t: &str) -> String {
        match aoc_parse::<&P, ParseError>(t, &self.p) {
            Ok(v) => quiet_show(v),
            Err(e) => {
                let t = quiet(|| text_of(t, Buf::Helper).into_owned());
                let s = loud_err(e, &t);
                quiet(|| drop(t));
                s
            }
        }
    }
    unsafe fn open(&self, t: &str, fresh: bool) -> Box<dyn Cursor> {
        let p: &'static P = &*(&self.p as *const P);
        let t: &'static str = &*(t as *const str);
        let ctx = Box::into_raw(Box::new(ParseContext::new(t)));
        Box::new(Cur { p, t, at: 0, ctx, own: true, fresh, it: None })
    }
    unsafe fn open_in(&self, ctx: *mut ParseContext<'static>, at: usize) -> Box<dyn Cursor> {
        let p: &'static P = &*(&self.p as *const P);
        let t = (*ctx).source();
        Box::new(Cur { p, t, at, ctx, own: false, fresh: false, it: None })
    }
}

/// Format without simulating the formatting, but drop the value for real.
fn quiet_show<T: Debug + 'static>(v: T) -> String {
    let s = quiet(|| format!("ok: {v:?}"));
    if crate::kept::on() {
        crate::kept::keep_value(v);
    } else {
        drop(v);
    }
    s
}

struct Cur<P: Parser + 'static> {
    p: &'static P,
    t: &'static str,
    at: usize,
    ctx: *mut ParseContext<'static>,
    own: bool,
    /// Every attempt gets a context of its own.
    fresh: bool,
    it: Option<P::Iter<'static>>,
}
impl<P, T> Cursor for Cur<P>
where
    P: Parser<Output = T, RawOutput = (T,)> + 'static,
    T: Debug + 'static,
{
    fn start(&mut self) -> Option<usize> {
        self.it = None;
        if self.fresh {
            unsafe { *self.ctx = ParseContext::new(self.t) };
        }
        match self.p.parse_iter(unsafe { &mut *self.ctx }, self.at) {
            Ok(it) => {
                let e = it.match_end();
                self.it = Some(it);
                Some(e)
            }
            Err(Reported) => None,
        }
    }
    fn next(&mut self) -> Option<usize> {
        let it = self.it.as_mut()?;
        match it.backtrack(unsafe { &mut *self.ctx }) {
            Ok(()) => Some(it.match_end()),
            Err(Reported) => {
                self.it = None;
                None
            }
        }
    }
    fn value(&mut self) -> String {
        match &self.it {
            Some(it) => quiet_show(it.convert().0),
            None => String::new(),
        }
    }
    fn stop(&mut self) {
        self.it = None;
    }
    fn error(&mut self) -> String {
        let c = std::mem::replace(unsafe { &mut *self.ctx }, ParseContext::new(self.t));
        let e = c.into_reported_error();
        loud_err(e, self.t)
    }
    fn ctx(&mut self) -> *mut ParseContext<'static> {
        self.ctx
    }
}
impl<P: Parser + 'static> Drop for Cur<P> {
    fn drop(&mut self) {
        self.it = None;
        if self.own {
            unsafe { drop(Box::from_raw(self.ctx)) };
        }
    }
}

/// Parse, keeping track of which parser is running on this thread.
pub fn run_entry(e: &dyn Entry, t: &str) -> String {
    run_entry_as(e, t, false)
}
pub fn run_entry_as(e: &dyn Entry, t: &str, helped: bool) -> String {
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            quiet(|| user::with(|c| c.running.pop()));
        }
    }
    quiet(|| user::with(|c| c.running.push(unsafe { std::mem::transmute::<*const dyn Entry, *const dyn Entry>(e as *const dyn Entry) })));
    let _pop = Pop;
    if helped {
        e.parse_helped(t)
    } else {
        e.parse(t)
    }
}

#[cfg(feature = "share")]
pub type Shared = Box<dyn Entry + Send + Sync>;
#[cfg(not(feature = "share"))]
pub type Shared = Box<dyn Entry>;

pub struct Def {
    pub name: &'static str,
    pub build: fn() -> Box<dyn Entry>,
    /// None for parsers that cannot be shared between threads.
    pub share: Option<fn() -> Shared>,
    pub texts: &'static [&'static str],
    /// What it is about: n = number, r = rule set, p = user parser, l = line/section, c = collection, m = conversions, a = backtracking-heavy
    pub tags: &'static str,
}

struct Reg(Vec<Option<Shared>>);
/// Written only while no other thread exists.
static mut SHARED: Reg = Reg(Vec::new());

thread_local! {
    static KEPT: RefCell<BTreeMap<usize, Box<dyn Entry>>> = const { RefCell::new(BTreeMap::new()) };
}

/// Seeded patterns are parsers too: number `DEFS.len() + n`, called `tree-<seed>`.
static TREES: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());

pub fn index(name: &str) -> usize {
    if let Some(h) = name.strip_prefix("tree-") {
        let seed = u64::from_str_radix(h, 16).expect("seed of a pattern");
        return tree_index(seed);
    }
    DEFS.iter().position(|d| d.name == name).unwrap_or_else(|| panic!("no parser called {name}"))
}
pub fn tree_index(seed: u64) -> usize {
    quiet(|| {
        let mut t = TREES.lock().unwrap();
        let i = t.iter().position(|x| *x == seed).unwrap_or_else(|| {
            t.push(seed);
            t.len() - 1
        });
        DEFS.len() + i
    })
}
/// The pattern, its sub-parsers and texts.
pub fn tree_case(seed: u64) -> simlib::session::Case {
    simlib::genb::tame(seed)
}
pub fn tree_seed(i: usize) -> u64 {
    TREES.lock().unwrap()[i - DEFS.len()]
}
pub fn build(i: usize) -> Box<dyn Entry> {
    if i < DEFS.len() {
        return (DEFS[i].build)();
    }
    type Known = BTreeMap<usize, (&'static str, &'static simlib::session::Case)>;
    static KNOWN: std::sync::Mutex<Known> = std::sync::Mutex::new(BTreeMap::new());
    let (name, c) = quiet(|| {
        *KNOWN.lock().unwrap().entry(i).or_insert_with(|| {
            let seed = tree_seed(i);
            (Box::leak(format!("tree-{seed:x}").into_boxed_str()), Box::leak(Box::new(tree_case(seed))))
        })
    });
    let p = crate::tree::standalone(&c.g, quiet(|| c.scripts.clone()));
    Box::new(E { name, p, copy: Some(Clone::clone) })
}
/// May values be lost on purpose (merged in a set, or left unconverted)?
pub fn may_merge(i: usize) -> bool {
    i < DEFS.len() && DEFS[i].tags.contains('c')
}

/// Build the shared instance of this parser. Call from the main thread, before threads start.
pub fn prepare(i: usize) {
    unsafe {
        let r = &mut *std::ptr::addr_of_mut!(SHARED);
        if r.0.is_empty() {
            r.0.resize_with(DEFS.len(), || None);
        }
        if i < DEFS.len() && r.0[i].is_none() {
            if let Some(f) = DEFS[i].share {
                r.0[i] = Some(f());
            }
        }
    }
}
pub fn shared(i: usize) -> Option<&'static dyn Entry> {
    unsafe {
        let r = &*std::ptr::addr_of!(SHARED);
        r.0.get(i).and_then(|x| x.as_ref()).map(|b| {
            let e: &'static dyn Entry = &**b;
            e
        })
    }
}
/// This thread's own instance.
pub fn kept(i: usize) -> &'static dyn Entry {
    let have = KEPT.with(|k| k.borrow().contains_key(&i));
    if !have {
        let b = simrt::sched::loud(|| build(i));
        KEPT.with(|k| k.borrow_mut().insert(i, b));
    }
    KEPT.with(|k| unsafe { &*(&*k.borrow()[&i] as *const dyn Entry) })
}
/// A new one in its place.
pub fn renewed(i: usize) -> &'static dyn Entry {
    let old = quiet(|| KEPT.with(|k| k.borrow_mut().remove(&i)));
    drop(old);
    quiet(|| kept(i))
}
fn digits_in_parens() -> impl Parser<Output = Out, RawOutput = (Out,)> + 'static {
    parser!(rule i: Out = { n:u8 => mk(115, n), "(" x:i ")" => mk(118, x) }; i)
}
pub fn copied<P: Parser + Clone>(p: P) -> P {
    let q = p.clone();
    drop(p);
    q.clone()
}
fn semicolon_after_abandoned() -> &'static str {
    abandon(0);
    ";"
}
struct Abandoned;
fn given_up<P: Parser>(p: P) -> P {
    if p.parse("such").is_err() {
        std::panic::resume_unwind(Box::new(Abandoned));
    }
    p
}
/// Begin to build a parser with rules, and give up on the way.
fn abandon(how: u64) {
    let r = std::panic::catch_unwind(|| {
        if how % 2 == 0 {
            drop(parser!(
                rule a: u32 = { n:u32 => n, "(" x:b ")" => x };
                rule b: u32 = given_up(u32);
                a
            ))
        } else {
            drop(parser!(
                rule a: u32 = { n:u32 => n, "(" x:a ")" => x };
                given_up(i8) a
            ))
        }
    });
    assert!(r.is_err_and(|e| e.is::<Abandoned>()));
}
/// Build a parser, copy it, drop both, in one order or another.
pub fn come_and_go(i: usize, how: u64) {
    let b = build(i);
    if how % 5 == 0 {
        abandon(how / 5);
    }
    let c = b.copy();
    let d = if how % 3 == 0 { c.as_ref().and_then(|c| c.copy()) } else { None };
    if how % 2 == 0 {
        drop(b);
        drop(c);
    } else {
        drop(c);
        drop(b);
    }
    drop(d);
}
pub fn touch_kept() {
    KEPT.with(|_| ());
}
pub fn drop_kept() {
    let m = quiet(|| KEPT.with(|k| std::mem::take(&mut *k.borrow_mut())));
    for (_, e) in m {
        drop(e);
    }
}
pub fn instance(name: &str) -> &'static dyn Entry {
    let i = index(name);
    shared(i).unwrap_or_else(|| kept(i))
}

// ---------------------------------------------------------------------------

fn in_order<T: Serial>(s: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = s.into_iter().collect();
    quiet(|| v.sort_by_key(|x| x.serial()));
    v
}
fn sorted_set(s: HashSet<Key>) -> Vec<Key> {
    let mut v: Vec<Key> = s.into_iter().collect();
    quiet(|| v.sort_by_key(|k| k.0));
    v
}
fn sorted_map(s: HashMap<String, Out>) -> Vec<(String, Out)> {
    let mut v: Vec<_> = s.into_iter().collect();
    quiet(|| v.sort_by(|a, b| a.0.cmp(&b.0)));
    v
}
fn bset(s: BTreeSet<Key>) -> Vec<Key> {
    s.into_iter().collect()
}

macro_rules! one {
    (sync $f:ident $tags:literal [$($t:expr),*] $p:expr) => {{
        fn share() -> Shared {
            let p = $p;
            let copy = (&Look(&p)).copier();
            Box::new(E { name: stringify!($f), p, copy })
        }
        fn build() -> Box<dyn Entry> {
            share()
        }
        Def { name: stringify!($f), build, share: Some(share), texts: &[$($t),*], tags: $tags }
    }};
    (local $f:ident $tags:literal [$($t:expr),*] $p:expr) => {{
        fn build() -> Box<dyn Entry> {
            let p = $p;
            let copy = (&Look(&p)).copier();
            Box::new(E { name: stringify!($f), p, copy })
        }
        Def { name: stringify!($f), build, share: None, texts: &[$($t),*], tags: $tags }
    }};
}
macro_rules! corpus {
    ($($sh:ident $f:ident $tags:literal [$($t:expr),* $(,)?] => { $($p:tt)* })*) => {
        pub static DEFS: &[Def] = &[ $( one!($sh $f $tags [$($t),*] { $($p)* }) ),* ];
    };
}

include!("corpus_list.rs");

/// Parsers without rules can be copied.
#[cfg(feature = "copies")]
#[allow(dead_code)]
fn may_be_copied() {
    fn copies<P: Clone>(_: P) {}
    copies(parser!(lines(u32)));
    copies(parser!(sections(line(string(alpha+)) lines(repeat_sep(i64, ", ")))));
    copies(parser!("a" x:(digit+) y:{"b" => 1, "c" => 2}? char_of("xyz")* => (x, y)));
    copies(parser!(a:bool b:f64 c:big_int d:char_of("+-") => (a, b, c, d)));
    copies(parser!(hash_set(alnum* " ") vec_deque(any_char*)));
}
