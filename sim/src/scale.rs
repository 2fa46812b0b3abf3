//! Large parses with known answers: so many rounds, retries, lines, sections, levels, iterators or
//! panics that limits far beyond the other sessions' sizes show. Each answer is known in closed form.
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter, Parser, Reported};
use simlib::session::*;
use simrt::sched::quiet;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const KINDS: [&str; 14] =
    ["star", "giveback", "sep", "offers", "alts", "lines", "sections", "rules", "string", "ladder", "iters", "deep", "panics", "strays"];

/// What the run is watched for.
#[derive(Default)]
struct St {
    requests: Cell<u64>,
    /// Starts of the pieces converted, in the order they were.
    log: RefCell<Vec<u32>>,
    values: Cell<u64>,
    bad: RefCell<Vec<(&'static str, String)>>,
    /// Raise a panic at the next event of this kind: 1 start, 2 continue, 3 value, 4 conversion, 5 drop.
    armed: Cell<u8>,
    hook: Cell<Option<fn(&St, u8)>>,
    depth: Cell<u32>,
    most: Cell<u32>,
}
impl St {
    fn bad(&self, class: &'static str, text: String) {
        quiet(|| {
            let mut b = self.bad.borrow_mut();
            if b.len() < 20 {
                b.push((class, text));
            }
        })
    }
    fn event(&self, what: u8) {
        if self.armed.get() == what {
            self.armed.set(0);
            std::panic::panic_any(Raised(what));
        }
        if let Some(h) = self.hook.get() {
            h(self, what);
        }
    }
    fn conv(&self, x: Piece) -> Piece {
        self.event(4);
        quiet(|| self.log.borrow_mut().push(x.start));
        x
    }
    fn never(&self, x: Piece) -> Piece {
        self.bad("conversion", quiet(|| format!("the piece at {} was converted, which is not in the result", x.start)));
        x
    }
}
struct Raised(u8);

#[derive(Clone, Copy, PartialEq, Debug)]
struct Piece {
    start: u32,
    len: u32,
}

/// Matches up to `most` times the letter `ch`, the longest match first.
struct Run<'a> {
    st: &'a St,
    ch: u8,
    most: usize,
    /// Reports that it has looked so far ahead, before it matches.
    ahead: usize,
}
struct RunI<'p, 'a> {
    p: &'p Run<'a>,
    src: &'p str,
    start: usize,
    len: usize,
    over: bool,
}
fn run(st: &St, ch: u8, most: usize) -> Run<'_> {
    Run { st, ch, most, ahead: 0 }
}
const NOUN: &str = "another of them";
impl<'a> Parser for Run<'a> {
    type Output = Piece;
    type RawOutput = (Piece,);
    type Iter<'p>
        = RunI<'p, 'a>
    where
        'a: 'p;
    fn parse_iter<'p>(&'p self, c: &mut ParseContext<'p>, start: usize) -> Result<RunI<'p, 'a>, Reported> {
        let st = self.st;
        st.requests.set(st.requests.get() + 1);
        st.event(1);
        let src = c.source();
        if !src.is_char_boundary(start) {
            st.bad("protocol", quiet(|| format!("started at {start} of {}", src.len())));
            return Err(c.error_expected(0, NOUN));
        }
        if self.ahead > 0 && start + self.ahead <= src.len() {
            let noun = quiet(|| format!("something seen from {start}"));
            let _ = c.error_expected(start + self.ahead, &noun);
            quiet(|| drop(noun));
        }
        let b = &src.as_bytes()[start..];
        let len = quiet(|| b.iter().take(self.most).position(|&x| x != self.ch).unwrap_or(b.len().min(self.most)));
        if len == 0 {
            return Err(c.error_expected(start, NOUN));
        }
        Ok(RunI { p: self, src, start, len, over: false })
    }
}
impl<'p> ParseIter<'p> for RunI<'p, '_> {
    type RawOutput = (Piece,);
    fn match_end(&self) -> usize {
        if self.over {
            self.p.st.bad("protocol", quiet(|| format!("the iterator started at {} was asked for its end after it was exhausted", self.start)));
            return self.start;
        }
        self.start + self.len
    }
    fn backtrack(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> {
        let st = self.p.st;
        st.requests.set(st.requests.get() + 1);
        st.event(2);
        if self.over || c.source() as *const str != self.src as *const str {
            st.bad("protocol", quiet(|| format!("the iterator started at {} was continued {}", self.start, if self.over { "after it was exhausted" } else { "with another text" })));
        }
        if self.len > 1 && !self.over {
            self.len -= 1;
            return Ok(());
        }
        self.over = true;
        Err(c.error_expected(self.start, "another way to match"))
    }
    fn convert(&self) -> (Piece,) {
        let st = self.p.st;
        st.event(3);
        st.values.set(st.values.get() + 1);
        if self.over {
            st.bad("protocol", quiet(|| format!("the iterator started at {} was asked for its value after it was exhausted", self.start)));
        }
        (Piece { start: self.start as u32, len: self.len as u32 },)
    }
}
impl Drop for RunI<'_, '_> {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            self.p.st.event(5);
        }
    }
}

fn letters(n: usize) -> String {
    "a".repeat(n)
}

/// What came out, compared with what should.
struct Out<'a> {
    st: &'a St,
    digest: String,
}
impl<'a> Out<'a> {
    fn new(st: &'a St) -> Self {
        Out { st, digest: String::new() }
    }
    /// `want`: the pieces, or the error's position. `converted`: where the conversions should have been.
    fn done(&mut self, got: Result<Vec<Piece>, aoc_parse::ParseError>, want: Result<Vec<Piece>, (usize, String)>, converted: impl Iterator<Item = u32>, walk: u64) {
        let st = self.st;
        quiet(|| {
            let log = std::mem::take(&mut *st.log.borrow_mut());
            match (&got, &want) {
                (Ok(v), Ok(w)) => {
                    if v != w {
                        let i = v.iter().zip(w).position(|(a, b)| a != b).unwrap_or(v.len().min(w.len()));
                        st.bad("result", format!("gave {} pieces, should be {}; the first difference is at piece {i}: {:?}, should be {:?}", v.len(), w.len(), v.get(i), w.get(i)));
                    }
                }
                (Err(e), Err(w)) => {
                    let text = e.to_string();
                    if e.location != w.0 || !text.contains(&w.1) {
                        st.bad("error", format!("the error is {text:?} at {}, should be at {} with {:?}", e.location, w.0, w.1));
                    }
                }
                (Ok(v), Err(w)) => st.bad("result", format!("gave {} pieces, should fail at {}", v.len(), w.0)),
                (Err(e), Ok(w)) => st.bad("result", format!("failed with {:?} at {}, should give {} pieces", e.to_string(), e.location, w.len())),
            }
            let conv: Vec<u32> = if got.is_ok() == want.is_ok() { converted.collect() } else { log.clone() };
            if log != conv {
                let i = log.iter().zip(&conv).position(|(a, b)| a != b).unwrap_or(log.len().min(conv.len()));
                st.bad("conversion", format!("{} conversions, should be {}; number {i} was of the piece at {:?}, should be {:?}", log.len(), conv.len(), log.get(i), conv.get(i)));
            }
            if got.is_err() && !log.is_empty() {
                st.bad("conversion", "the parse failed, but conversions ran".into());
            }
            if got.is_err() && st.values.get() > 0 {
                st.bad("protocol", "the parse failed, but values were asked for".into());
            }
            if st.requests.get() > walk + walk / 2 + 8 {
                st.bad("requests", format!("{} requests; one exhaustive walk makes {walk}", st.requests.get()));
            }
            let h = match &got {
                Ok(v) => v.iter().fold(7u64, |h, x| h.wrapping_mul(31).wrapping_add(x.start as u64 * 3 + x.len as u64)),
                Err(e) => e.location as u64,
            };
            self.digest.push_str(&format!(" {}:{h:x}", if got.is_ok() { "ok" } else { "err" }));
            st.requests.set(0);
            st.values.set(0);
        });
        drop(got);
        quiet(|| drop(want));
    }
}
fn ones(n: usize) -> Vec<Piece> {
    quiet(|| (0..n as u32).map(|start| Piece { start, len: 1 }).collect())
}
fn starts(n: usize) -> impl Iterator<Item = u32> {
    0..n as u32
}

/// Returns what it saw, and what was wrong with it (what kind of thing, details).
pub fn scale(kind: &str, n: u32, k: u32) -> (String, Vec<(&'static str, String)>) {
    let st = St::default();
    let mut out = Out::new(&st);
    let n = n.max(2) as usize;
    match kind {
        "star" => {
            let leaf = run(&st, b'a', 1);
            let one = parser!(x:leaf => st.conv(x));
            let mut t = letters(n);
            if k % 2 == 1 {
                t.push('!');
            }
            let want = if k % 2 == 0 { Ok(ones(n)) } else { Err((n, NOUN.into())) };
            let converted = starts(if k % 2 == 0 { n } else { 0 });
            if k % 4 < 2 {
                let p = parser!(one*);
                out.done(p.parse(&t), want, converted, 2 * n as u64 + 1);
            } else {
                let p = parser!(one+);
                out.done(p.parse(&t), want, converted, 2 * n as u64 + 1);
            }
        }
        "giveback" => {
            let leaf = run(&st, b'a', 1);
            let one = parser!(x:leaf => st.conv(x));
            let back = k as usize % (n + 2);
            let lit = letters(back) + "b";
            let t = letters(n) + "b";
            {
                let end: &str = &lit;
                let p = parser!(one* end);
                let walk = 2 * n as u64 + 1;
                if back <= n {
                    out.done(p.parse(&t), Ok(ones(n - back)), starts(n - back), walk);
                } else {
                    out.done(p.parse(&t), Err((n, NOUN.into())), starts(0), walk);
                }
            }
        }
        "sep" => {
            let leaf = run(&st, b'a', 1);
            let one = parser!(x:leaf => st.conv(x));
            let comma = run(&st, b',', 1);
            let sep = parser!(x:comma => st.never(x));
            let back = k as usize % n;
            let mut t = "a,".repeat(n);
            t.pop();
            t.push('!');
            let lit = ",a".repeat(back) + "!";
            let end: &str = &lit;
            let p = parser!(repeat_sep(one, sep) end);
            let want = quiet(|| (0..n - back).map(|i| Piece { start: 2 * i as u32, len: 1 }).collect());
            out.done(p.parse(&t), Ok(want), (0..n - back).map(|i| 2 * i as u32), 4 * n as u64 + 2);
        }
        "offers" => {
            let leaf = run(&st, b'a', usize::MAX);
            let one = parser!(x:leaf => st.conv(x));
            let back = k as usize % (n + 1);
            let lit = letters(back) + "b";
            let t = letters(n) + "b";
            let end: &str = &lit;
            let p = parser!(one end);
            let got = p.parse(&t).map(|x| quiet(|| vec![x]));
            if back < n {
                let want = quiet(|| vec![Piece { start: 0, len: (n - back) as u32 }]);
                out.done(got, Ok(want), 0..1, n as u64 + 1);
            } else {
                let want = quiet(|| format!("{lit:?}"));
                out.done(got, Err((n, want)), starts(0), n as u64 + 1);
            }
        }
        "alts" => {
            let leaf = &run(&st, b'a', 1);
            let p = parser!({ x:leaf "x" => st.never(x), x:leaf => st.conv(x) }*);
            out.done(p.parse(&letters(n)), Ok(ones(n)), starts(n), 4 * n as u64 + 2);
        }
        "lines" => {
            let leaf = run(&st, b'a', usize::MAX);
            let one = parser!(x:leaf => st.conv(x));
            let p = parser!(lines(one));
            let size = |i: usize| 1 + i % 3;
            let bad = if k % 2 == 1 { k as usize % n } else { n };
            let mut t = String::new();
            let mut at = 0;
            for i in 0..n {
                if i == bad {
                    at = t.len() + size(i);
                }
                for _ in 0..size(i) {
                    t.push('a');
                }
                t.push_str(if i == bad { "b\n" } else { "\n" });
            }
            if k % 4 >= 2 {
                t.pop();
            }
            let walk = (0..n).map(|i| 1 + size(i) as u64).sum::<u64>() + 1;
            if bad == n {
                let want = quiet(|| (0..n).map(|i| Piece { start: 0, len: size(i) as u32 }).collect());
                out.done(p.parse(&t), Ok(want), (0..n).map(|_| 0), walk);
            } else {
                out.done(p.parse(&t), Err((at, "line(pattern) matched part of the line".into())), starts(0), walk);
            }
        }
        "sections" => {
            let leaf = run(&st, b'a', usize::MAX);
            let one = parser!(x:leaf => st.conv(x));
            let p = parser!(sections(lines(one)));
            let mut t = String::new();
            let mut want: Vec<Vec<Piece>> = Vec::new();
            let mut i = 0;
            while i < n {
                let mut sec = Vec::new();
                for j in 0..(1 + (i + k as usize) % 4).min(n - i) {
                    let len = 1 + (i + j) % 3;
                    for _ in 0..len {
                        t.push('a');
                    }
                    t.push('\n');
                    quiet(|| sec.push(Piece { start: 0, len: len as u32 }));
                }
                i += sec.len();
                quiet(|| want.push(sec));
                t.push('\n');
            }
            t.pop();
            let got = p.parse(&t);
            let sizes = |v: &Vec<Vec<Piece>>| quiet(|| v.iter().map(|s| s.len()).collect::<Vec<_>>());
            if let Ok(v) = &got {
                if sizes(v) != sizes(&want) {
                    st.bad("result", quiet(|| format!("{} sections, should be {}, or of other sizes", v.len(), want.len())));
                }
            }
            let got = got.map(|v| quiet(|| v.concat()));
            let want = quiet(|| want.concat());
            out.done(got, Ok(want), (0..n).map(|_| 0), 8 * n as u64 + 2);
        }
        "rules" => {
            let leaf = run(&st, b'a', 1);
            let st2 = &st;
            let p = parser!(
                rule r: u32 = { "(" x:r ")" => x + 1, "<" x:r ">" => x + 1, "a" => 0 };
                x:r => x
            );
            let p2 = parser!(x:leaf => st2.conv(x));
            let mut t = String::new();
            for i in 0..n {
                t.push(if (i + k as usize) % 3 == 0 { '<' } else { '(' });
            }
            t.push('a');
            for i in (0..n).rev() {
                t.push(if (i + k as usize) % 3 == 0 { '>' } else { ')' });
            }
            match p.parse(&t) {
                Ok(d) if d as usize == n => {}
                Ok(d) => st.bad("result", quiet(|| format!("{n} levels of a rule: gave {d}"))),
                Err(e) => st.bad("result", quiet(|| format!("{n} levels of a rule: {:?}", e.to_string().chars().take(300).collect::<String>()))),
            }
            t.pop();
            match p.parse(&t) {
                Ok(_) => st.bad("result", quiet(|| format!("{n} levels of a rule, one not closed: matched"))),
                Err(e) => {
                    if e.location != t.len() {
                        st.bad("error", quiet(|| format!("{n} levels of a rule, one not closed: error at {}, should be at {}", e.location, t.len())));
                    }
                }
            }
            out.done(p2.parse("a").map(|x| quiet(|| vec![x])), Ok(ones(1)), starts(1), 2);
        }
        "string" => {
            let leaf = run(&st, b'a', 1);
            let one = parser!(x:leaf => st.never(x));
            let p = parser!(string(one*));
            let t = letters(n);
            match p.parse(&t) {
                Ok(s) if s == t => {}
                Ok(s) => st.bad("result", quiet(|| format!("a string of {} letters, should be {n}", s.len()))),
                Err(e) => st.bad("result", quiet(|| format!("failed: {:?}", e.to_string()))),
            }
        }
        "ladder" => {
            let mut leaf = run(&st, b'a', 1);
            leaf.ahead = 1 + k as usize % 9;
            let ahead = leaf.ahead;
            let one = parser!(x:leaf => st.conv(x));
            let t = letters(n) + "!";
            let p = parser!(one* "?");
            // the last start that looks at the text's end, or as near to it as it gets
            let from = (n + 1).checked_sub(ahead);
            let want = match from {
                Some(from) => (n + 1, quiet(|| format!("something seen from {from}"))),
                None => (n, NOUN.into()),
            };
            out.done(p.parse(&t), Err(want), starts(0), 2 * n as u64 + 1);
        }
        "iters" => iters(&mut out, n, k),
        "deep" => deep(&mut out, n, k),
        "panics" => panics(&mut out, n, k),
        _ => strays(&mut out, n, k),
    }
    quiet(|| (format!("ok: {kind}{}", std::mem::take(&mut out.digest)), std::mem::take(&mut *st.bad.borrow_mut())))
}

/// The kinds that say something about the property.
pub fn kinds(prop: &str) -> &'static [&'static str] {
    match prop {
        "C03" => &["deep"],
        "C04" => &["panics"],
        "C06" => &["star", "giveback", "sep", "alts", "lines", "sections", "string"],
        "C08" => &["star", "giveback", "sep", "offers", "alts", "lines", "sections", "rules"],
        "C09" => &["iters", "iters", "strays"],
        "C10" => &["star", "giveback", "offers", "lines", "rules", "ladder"],
        "C13" => &["lines", "sections"],
        _ => &KINDS[..10],
    }
}

/// Is this kind of thing that is wrong the property's concern?
pub fn concerns(prop: &str, class: &str) -> bool {
    match class {
        "conversion" => prop == "C06",
        "protocol" => prop == "C07",
        "requests" => prop == "C12",
        "result" => !matches!(prop, "C06" | "C07" | "C10" | "C12"),
        _ => !matches!(prop, "C06" | "C07" | "C08" | "C12"),
    }
}

/// A parse of this sort among others, of a size that lets them stay quick.
pub fn op(r: &mut simrt::rng::Rng, most: u64) -> Op {
    let kind = KINDS[r.below(KINDS.len() as u64) as usize];
    let most = match kind {
        "deep" | "panics" => most.min(30),
        "rules" => most.min(120),
        _ => most,
    };
    let n = 2 + r.below(most);
    Op::Scale { kind: kind.into(), n: n as u32, k: r.below(n + 2) as u32 }
}

/// A session of one large parse.
pub fn gen(prop: &str, seed: u64) -> Session {
    let mut r = simrt::rng::Rng::new(seed);
    let kinds = kinds(prop);
    let kind = kinds[r.below(kinds.len() as u64) as usize];
    let near = |r: &mut simrt::rng::Rng, n: u64| match r.below(4) {
        0 => n - 1 + r.below(4),
        _ => n + r.below(n / 40 + 3),
    };
    let mut n = match r.below(100) {
        0..=19 => 100 + r.below(400),
        20..=34 => near(&mut r, 1000),
        35..=54 => near(&mut r, 4096),
        55..=69 => near(&mut r, 10_000),
        70..=84 => near(&mut r, 16_384),
        85..=93 => near(&mut r, 32_768),
        _ => near(&mut r, 65_536),
    };
    match kind {
        "deep" => n = 100 + r.below(if n > 10_000 { 1400 } else { 200 }),
        "rules" => n = 100 + n % 900,
        "iters" => n = n.min(5000),
        "panics" => n = n.min(20_000),
        _ => {}
    }
    let k = match r.below(4) {
        0 => r.below(8),
        1 => n.saturating_sub(r.below(8)),
        _ => r.below(n + 2),
    };
    Session {
        prop: prop.into(),
        seed,
        env: Env { place: PlaceS::Lifo, hash_seed: r.below(1 << 32) },
        threads: false,
        wave: 0,
        one_text: false,
        last_words: false,
        tasks: vec![vec![Op::Scale { kind: kind.into(), n: n as u32, k: k as u32 }]],
        faults: vec![],
        cases: vec![],
        plan: PlanS::Serial,
        cap: 60_000_000 + 20_000 * n,
    }
}

/// `n` iterators open at once, moved in a seeded order.
fn iters(out: &mut Out, n: usize, k: u32) {
    let st = out.st;
    let len = 1 + k as usize % 7;
    let leaf = run(st, b'a', 1);
    let p = parser!(leaf*);
    let texts: Vec<String> = (0..n).map(|i| letters(len + i % 3)).collect();
    let mut cs: Vec<ParseContext> = Vec::with_capacity(n);
    for i in 0..n {
        // some of them over the very same text
        let t = if i % 4 == 3 { &texts[i - 3] } else { &texts[i] };
        cs.push(ParseContext::new(t));
    }
    let size = |i: usize| if i % 4 == 3 { len + (i - 3) % 3 } else { len + i % 3 };
    let mut its = Vec::with_capacity(n);
    for (i, c) in cs.iter_mut().enumerate() {
        match p.parse_iter(c, 0) {
            Ok(it) => its.push(Some(it)),
            Err(_) => {
                st.bad("result", quiet(|| format!("match iterator {i} of {n} does not start")));
                its.push(None);
            }
        }
    }
    let mut left: Vec<usize> = (0..n).map(size).collect();
    let mut h = simrt::rng::mix(k as u64 + 99);
    let mut alive = n;
    let mut moves = 0;
    while alive > 0 && moves < 30 * n {
        moves += 1;
        h = simrt::rng::mix(h);
        let i = (h >> 20) as usize % n;
        let Some(it) = &mut its[i] else { continue };
        let end = it.match_end();
        if end != left[i] {
            st.bad("result", quiet(|| format!("match iterator {i} of {n} is at {end}, should be at {}", left[i])));
        }
        match h % 16 {
            0 => {
                its[i] = None;
                alive -= 1;
            }
            1 | 2 => {
                let v = it.convert().0;
                if v.len() != left[i] || v.iter().enumerate().any(|(j, x)| x.start as usize != j) {
                    st.bad("result", quiet(|| format!("match iterator {i} of {n} has a value of {} pieces, should be {}", v.len(), left[i])));
                }
            }
            _ => {
                let r = it.backtrack(&mut cs[i]);
                match (r.is_ok(), left[i]) {
                    (true, x) if x > 0 => left[i] -= 1,
                    (false, 0) => {
                        its[i] = None;
                        alive -= 1;
                    }
                    (ok, x) => {
                        st.bad("result", quiet(|| format!("match iterator {i} of {n}: asked for another match at {x}, got {ok}")));
                        its[i] = None;
                        alive -= 1;
                    }
                }
            }
        }
    }
    drop(its);
    for (i, c) in cs.into_iter().enumerate() {
        {
            let e = c.into_reported_error();
            if e.location != size(i) || !quiet(|| e.to_string()).contains(NOUN) {
                st.bad("result", quiet(|| format!("match iterator {i} of {n}: error {:?} at {}, should be at {}", e.to_string(), e.location, size(i))));
            }
        }
    }
    quiet(|| st.values.set(0));
    st.requests.set(0);
}

type Again<'x> = dyn Fn() + 'x;
thread_local! {
    static AGAIN: Cell<Option<*const Again<'static>>> = const { Cell::new(None) };
}
/// Nested `n` deep: in a start, a continuation, a value or a conversion, in turn.
fn deep(out: &mut Out, n: usize, k: u32) {
    let st = out.st;
    let leaf = run(st, b'a', usize::MAX);
    let one = &parser!(x:leaf => st.conv(x));
    let p = parser!(line(one "ab") repeat_sep(u32, ","));
    let text = "aaab\n12,3".to_string();
    st.most.set(n as u32);
    let again = || match p.parse(&text) {
        Ok((x, v)) if x == (Piece { start: 0, len: 2 }) && v == [12, 3] => {}
        Ok((x, v)) => st.bad("result", quiet(|| format!("{} parses deep: gave {x:?} {v:?}", st.depth.get()))),
        Err(e) => st.bad("result", quiet(|| format!("{} parses deep: {:?}", st.depth.get(), e.to_string()))),
    };
    let r: &Again = &again;
    AGAIN.set(Some(unsafe { std::mem::transmute::<*const Again, *const Again<'static>>(r) }));
    fn go(st: &St, what: u8) {
        let d = st.depth.get();
        let turn = 1 + ((d / 3 + st.most.get()) % 4) as u8;
        if what == turn && d < st.most.get() {
            st.depth.set(d + 1);
            let again = AGAIN.get().unwrap();
            unsafe { (*again)() };
            // the way back up goes straight
            st.depth.set(st.most.get());
        }
    }
    st.hook.set(Some(go));
    let _ = k;
    again();
    st.hook.set(None);
    AGAIN.set(None);
    quiet(|| st.log.borrow_mut().clear());
    st.requests.set(0);
    st.values.set(0);
    out.done(parser!(one).parse("a").map(|x| quiet(|| vec![x])), Ok(ones(1)), starts(1), 2);
}

/// `n` parses that end by a panic in user code, one after the other.
fn panics(out: &mut Out, n: usize, k: u32) {
    let st = out.st;
    let leaf = run(st, b'a', 1);
    let one = &parser!(x:leaf => st.conv(x));
    let p = parser!(section(lines(repeat_sep({ one, "b" => Piece { start: 0, len: 0 } }, ","))) one* "ab" u8);
    let text = "a,b,a\nb\n\naaab7";
    let good = |st: &St, i: usize| {
        st.armed.set(0);
        let got = catch_unwind(AssertUnwindSafe(|| p.parse(text).map(|(s, o, n)| (s.len(), s.first().map_or(0, |l| l.len()), o.len(), n)).map_err(|e| quiet(|| e.to_string()))));
        match got {
            Ok(Ok((2, 3, 2, 7))) => {}
            Ok(x) => st.bad("result", quiet(|| format!("after {i} panics: gave {x:?}"))),
            Err(e) => st.bad("result", quiet(|| format!("after {i} panics: panicked: {}", crate::user::panic_text(&*e)))),
        }
    };
    good(st, 0);
    for i in 0..n {
        let what = 1 + ((i + k as usize) % 5) as u8;
        st.armed.set(what);
        match catch_unwind(AssertUnwindSafe(|| p.parse(text).is_ok())) {
            Err(e) if e.downcast_ref::<Raised>().is_some_and(|r| r.0 == what) => drop(e),
            Err(e) => st.bad("result", quiet(|| format!("panic number {i} arrived as {}", crate::user::panic_text(&*e)))),
            Ok(x) => st.bad("result", quiet(|| format!("panic number {i} did not arrive, but {x}"))),
        }
        if (i + 1) & i == 0 {
            good(st, i + 1);
        }
    }
    good(st, n);
    quiet(|| st.log.borrow_mut().clear());
    st.requests.set(0);
    st.values.set(0);
}

/// `n` iterators abandoned half way, and contexts that never gave an error.
fn strays(out: &mut Out, n: usize, k: u32) {
    let st = out.st;
    let leaf = run(st, b'a', 1);
    let one = &parser!(x:leaf => st.conv(x));
    let p = parser!({ line(one*), line("ab") => quiet(Vec::new) } one* { "b" => 0u8, u8 });
    let text = "aa\naaa\n12";
    for i in 0..n {
        let mut c = ParseContext::new(text);
        let at = [0, 3][i % 2];
        if let Ok(mut it) = p.parse_iter(&mut c, at) {
            for _ in 0..(i + k as usize) % 3 {
                if it.backtrack(&mut c).is_err() {
                    break;
                }
            }
        }
    }
    let q = parser!(lines(one*));
    match q.parse("aa\na\n") {
        Ok(v) if v.len() == 2 && v[0].len() == 2 && v[1].len() == 1 => {}
        Ok(v) => st.bad("result", quiet(|| format!("after {n} abandoned matches: gave {v:?}"))),
        Err(e) => st.bad("result", quiet(|| format!("after {n} abandoned matches: {:?}", e.to_string()))),
    }
    quiet(|| st.log.borrow_mut().clear());
    st.requests.set(0);
    st.values.set(0);
}
