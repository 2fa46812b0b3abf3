//! Sessions over the parser corpus, one generator per property.
use crate::corpus::{self, Def, DEFS};
use simlib::session::*;
use simrt::rng::{mix, Rng};

/// Text number `k` of a parser: one of its samples, or a mutation of one.
/// Drawn from a pool, so that outcomes computed once serve many sessions.
pub fn text(vseed: u64, di: usize, k: u64) -> String {
    if di >= DEFS.len() {
        let t = tree_texts(vseed, di);
        return t[k as usize % t.len()].clone();
    }
    let d = &DEFS[di];
    let n = d.texts.len() as u64;
    if k >= POOL {
        return long(d.name, k - POOL).unwrap_or_else(|| d.texts[(k % n) as usize].to_string());
    }
    if k < n {
        return d.texts[k as usize].to_string();
    }
    let mut r = Rng::new(mix(vseed ^ mix(di as u64 * 1000 + k)));
    let mut t: Vec<char> = d.texts[r.below(n) as usize].chars().collect();
    let other: Vec<char> = d.texts[r.below(n) as usize].chars().collect();
    let pool: Vec<char> = d.texts.iter().flat_map(|t| t.chars()).collect();
    let m = 1 + r.below(3);
    for _ in 0..m {
        let len = t.len() as u64;
        match r.below(7) {
            0 if len > 0 => {
                t.remove(r.below(len) as usize);
            }
            1 => {
                let c = pool[r.below(pool.len() as u64) as usize];
                t.insert(r.below(len + 1) as usize, c);
            }
            2 | 3 if len > 0 => {
                // same length, different text
                let c = pool[r.below(pool.len() as u64) as usize];
                let i = r.below(len) as usize;
                t[i] = c;
            }
            4 if len > 0 => {
                let a = r.below(len) as usize;
                let b = a + 1 + r.below((len - a as u64).min(6)) as usize;
                let cut: Vec<char> = t[a..b.min(t.len())].to_vec();
                for (j, c) in cut.into_iter().enumerate() {
                    t.insert(b.min(t.len()) + j, c);
                }
            }
            5 => {
                let a = r.below(len + 1) as usize;
                t.truncate(a);
                let b = r.below(other.len() as u64 + 1) as usize;
                t.extend(&other[b..]);
            }
            _ => t.extend(&other),
        }
        if t.len() > 60 {
            t.truncate(60);
        }
    }
    t.into_iter().collect()
}
pub const POOL: u64 = 40;
/// Long texts each parser has after its pool of short ones.
pub const LONG: u64 = 24;

/// Long text number `k` for parser `name`: lengths around the powers of two, and some beyond.
fn long(name: &str, k: u64) -> Option<String> {
    const N: [usize; 12] = [9, 17, 18, 33, 40, 65, 100, 129, 200, 257, 300, 1025];
    let n = N[(k % N.len() as u64) as usize];
    let odd = (k / N.len() as u64) % 2 == 1;
    // (start, repeated, end), and a different end that does not match
    let (a, u, z, bad): (&str, &str, &str, Option<&str>) = match name {
        "ints" => ("", "1,-2,", "7", Some("")),
        "points" => ("", "(1,2)\n(-3,4)\n", "", Some("(5,6\n")),
        "bigs" => ("", "5,-77777777777777777777777,", "1", Some("x")),
        "nested_lists" => ("", "1 2 3;", "4 5", Some("")),
        "arrow" => ("", "10-20,30-40\n", "", Some("1-2\n")),
        "grid" => (".", if odd { "#" } else { ".#\n#." }, "#\n", None),
        "words" => ("", if odd { "ab " } else { "xyz" }, "c", None),
        "choice" => ("", if odd { "a1" } else { "qqqq" }, "", None),
        "pairs" => ("", if odd { "a1" } else { "ab1" }, "", Some("!")),
        "backoff" | "greedy" if n <= 65 => ("", "a", "ab", None),
        "ambiguous" => ("", if odd { "ab" } else { "a" }, "", None),
        "unicode" => ("", "\u{e9}\u{4e2d}", "|\u{1f600}", Some("")),
        "nested_rep" => ("", ["1", "1,", "12;"][n % 3], "", None),
        "stars" => ("", "1", "", None),
        "under_string" => ("a", "1bc", "", None),
        "sep_conv" => ("", "a;", "b", Some("b1")),
        "secs" => ("", if odd { "1\n2\n\n" } else { "1\n" }, "3\n", Some("x\n")),
        "two_secs" => ("", "abc\n", "\n1,2\n", Some("1,2\n")),
        "line_alt" => ("", "ab\n12\n", "", None),
        "line_mid" => ("x\n", "a", "\n!", Some("!")),
        "sec_in_sec" => ("", if odd { "a 1\n" } else { "a 1\nb 2\n\n" }, "c 3\n", Some("c3\n")),
        "hset" | "ordset" => ("", "1 20 3 4000 ", "5", Some("x")),
        "hmap" => ("", "a=1\nbc=2\n", "d=3\n", Some("e\n")),
        "ordmap" => ("", "b1a2", "", Some("c")),
        "deque" => ("", "abc", "", Some("1")),
        "uset" | "ubset" => ("", "1 2 ", "3", Some("x")),
        "umap" => ("", "a=1\nbc=2\n", "d=3\n", Some("e\n")),
        "ubmap" => ("", "b1a2", "", Some("c")),
        "probes" => ("", "abc,", "ab", None),
        "probe_lines" => ("", "abc d\n", "x y\n", None),
        "via_number" => ("", "1;22;", "333", Some("x")),
        "via_section" => ("", if odd { "ab\n" } else { "ab\ncd\n\n" }, "ef\n", Some("1\n")),
        "via_back" => ("", "a", "b", Some("bb")),
        "list_rules" if odd => ("[", "1,[2,3],", "4]", Some("")),
        "list_rules" if n <= 129 => return Some(format!("{}7{}", "[".repeat(n), "]".repeat(n))),
        "two_sets" if n <= 129 => return Some(format!("{}{}|[]", "(".repeat(n), ")".repeat(n))),
        "set_in_set" => ("{", "1;(2);", "3}", Some("")),
        "rules_in_lines" => ("", "(())\n", "()\n", Some("(\n")),
        "lines_in_rules" if n <= 300 => ("", "a\n", "b\n", None),
        "palin" if n <= 65 => ("", "a", "", None),
        "arith" if n <= 129 => ("", if odd { "1*" } else { "1*2+" }, "3", None),
        "sets_in_rep" => ("", "()[]", "", None),
        "even_odd" if n <= 300 => ("", "a", "", None),
        "n_big_uint" | "n_big_int" => ("", "7", "", Some("x")),
        "n_big_uint_hex" | "n_big_int_hex" => ("", "7f", "", Some("x")),
        "n_big_uint_bin" | "n_big_int_bin" => ("", "10", "", Some("2")),
        "n_f64" | "n_f32" => ("0.", "3", "", Some("e")),
        "n_u8" | "n_u32" | "n_u64" => ("", "0", "7", Some("x")),
        "n_i64" | "n_i32" => ("-", "0", "7", Some("-")),
        _ => return None,
    };
    let z = if k % 5 == 4 { bad.unwrap_or(z) } else { z };
    Some(format!("{a}{}{z}", u.repeat(n)))
}

/// So many seeded patterns take part in one check.
const TREES: u64 = 1500;
fn tree_number(vseed: u64, n: u64) -> usize {
    corpus::tree_index(mix(vseed ^ mix(0x7EE5 + n)))
}
fn tree_texts(_vseed: u64, di: usize) -> Vec<String> {
    thread_local! {
        static CACHE: std::cell::RefCell<std::collections::BTreeMap<usize, Vec<String>>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
    }
    CACHE.with(|c| c.borrow_mut().entry(di).or_insert_with(|| corpus::tree_case(corpus::tree_seed(di)).texts).clone())
}
fn name(di: usize) -> String {
    if di < DEFS.len() {
        DEFS[di].name.to_string()
    } else {
        format!("tree-{:x}", corpus::tree_seed(di))
    }
}
fn samples(vseed: u64, di: usize) -> u64 {
    if di < DEFS.len() {
        DEFS[di].texts.len() as u64
    } else {
        tree_texts(vseed, di).len() as u64
    }
}
/// What is true of every seeded pattern.
const TREE: Def = Def { name: "tree", build: || unreachable!(), share: None, texts: &[], tags: "pam" };

struct G {
    r: Rng,
    vseed: u64,
    /// Texts in use, where the session is about few texts.
    few: Option<Vec<(usize, String)>>,
}
impl G {
    fn p(&mut self, pct: u64) -> bool {
        self.r.below(100) < pct
    }
    fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.r.below(b - a + 1)
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.r.below(v.len() as u64) as usize]
    }
    /// Some of the parsers that satisfy `f`.
    fn defs(&mut self, n: u64, f: impl Fn(&Def) -> bool) -> Vec<usize> {
        let all: Vec<usize> = (0..DEFS.len()).filter(|&i| f(&DEFS[i])).collect();
        let trees = f(&TREE);
        (0..n)
            .map(|_| {
                if trees && self.p(25) {
                    let n = self.r.below(TREES);
                    tree_number(self.vseed, n)
                } else {
                    *self.pick(&all)
                }
            })
            .collect()
    }
    fn text(&mut self, di: usize) -> String {
        if let Some(few) = &self.few {
            // (what another parser likes may take this one exponential time)
            let simple = di < DEFS.len() && !DEFS[di].tags.contains('a');
            let fit: Vec<String> = few.iter().filter(|x| x.0 == di || simple && x.1.len() <= 40 && !x.1.contains("(((((")).map(|x| x.1.clone()).collect();
            if !fit.is_empty() && self.p(70) {
                return self.pick(&fit).clone();
            }
            let t = self.new_text(di);
            self.few.as_mut().unwrap().push((di, t.clone()));
            return t;
        }
        self.new_text(di)
    }
    fn new_text(&mut self, di: usize) -> String {
        let k = match self.r.below(100) {
            0..=46 => self.r.below(samples(self.vseed, di)),
            47..=93 => self.r.below(POOL),
            _ => POOL + self.r.below(LONG),
        };
        text(self.vseed, di, k)
    }
    fn buf(&mut self) -> Buf {
        match self.r.below(16) {
            0 => Buf::Helper,
            1..=4 => Buf::Reused,
            5..=8 => Buf::Sub(self.r.below(40) as u32),
            _ => Buf::Own,
        }
    }
    fn inst(&mut self) -> Inst {
        match self.r.below(6) {
            0 => Inst::Temp,
            1 => Inst::Kept,
            _ => Inst::Shared,
        }
    }
    fn parse(&mut self, di: usize) -> Op {
        Op::Parse { p: name(di), t: self.text(di), inst: self.inst(), buf: self.buf(), times: 1 }
    }
    /// The same, this many times over.
    fn again(&mut self, op: Op, times: u64) -> Op {
        match op {
            Op::Parse { p, t, inst, buf, .. } => {
                let mut most = 2 + 20_000 / (t.len() as u64 + 1);
                if p.starts_with("tree-") {
                    most = most.min(50);
                }
                Op::Parse { p, t, inst, buf, times: times.min(most) as u32 }
            }
            o => o,
        }
    }
    fn ordinal(&mut self) -> u32 {
        let k = *self.pick(&[1, 3, 3, 8, 8, 20, 60, 250]);
        self.r.below(k) as u32
    }
    fn place(&mut self) -> PlaceS {
        match self.r.below(7) {
            0 | 1 => PlaceS::Lifo,
            2 => PlaceS::Fresh,
            6 => PlaceS::Wide(*self.pick(&[20u32, 32, 32, 36])),
            3 => PlaceS::LowBits(*self.pick(&[8u32, 12, 16])),
            _ => PlaceS::Gaps(self.r.next()),
        }
    }
    fn env(&mut self) -> Env {
        Env { place: self.place(), hash_seed: self.r.next() >> 16 }
    }
    fn plan(&mut self) -> PlanS {
        let seed = self.r.next() >> 12;
        if self.p(25) {
            let depth = self.range(1, 5) as u32;
            PlanS::Pct { seed, depth, est: *self.pick(&[300, 3000, 30000, 200000]), hold: *self.pick(&[0, 0, 0, 500]) }
        } else {
            let gap = *self.pick(&[2, 5, 15, 50, 200, 1000, 5000, 30000]);
            let p_event = *self.pick(&[0, 50, 300, 1000]);
            // about as many holds whatever the gap
            let hold = if self.p(20) { (gap / 4).clamp(1, 400) } else { 0 };
            PlanS::Random { seed, gap, p_event, hold }
        }
    }
    fn reenter(&mut self, near: usize) -> FaultKind {
        let same = self.p(50);
        let d = if same || self.p(40) { near } else { self.r.below(DEFS.len() as u64) as usize };
        FaultKind::Reenter { p: name(d), t: self.text(d), same, catch: self.p(50) }
    }
    /// A program over several match iterators.
    fn cursors(&mut self, ds: &[usize], max_open: u64) -> Op {
        let n = self.range(1, max_open);
        let mut open: Vec<(String, String, bool)> = Vec::new();
        let share = n > 1 && self.p(25);
        for i in 0..n {
            let d = *self.pick(ds);
            let mut t = self.text(d);
            let s = share && i > 0 && d < DEFS.len() && self.p(70);
            // (some parsers take exponential time on what others like)
            let s = s && open[0].1.len() <= 60 && !open[0].1.contains("(((((");
            if s {
                t = open[0].1.clone();
            }
            open.push((name(d), t, s));
        }
        let mut acts = Vec::new();
        for i in 0..n {
            if self.p(80) {
                acts.push((i as u8, Act::Start));
            }
        }
        for _ in 0..self.range(3, 40) {
            let w = self.r.below(n) as u8;
            let a = match self.r.below(20) {
                0 | 1 => Act::Start,
                2 => Act::Drop,
                3..=7 => Act::Value,
                _ => Act::Next,
            };
            acts.push((w, a));
        }
        Op::Cursors { open, acts }
    }
}

fn op_def(op: &Op) -> usize {
    match op {
        Op::Parse { p, .. } => crate::corpus::index(p),
        Op::Cursors { open, .. } => crate::corpus::index(&open[0].0),
        _ => 0,
    }
}

pub fn gen(prop: &str, vseed: u64, seed: u64) -> Session {
    let mut g = G { r: Rng::new(seed), vseed, few: None };
    let mut s = Session {
        prop: prop.to_string(),
        seed,
        env: g.env(),
        threads: false,
        wave: 0,
        one_text: false,
        last_words: false,
        tasks: vec![],
        faults: vec![],
        cases: vec![],
        plan: PlanS::Serial,
        cap: 60_000_000,
    };
    let calls = |d: &Def| d.tags.contains('m') || d.tags.contains('p');
    let not_n = |d: &Def| !d.tags.contains('N');
    if matches!(prop, "C01" | "C03" | "C04" | "C09" | "C15" | "C16" | "C17") && g.p(20) {
        s.one_text = true;
        g.few = Some(Vec::new());
    }
    s.last_words = matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C14" | "C15" | "C16" | "C17") && g.p(8);
    match prop {
        "C01" => {
            s.threads = true;
            s.plan = g.plan();
            let n = match g.r.below(100) {
                0..=83 => g.range(2, 4),
                84..=96 => g.range(5, 12),
                97..=98 => g.range(13, 40),
                _ => *g.pick(&[40, 66, 70, 100, 129]) + g.range(0, 8),
            };
            if n > 2 && g.p(10) {
                s.wave = g.range(2, n - 1) as u32;
            }
            let k = g.range(1, 3);
            let focus = g.r.below(6);
            let ds = g.defs(k, |d| match focus {
                0 => d.tags.contains('r'),
                1 => d.tags.contains('n') || d.tags.contains('N'),
                2 => d.tags.contains('l'),
                _ => not_n(d),
            });
            for ti in 0..n {
                let mut ops = Vec::new();
                for oi in 0..g.range(1, 4) {
                    let d = *g.pick(&ds);
                    if g.p(if focus == 0 { 15 } else { 2 }) {
                        // rule sets built on several threads at once
                        ops.push(Op::Churn { n: g.range(2, 24) as u32, keep: 1 });
                        continue;
                    }
                    if g.p(2) {
                        ops.push(crate::scale::op(&mut g.r, 60));
                        continue;
                    }
                    let op = g.parse(d);
                    let times = if g.p(4) { g.range(2, 30) } else { 1 };
                    ops.push(g.again(op, times));
                    if g.p(12) {
                        let at = g.ordinal();
                        let kind = match g.r.below(3) {
                            0 => FaultKind::Reject,
                            1 => FaultKind::Stall(g.range(50, 20000)),
                            _ => g.reenter(d),
                        };
                        s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                    }
                }
                s.tasks.push(ops);
            }
        }
        "C02" => {
            s.threads = true;
            s.plan = g.plan();
            let n = match g.r.below(200) {
                0 => g.range(20, 130),
                1..=40 => g.range(5, 10),
                _ => g.range(2, 4),
            };
            let k = g.range(1, 3);
            let ds = g.defs(k, |d| d.tags.contains('N') || d.tags.contains('n'));
            for _ in 0..n {
                let mut ops = Vec::new();
                for _ in 0..g.range(1, 2) {
                    let d = *g.pick(&ds);
                    ops.push(g.parse(d));
                }
                s.tasks.push(ops);
            }
        }
        "C03" => {
            let threads = g.p(25);
            s.threads = threads;
            if threads {
                s.plan = g.plan();
            }
            let n = if threads { g.range(2, 3) } else { 1 };
            for ti in 0..n {
                let mut ops = Vec::new();
                for oi in 0..g.range(1, 3) {
                    let d = g.defs(1, calls)[0];
                    if g.p(4) {
                        // a parse in a parse in a parse ...
                        let op = g.parse(d);
                        ops.push(op);
                        let deep = *g.pick(&[12u64, 20, 40, 70, 140]);
                        let mut last = d;
                        for at in 0..g.range(10, deep) as u32 {
                            let kind = g.reenter(last);
                            if let FaultKind::Reenter { p, .. } = &kind {
                                last = crate::corpus::index(p);
                                if last < DEFS.len() && !calls(&DEFS[last]) {
                                    last = d;
                                }
                            }
                            s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                        }
                        continue;
                    }
                    let op = if g.p(12) { g.cursors(&[d], 2) } else { g.parse(d) };
                    let times = if g.p(3) { g.range(2, 40) } else { 1 };
                    ops.push(g.again(op, times));
                    let many = if g.p(30) { g.range(3, 9) } else { g.range(1, 2) };
                    let mut at = g.ordinal();
                    for _ in 0..many {
                        let kind = g.reenter(d);
                        s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                        at += 1 + g.r.below(4) as u32;
                    }
                }
                s.tasks.push(ops);
            }
        }
        "C04" => {
            let threads = g.p(40);
            s.threads = threads;
            if threads {
                s.plan = g.plan();
            }
            let n = if threads { g.range(2, 4) } else { 1 };
            if threads && g.p(10) {
                s.wave = g.range(1, n - 1) as u32;
            }
            let k = g.range(1, 2);
            let ds = g.defs(k, calls);
            for ti in 0..n {
                let mut ops = Vec::new();
                let m = g.range(2, 6);
                for oi in 0..m {
                    let d = *g.pick(&ds);
                    ops.push(match g.r.below(12) {
                        0 => g.cursors(&[d], 2),
                        1 => Op::Churn { n: g.range(1, 8) as u32, keep: 1 },
                        _ => g.parse(d),
                    });
                    if oi + 1 < m && g.p(60) {
                        let burst = g.p(12);
                        let at = if burst { g.r.below(3) as u32 } else { g.ordinal() };
                        if burst {
                            let op = ops.pop().unwrap();
                            let most = *g.pick(&[10u64, 40, 300]);
                            let times = g.range(2, most);
                            ops.push(g.again(op, times));
                        }
                        if g.p(25) {
                            let kind = g.reenter(d);
                            s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                            let at = at + 1 + g.r.below(4) as u32;
                            s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind: FaultKind::Panic(g.r.below(1000) as u32) });
                        } else {
                            s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind: FaultKind::Panic(g.r.below(1000) as u32) });
                            if g.p(20) {
                                // and would panic again if anything went on after that
                                let mut at = at;
                                for _ in 0..g.range(1, 3) {
                                    at += 1 + g.r.below(3) as u32;
                                    s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind: FaultKind::Panic(1000 + g.r.below(1000) as u32) });
                                }
                            }
                        }
                    }
                }
                s.tasks.push(ops);
            }
        }
        "C05" => {
            let mut ops = Vec::new();
            for oi in 0..g.range(1, 2) {
                let d = g.defs(1, not_n)[0];
                ops.push(match g.r.below(40) {
                    0..=4 => g.cursors(&[d], 3),
                    5..=9 => Op::Churn { n: g.range(1, 12) as u32, keep: g.range(0, 2) as u32 },
                    10 => crate::scale::op(&mut g.r, 300),
                    _ => {
                        let op = g.parse(d);
                        // slow leaks show only in the long run
                        if g.p(4) { g.again(op, 256) } else { op }
                    }
                });
                if g.p(60) {
                    let at = g.ordinal();
                    let kind = match g.r.below(6) {
                        0 => g.reenter(d),
                        1 => FaultKind::Reject,
                        _ => FaultKind::Panic(g.r.below(1000) as u32),
                    };
                    s.faults.push(Fault { task: 0, op: oi as u32, at, kind });
                }
            }
            s.tasks.push(ops);
            if g.p(3) {
                // thread after thread, doing the same
                s.threads = true;
                s.wave = 1;
                let fs = s.faults.clone();
                for ti in 1..g.range(30, 60) as u32 {
                    s.tasks.push(s.tasks[0].clone());
                    s.faults.extend(fs.iter().map(|f| Fault { task: ti, ..f.clone() }));
                }
            }
        }
        "C09" => {
            let threads = g.p(20);
            s.threads = threads;
            if threads {
                s.plan = g.plan();
            }
            let n = if threads { 2 } else { 1 };
            let k = g.range(1, 3);
            let focus = g.r.below(4);
            let ds = g.defs(k, |d| match focus {
                0 => d.tags.contains('r'),
                1 => d.tags.contains('a'),
                _ => not_n(d),
            });
            for ti in 0..n {
                let mut op = g.cursors(&ds, 5);
                if let (Op::Cursors { open, acts }, 0) = (&mut op, g.r.below(200)) {
                    // (patterns that are quick to exhaust)
                    open.retain(|o| !o.0.starts_with("tree-") && !o.2);
                    if open.is_empty() {
                        let d = g.defs(1, |d| !d.tags.contains('a'))[0];
                        let t = g.text(d);
                        open.push((name(d), t, false));
                    }
                    acts.clear();
                    // on and on
                    let n = open.len() as u64;
                    let starts = g.range(2, 30);
                    for _ in 0..g.range(3000, 12_000) {
                        let w = g.r.below(n) as u8;
                        acts.push((w, if g.p(starts) { Act::Start } else if g.p(2) { Act::Value } else { Act::Next }));
                    }
                }
                s.tasks.push(vec![op]);
                if g.p(20) {
                    let at = g.ordinal();
                    let kind = if g.p(50) { FaultKind::Panic(g.r.below(1000) as u32) } else { g.reenter(ds[0]) };
                    s.faults.push(Fault { task: ti as u32, op: 0, at, kind });
                }
            }
        }
        "C11" => {
            let threads = g.p(20);
            s.threads = threads;
            let crowd = if threads && g.p(60) { g.range(2, 4) } else { 1 };
            if crowd > 1 {
                s.plan = g.plan();
            }
            for _ in 1..crowd {
                let mut ops = Vec::new();
                for _ in 0..g.range(1, 3) {
                    ops.push(if g.p(70) {
                        Op::Churn { n: g.range(2, 24) as u32, keep: 1 }
                    } else {
                        let d = g.defs(1, |d| d.tags.contains('r'))[0];
                        g.parse(d)
                    });
                }
                s.tasks.push(ops);
            }
            let mut ops = Vec::new();
            for _ in 0..g.range(2, 6) {
                let d = if g.p(60) { g.defs(1, |d| d.tags.contains('r'))[0] } else { g.defs(1, |d| d.tags.contains('c') || not_n(d))[0] };
                ops.push(match g.r.below(10) {
                    0 | 1 => {
                        let low = matches!(s.env.place, PlaceS::LowBits(_) | PlaceS::Wide(_));
                        let big = g.p(if low { 20 } else { 30 });
                        let giant = !low && !threads && g.r.below(300) == 0;
                        let n = if giant {
                            65_536 + g.range(100, 600)
                        } else if big {
                            g.range(200, if low { 800 } else { 2500 })
                        } else {
                            g.range(1, 60)
                        };
                        Op::Churn { n: n as u32, keep: if giant { 4 } else { *g.pick(&[1, 1, 2, 7]) } }
                    }
                    2 if g.p(40) => crate::scale::op(&mut g.r, 300),
                    2 => {
                        let e = g.defs(1, |d| d.tags.contains('r'))[0];
                        g.cursors(&[d, e], 4)
                    }
                    _ => g.parse(d),
                });
            }
            if g.p(25) {
                // one place, one text after the other
                let k = g.range(1, 2);
                let ds = g.defs(k, |_| true);
                for _ in 0..g.range(4, 24) {
                    let d = *g.pick(&ds);
                    let op = g.parse(d);
                    ops.push(match op {
                        Op::Parse { p, t, inst, .. } => Op::Parse { p, t, inst, buf: if g.p(80) { Buf::Reused } else { Buf::Own }, times: 1 },
                        o => o,
                    });
                }
            }
            s.tasks.push(ops);
            let most = s.tasks.iter().flatten().map(|o| if let Op::Churn { n, .. } = o { *n as u64 } else { 0 }).max();
            s.cap += 20_000 * most.unwrap_or(0);
        }
        "C12" => {
            let d = g.r.below(DEFS.len() as u64) as usize;
            let op = g.parse(d);
            s.tasks.push(vec![op]);
        }
        "C14" => {
            s.threads = true;
            s.plan = g.plan();
            let crowd = g.p(6);
            let n = if crowd && g.p(15) { *g.pick(&[40, 66, 70, 100, 129]) + g.range(0, 8) } else if crowd { g.range(6, 40) } else { g.range(2, 5) };
            let k = g.range(1, 2);
            let ds = g.defs(k, calls);
            for ti in 0..n {
                let mut ops = Vec::new();
                for oi in 0..if crowd { 1 } else { g.range(1, 3) } {
                    let d = if g.p(85) { *g.pick(&ds) } else { g.r.below(DEFS.len() as u64) as usize };
                    ops.push(if g.p(8) { g.cursors(&[d], 2) } else { g.parse(d) });
                    if (ti == 0 && oi == 0) || g.p(if crowd { 85 } else { 15 }) {
                        let at = if crowd { g.r.below(3) as u32 } else { g.ordinal() };
                        let kind = if g.p(if crowd { 97 } else { 80 }) { FaultKind::StallForAll } else { FaultKind::Stall(g.range(1000, 1_000_000)) };
                        s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                        if g.p(15) {
                            let kind = g.reenter(d);
                            s.faults.push(Fault { task: ti as u32, op: oi as u32, at: at.saturating_sub(1), kind });
                        }
                    }
                }
                s.tasks.push(ops);
            }
        }
        "C15" => {
            let relay = g.p(40);
            s.threads = relay;
            let waves = relay && g.p(20);
            if waves {
                // threads end, and others start
                s.wave = *g.pick(&[1, 1, 2, 4, 8]);
                s.plan = g.plan();
            }
            let n = if waves { *g.pick(&[8, 20, 50, 100]) + g.range(0, 40) } else if relay { g.range(2, 6) } else { 1 };
            let k = g.range(1, 3);
            let ds = g.defs(k, |_| true);
            for ti in 0..n {
                let mut ops = Vec::new();
                let m = if waves { g.range(1, 2) } else if relay { g.range(1, 6) } else { g.range(4, 30) };
                for oi in 0..m {
                    let d = *g.pick(&ds);
                    let op = match g.r.below(20) {
                        0 => g.cursors(&[d], 2),
                        1 if g.p(25) => crate::scale::op(&mut g.r, 300),
                        1 => Op::Churn { n: g.range(1, 20) as u32, keep: g.range(0, 2) as u32 },
                        2 => {
                            let d = g.r.below(DEFS.len() as u64) as usize;
                            g.parse(d)
                        }
                        3..=7 => {
                            // again, exactly or nearly
                            match ops.last() {
                                Some(Op::Parse { p, t, .. }) => Op::Parse { p: p.clone(), t: t.clone(), inst: g.inst(), buf: g.buf(), times: 1 },
                                _ => g.parse(d),
                            }
                        }
                        _ => match g.parse(d) {
                            Op::Parse { p, t, inst, buf, times } => Op::Parse { p, t, inst, buf: if g.p(60) { Buf::Reused } else { buf }, times },
                            o => o,
                        },
                    };
                    let op = if g.p(1) {
                        let most = *g.pick(&[20u64, 150, 300, 1100]);
                        let times = g.range(2, most);
                        g.again(op, times)
                    } else {
                        op
                    };
                    if g.p(6) {
                        let at = g.ordinal();
                        let kind = if g.p(70) { FaultKind::Panic(g.r.below(1000) as u32) } else { g.reenter(op_def(&op)) };
                        s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                    }
                    ops.push(op);
                }
                s.tasks.push(ops);
            }
            if g.r.below(400) == 0 {
                // more often than 16 bits can count
                let d = match *g.pick(&ds) {
                    d if d < DEFS.len() => d,
                    _ => g.r.below(DEFS.len() as u64) as usize,
                };
                let t = text(vseed, d, g.r.below(samples(vseed, d)));
                let op = Op::Parse { p: name(d), t, inst: if g.p(50) { Inst::Temp } else { Inst::Shared }, buf: Buf::Own, times: 65_536 + g.range(10, 700) as u32 };
                s.tasks[0].insert(0, op);
                for f in s.faults.iter_mut().filter(|f| f.task == 0) {
                    f.op += 1;
                }
                s.cap += 65_536 * 20_000;
            }
        }
        "C16" => {
            let n = match g.r.below(10) {
                0..=3 => 1,
                4..=7 => g.range(2, 4),
                _ => g.range(5, 40),
            };
            s.threads = n > 1;
            if s.threads {
                s.plan = g.plan();
                if g.p(40) {
                    s.wave = g.range(1, n - 1) as u32;
                }
            }
            let k = if g.p(20) { g.range(8, 20) } else { g.range(1, 4) };
            let ds = g.defs(k, |_| true);
            let bad = if s.one_text { 0 } else { g.r.below(100) };
            for ti in 0..n {
                let mut ops = Vec::new();
                let m = if n > 4 { g.range(1, 2) } else { g.range(2, if n == 1 { 30 } else { 8 }) };
                for oi in 0..m {
                    let d = *g.pick(&ds);
                    let op = match g.r.below(20) {
                        0 => g.cursors(&[d], 2),
                        1 if g.p(20) => Op::Churn { n: g.range(1, 10) as u32, keep: g.range(0, 2) as u32 },
                        _ => {
                            let mut t = g.text(d);
                            if g.p(bad) && d < DEFS.len() {
                                // more errors than values
                                t = text(vseed, d, g.range(samples(vseed, d).min(POOL - 1), POOL - 1));
                            }
                            let inst = if g.p(35) { Inst::Temp } else { g.inst() };
                            let buf = if g.p(40) { Buf::Reused } else { g.buf() };
                            Op::Parse { p: name(d), t, inst, buf, times: 1 }
                        }
                    };
                    let op = if g.p(4) {
                        let most = *g.pick(&[20u64, 70, 70, 300]);
                        let times = g.range(2, most);
                        g.again(op, times)
                    } else {
                        op
                    };
                    if g.p(8) {
                        let at = g.ordinal();
                        let kind = match g.r.below(4) {
                            0 => FaultKind::Panic(g.r.below(1000) as u32),
                            1 => FaultKind::Reject,
                            _ => g.reenter(op_def(&op)),
                        };
                        s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                    }
                    ops.push(op);
                }
                s.tasks.push(ops);
            }
        }
        "C17" => {
            let n = match g.r.below(10) {
                0..=3 => 1,
                4..=8 => g.range(2, 4),
                _ => g.range(5, 20),
            };
            s.threads = n > 1;
            if s.threads {
                s.plan = g.plan();
                if g.p(25) {
                    s.wave = g.range(1, n - 1) as u32;
                }
            }
            if n == 1 && g.p(6) {
                // so many that a short number cannot tell them apart
                let low = matches!(s.env.place, PlaceS::LowBits(_) | PlaceS::Wide(_));
                let most = match g.r.below(20) {
                    0 if !low => 65_536 + g.range(100, 600),
                    _ => g.range(100, if low { 800 } else { 2500 }),
                };
                let keep = if most > 60_000 { 4 } else { *g.pick(&[1, 1, 2, 5]) };
                s.tasks.push(vec![Op::Churn { n: most as u32, keep }]);
                s.cap += 20_000 * most as u64;
                return s;
            }
            let k = g.range(1, 4);
            let sets = g.p(40);
            let ds = g.defs(k, |d| !sets || d.tags.contains('r') || d.name == "tree");
            for ti in 0..n {
                let mut ops = Vec::new();
                let m = if n > 4 { g.range(1, 3) } else { g.range(2, if n == 1 { 24 } else { 8 }) };
                for oi in 0..m {
                    let d = *g.pick(&ds);
                    let op = match g.r.below(20) {
                        0..=2 => g.cursors(&[d], 3),
                        3 => Op::Churn { n: g.range(1, 12) as u32, keep: g.range(0, 2) as u32 },
                        _ => {
                            let (t, buf) = (g.text(d), g.buf());
                            let inst = *g.pick(&[Inst::Temp, Inst::Renewed, Inst::Renewed, Inst::Copy, Inst::Copy, Inst::Orphan, Inst::Orphan, Inst::Kept, Inst::Shared]);
                            Op::Parse { p: name(d), t, inst, buf, times: 1 }
                        }
                    };
                    let op = if g.p(4) {
                        let times = g.range(2, 40);
                        g.again(op, times)
                    } else {
                        op
                    };
                    if g.p(10) {
                        let at = g.ordinal();
                        let kind = match g.r.below(4) {
                            0 => FaultKind::Panic(g.r.below(1000) as u32),
                            1 => FaultKind::Reject,
                            _ => g.reenter(op_def(&op)),
                        };
                        s.faults.push(Fault { task: ti as u32, op: oi as u32, at, kind });
                    }
                    ops.push(op);
                }
                s.tasks.push(ops);
            }
        }
        _ => panic!("no corpus sessions for {prop}"),
    }
    // One more newline may make a match impossible, which can take exponential time to find out.
    for op in s.tasks.iter_mut().flatten() {
        if let Op::Parse { p, t, buf: buf @ Buf::Helper, .. } = op {
            let by_line = DEFS.iter().any(|d| d.name == p && d.tags.contains('l') && !d.tags.contains('a'));
            if !by_line && !t.ends_with('\n') {
                *buf = Buf::Own;
            }
        }
    }
    // Patience in proportion to the amount of text.
    let mut bytes = 0;
    for op in s.tasks.iter().flatten() {
        bytes += match op {
            Op::Parse { t, times, .. } => t.len() as u64 * *times as u64,
            Op::Cursors { open, acts } => open.iter().map(|o| o.1.len() as u64).sum::<u64>() * (1 + acts.len() as u64 / 8),
            _ => 0,
        };
    }
    for f in &s.faults {
        if let FaultKind::Reenter { t, .. } = &f.kind {
            let reps = match &s.tasks[f.task as usize][f.op as usize] {
                Op::Parse { times, .. } => *times as u64,
                _ => 1,
            };
            bytes += t.len() as u64 * reps;
        }
    }
    s.cap += 5000 * bytes;
    // Refusals change the outcome, so they must mean the same with and without company:
    // not together with anything that adds call-outs to the same operation.
    let fs = s.faults.clone();
    let tasks = &s.tasks;
    s.faults.retain(|f| f.kind != FaultKind::Reject || matches!(tasks[f.task as usize][f.op as usize], Op::Parse { .. }));
    s.faults.retain(|f| !(f.kind == FaultKind::Reject && fs.iter().any(|h| h.task == f.task && h.op == f.op && matches!(h.kind, FaultKind::Reenter { .. }))));
    // one fault per call-out
    let mut seen = std::collections::BTreeSet::new();
    s.faults.retain(|f| seen.insert((f.task, f.op, f.at)));
    s
}
