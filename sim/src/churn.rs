//! Many rule sets: built, used, dropped, kept, nested, all at once.
use crate::corpus::copied;
use crate::dynp::{hide, DynP};
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter, Parser, Reported};
use simrt::sched::quiet;

/// Sets that differ by a power of two in number differ in kind.
fn kind(i: u32) -> usize {
    ((i + i / 4 + (i >> 8) + (i >> 16)) % 4) as usize
}

/// A rule-set parser of its kind. Each offers shorter matches first, so that it has to look
/// up its rules again for the longer ones.
fn build(i: u32) -> DynP<u64> {
    match kind(i) {
        0 => hide(parser!(rule r: u64 = { "a" => 1, "a" x:r => x + 1 }; r)),
        1 => hide(parser!(rule r: u64 = { "b" => 10, "b" x:r => x + 10 }; rule _s: u64 = "c" x:r => x; r)),
        2 => hide(parser!(rule t: String = { "c" => "!".to_string(), "c" x:t => x + "!" }; x:t => x.len() as u64 * 100)),
        _ => hide(parser!(rule u: u64 = "d" x:copied(v) => x + 1000; rule v: u64 = { "" => 0, x:u => x }; copied(u))),
    }
}

/// Rule sets within rule sets, `n` deep; every set is asked again after the ones inside it.
fn chain(n: u32) -> String {
    let mut p = hide(parser!("x" => 0u64));
    let mut text = "x".to_string();
    let mut want = 0;
    for i in 0..n {
        let q = p;
        p = match i % 3 {
            0 => hide(parser!(rule r: u64 = "(" y:q t:tail ")" => y + t; rule tail: u64 = { "-" t:tail => t + 1, "" => 0 }; r)),
            1 => { let q2 = q.clone(); hide(parser!(rule r: u64 = { "(" y:q2 "+" x:r => x + y, "(" y:q t:tail ")" => y + t, "#" => 7 }; rule tail: u64 = { "" => 0, "-" t:tail => t + 1 }; r)) }
            _ => hide(parser!(rule tail: Vec<u64> = { "-" t:tail => { let mut t = t; t.push(1); t }, "" => vec![] }; "(" y:q t:tail ")" => y + t.len() as u64)),
        };
        let k = (i * 7 + n) % 4;
        text.insert(0, '(');
        for _ in 0..k {
            text.push('-');
        }
        text.push(')');
        want += k as u64;
        // every third set tries its insides twice: keep that from multiplying
        if i % 3 == 1 && i > 12 {
            let plus = quiet(|| text[..text.len() - 1 - k as usize].to_string());
            text = plus + "+#";
            want = want - k as u64 + 7;
        }
    }
    match p.parse(&text) {
        Ok(v) if v == want => "ok".to_string(),
        Ok(v) => quiet(|| format!("{n} nested rule sets: gave {v}, not {want}")),
        Err(e) => quiet(|| format!("{n} nested rule sets: {e}")),
    }
}
const TEXT: [&str; 4] = ["aaa", "bb", "cccc", "ddd"];
const WANT: [u64; 4] = [3, 20, 400, 3000];

fn check(p: &DynP<u64>, i: u32) -> Result<(), String> {
    let k = kind(i);
    match p.parse(TEXT[k]) {
        Ok(v) if v == WANT[k] => {}
        Ok(v) => return Err(quiet(|| format!("rule set {i}: {} gave {v}, not {}", TEXT[k], WANT[k]))),
        Err(e) => {
            let s = quiet(|| format!("rule set {i}: {} gave {e}", TEXT[k]));
            drop(e);
            return Err(s);
        }
    }
    let other = TEXT[(k + 1) % 4];
    match p.parse(other) {
        Ok(v) => Err(quiet(|| format!("rule set {i}: {other} gave {v}, should not match"))),
        Err(_) => Ok(()),
    }
}

pub fn churn(n: u32, keep: u32) -> String {
    let mut kept: Vec<(u32, DynP<u64>)> = Vec::new();
    for i in 0..n {
        let p = build(i);
        if n <= 2000 || i % 64 == 0 {
            if let Err(e) = check(&p, i) {
                return e;
            }
        }
        if keep != 0 && i % keep == 0 {
            kept.push((i, p));
        }
    }
    for (i, p) in kept.iter().step_by(1 + kept.len() / 500) {
        if let Err(e) = check(p, *i) {
            return e;
        }
    }
    let c = chain(1 + n % 61);
    if c != "ok" {
        return c;
    }
    // all of them in one parse
    if !kept.is_empty() {
        let mut text = String::new();
        let mut want = 0;
        for (i, _) in &kept {
            text.push_str(TEXT[kind(*i)]);
            text.push(',');
            want += WANT[kind(*i)];
        }
        let all = All(kept.into_iter().map(|x| x.1).collect());
        match parser!(a:all => a).parse(&text) {
            Ok(v) if v == want => {}
            Ok(v) => return quiet(|| format!("all rule sets in one parse gave {v}, not {want}")),
            Err(e) => return quiet(|| format!("all rule sets in one parse: {e}")),
        }
    }
    quiet(|| "ok: all as expected".to_string())
}

/// A user-written parser: every parser of the list in turn, each on its part of a list with
/// commas. All are started first; then, in rounds, each is asked for its next match until it
/// has matched the whole of its part.
struct All(Vec<DynP<u64>>);
struct AllI<'p> {
    its: Vec<<DynP<u64> as Parser>::Iter<'p>>,
    end: usize,
}
impl Parser for All {
    type Output = u64;
    type RawOutput = (u64,);
    type Iter<'p> = AllI<'p>;
    fn parse_iter<'p>(&'p self, c: &mut ParseContext<'p>, at: usize) -> Result<AllI<'p>, Reported> {
        let mut end = at;
        let mut its = Vec::with_capacity(self.0.len());
        let mut wants = Vec::with_capacity(self.0.len());
        for p in &self.0 {
            let Some(n) = c.source()[end..].find(',') else {
                return Err(c.error_expected(end, "comma after rule set"));
            };
            its.push(p.parse_iter(c, end)?);
            wants.push(end + n);
            end += n + 1;
        }
        loop {
            let mut all = true;
            for (it, want) in its.iter_mut().zip(&wants) {
                if it.match_end() != *want {
                    it.backtrack(c)?;
                    all = false;
                }
            }
            if all {
                return Ok(AllI { its, end });
            }
        }
    }
}
impl<'p> ParseIter<'p> for AllI<'p> {
    type RawOutput = (u64,);
    fn match_end(&self) -> usize {
        self.end
    }
    fn backtrack(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> {
        Err(c.error_expected(self.end, "nothing more"))
    }
    fn convert(&self) -> (u64,) {
        (self.its.iter().map(|i| i.convert().0).sum(),)
    }
}
