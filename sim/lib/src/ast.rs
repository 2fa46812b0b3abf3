//! The pattern language of the tree engine, its values, and the scripts that
//! simulated sub-parsers follow.
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use std::rc::Rc;

/// A pattern. The library side is built from it through `parser!`
/// (`aocsim::tree`), the reference model walks it (`model`).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    /// Simulated sub-parser following script number n.
    Leaf(u16),
    /// Quoted text.
    Lit(String),
    /// Built-in parser: 0 any_char, 1 alpha, 2 digit, 3 lower, 4 alnum, 5 u8, 6 i8, 7 bool,
    /// 8 char_of(SEL), 9 u8_hex, 10 upper.
    Char(u8),
    Seq(Vec<Node>),
    Alt(Vec<Node>),
    Opt(Box<Node>),
    Star(Box<Node>),
    Plus(Box<Node>),
    RepSep(Box<Node>, Box<Node>),
    /// A recorded conversion.
    Map(u16, Box<Node>),
    Str(Box<Node>),
    Line(Box<Node>),
    Section(Box<Node>),
    /// `lines(p)` and `sections(p)`
    Lines(Box<Node>),
    Sections(Box<Node>),
    /// A rule set; the rules have numbers `base..` inside.
    Rules { base: u16, rules: Vec<Node>, body: Box<Node> },
    Ref(u16),
    /// Several levels of pattern written out in one `parser!`: (which, parts, first conversion number)
    Tmpl(u8, Vec<Node>, u16),
}

pub const BUILTINS: u64 = 11;
/// What `char_of` selects from.
pub const SEL: &str = "a\u{e9}1,";

pub type Grammar = Node;

/// Number of parts of each template.
pub const TEMPLATES: [usize; 14] = [2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 3, 2];
/// Templates that contain line or section.
pub fn has_region(t: u8) -> bool {
    matches!(t, 5 | 6 | 11)
}

fn b(n: Node) -> Box<Node> {
    Box::new(n)
}
fn lit(s: &str) -> Node {
    Node::Lit(s.into())
}

/// What a template means, written with the other nodes.
pub fn expand(t: u8, p: &[Node], m: u16) -> Node {
    let c = |i: usize| p[i].clone();
    use Node::*;
    match t {
        // a:p* b:q
        0 => Seq(vec![Star(b(c(0))), c(1)]),
        // (x:p y:q => m)*
        1 => Star(b(Map(m, b(Seq(vec![c(0), c(1)]))))),
        // { a:p "!" => .., b:q? => .. }
        2 => Alt(vec![Seq(vec![c(0), lit("!")]), Opt(b(c(1)))]),
        // repeat_sep({ x:p => m, y:q => m+1 }, ",")
        3 => RepSep(b(Alt(vec![Map(m, b(c(0))), Map(m + 1, b(c(1)))])), b(lit(","))),
        // string(x:p* y:q => m)
        4 => Str(b(Map(m, b(Seq(vec![Star(b(c(0))), c(1)]))))),
        // line(x:p+ y:q? => m)*
        5 => Star(b(Line(b(Map(m, b(Seq(vec![Plus(b(c(0))), Opt(b(c(1)))]))))))),
        // section(lines(x:p => m))
        6 => Section(b(Lines(b(Map(m, b(c(0))))))),
        // p? q? p
        7 => Seq(vec![Opt(b(c(0))), Opt(b(c(1))), c(0)]),
        // (p q)+ : Vec of pairs
        8 => Plus(b(Seq(vec![c(0), c(1)]))),
        // vec_deque(p*) q
        9 => Seq(vec![Star(b(c(0))), c(1)]),
        // (x:p => m) (y:(z:q => m+1) => m+2)
        10 => Seq(vec![Map(m, b(c(0))), Map(m + 2, b(Map(m + 1, b(c(1)))))]),
        // section(x:line(p) y:lines(q) => m) : whole sections, repeated
        11 => Sections(b(Map(m, b(Seq(vec![Line(b(c(0))), Lines(b(c(1)))]))))),
        // rule r = { "(" x:r ")" => m, y:p => .., z:q => m+1 }; r w
        12 => Seq(vec![
            Rules {
                base: RULE12,
                rules: vec![Alt(vec![
                    Map(m, b(Seq(vec![lit("("), Ref(RULE12), lit(")")]))),
                    c(0),
                    Map(m + 1, b(c(1))),
                ])],
                body: b(Ref(RULE12)),
            },
            c(2),
        ]),
        // rule s = x:p rest:t => m; rule t = { "," y:s => m+1, "" => m+2 }; s q
        _ => Seq(vec![
            Rules {
                base: RULE12 + 1,
                rules: vec![
                    Map(m, b(Seq(vec![c(0), Ref(RULE12 + 2)]))),
                    Alt(vec![Map(m + 1, b(Seq(vec![lit(","), Ref(RULE12 + 1)]))), Map(m + 2, b(lit("")))]),
                ],
                body: b(Ref(RULE12 + 1)),
            },
            c(1),
        ]),
    }
}
/// Rule numbers used by templates only.
pub const RULE12: u16 = 50_000;

/// Identity of a match iterator: never part of a comparison.
#[derive(Clone, Copy, Debug)]
pub struct Inst(pub u32);
impl PartialEq for Inst {
    fn eq(&self, _: &Inst) -> bool {
        true
    }
}

/// A value made by user code: compared by its shape only where it is shown.
pub struct User(pub Box<dyn std::fmt::Debug>);
impl PartialEq for User {
    fn eq(&self, _: &User) -> bool {
        true
    }
}
impl std::fmt::Debug for User {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub type V = Rc<Val>;
#[derive(Debug, PartialEq)]
pub enum Val {
    Unit,
    User(User),
    Leaf { leaf: u16, start: usize, end: usize, ord: usize, inst: Inst },
    Ch(char),
    Str(String),
    Seq(Vec<V>),
    Alt(u8, V),
    Opt(Option<V>),
    Many(Vec<V>),
    Map(u16, V),
}

impl Val {
    /// Conversions in the order in which they have to run.
    pub fn conversions(&self, out: &mut Vec<u16>) {
        match self {
            Val::Seq(v) | Val::Many(v) => v.iter().for_each(|x| x.conversions(out)),
            Val::Alt(_, v) | Val::Opt(Some(v)) => v.conversions(out),
            Val::Map(id, v) => {
                v.conversions(out);
                out.push(*id);
            }
            _ => {}
        }
    }
    pub fn instances(&self, out: &mut Vec<u32>) {
        match self {
            Val::Seq(v) | Val::Many(v) => v.iter().for_each(|x| x.instances(out)),
            Val::Alt(_, v) | Val::Opt(Some(v)) | Val::Map(_, v) => v.instances(out),
            Val::Leaf { inst, .. } => out.push(inst.0),
            _ => {}
        }
    }
    pub fn show(&self) -> String {
        let list = |v: &[V]| v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ");
        match self {
            Val::Unit => "-".into(),
            Val::User(u) => format!("{u:?}"),
            Val::Leaf { leaf, start, end, ord, .. } => format!("L{leaf}[{start}..{end}#{ord}]"),
            Val::Ch(c) => format!("{c:?}"),
            Val::Str(s) => format!("s{s:?}"),
            Val::Seq(v) => format!("({})", list(v)),
            Val::Alt(k, v) => format!("{}:{}", k, v.show()),
            Val::Opt(None) => "none".into(),
            Val::Opt(Some(v)) => format!("some({})", v.show()),
            Val::Many(v) => format!("[{}]", list(v)),
            Val::Map(id, v) => format!("m{id}<{}>", v.show()),
        }
    }
}

/// How a simulated sub-parser behaves: a pure function of the text it is given and the position.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script {
    pub kind: Kind,
    /// How many characters beyond its start a failure may be reported at.
    pub far: u8,
    /// 1: also reports when it starts successfully, 2: at every further offer, 4: when it runs out.
    pub noisy: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    /// Offers those of these strings the text continues with, in this order.
    Pieces(Vec<String>),
    /// A run of characters of a class (0 any, 1 not newline, 2 letters, 3 newlines), at least `min`:
    /// longest first (0), shortest first (1), in a hashed order (2), longest only (3).
    Run { class: u8, min: u8, order: u8 },
    /// Offers hashed: up to `max` of the ends within `span` characters, in hashed order, perhaps
    /// twice; none at all in `fail` of 8 cases.
    Oracle { seed: u64, span: u8, max: u8, fail: u8 },
}

/// What a started sub-parser will do.
pub struct Offers {
    pub ends: Vec<usize>,
}

/// The moments at which a sub-parser may report a failure.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Moment {
    Refuse,
    Start,
    Next(usize),
    Out,
}

fn hash_text(seed: u64, t: &str, at: usize) -> u64 {
    let mut h = mix(seed ^ (at as u64) << 40);
    // (the end of a very long text stands for all of it)
    for c in t.as_bytes()[t.len().saturating_sub(200)..].iter().chain(t.len().to_le_bytes().iter()) {
        h = mix(h ^ *c as u64);
    }
    h
}

fn fwd(text: &str, at: usize, n: usize) -> usize {
    text[at..].char_indices().nth(n).map_or(text.len(), |x| at + x.0)
}

impl Script {
    pub fn offers(&self, text: &str, at: usize) -> Offers {
        let rest = &text[at..];
        let ends = match &self.kind {
            Kind::Pieces(p) => p.iter().filter(|s| rest.starts_with(s.as_str())).map(|s| at + s.len()).collect(),
            Kind::Run { class, min, order } => {
                let ok = |c: char| match class {
                    0 => true,
                    1 => c != '\n',
                    2 => c.is_alphabetic(),
                    _ => c == '\n',
                };
                let mut v: Vec<usize> = vec![at];
                for (i, c) in rest.char_indices() {
                    if !ok(c) || v.len() > 24 {
                        break;
                    }
                    v.push(at + i + c.len_utf8());
                }
                let m = (*min as usize).min(v.len());
                v.drain(..m);
                match order {
                    0 => v.reverse(),
                    1 => {}
                    2 => shuffle(&mut v, hash_text(77, rest, at)),
                    _ => {
                        v.reverse();
                        v.truncate(1);
                    }
                }
                v
            }
            Kind::Oracle { seed, span, max, fail } => {
                let h = hash_text(*seed, text, at);
                let mut r = Rng::new(h);
                if r.below(8) < *fail as u64 {
                    vec![]
                } else {
                    let mut v: Vec<usize> = (0..=*span as usize).map(|n| fwd(text, at, n)).collect();
                    v.dedup();
                    shuffle(&mut v, r.next());
                    let keep = 1 + r.below((*max).max(1) as u64) as usize;
                    v.truncate(keep);
                    if r.below(8) == 0 {
                        let again = v[r.below(v.len() as u64) as usize];
                        v.push(again);
                    }
                    v
                }
            }
        };
        Offers { ends }
    }

    /// Where it reports a failure at this moment, if it does.
    pub fn report(&self, text: &str, at: usize, m: Moment) -> Option<usize> {
        let (bit, k) = match m {
            Moment::Refuse => (0, 1),
            Moment::Start => (1, 2),
            Moment::Next(n) => (2, 3 + n as u64),
            Moment::Out => (4, 1000),
        };
        if bit != 0 && self.noisy & bit == 0 {
            return None;
        }
        let n = if self.far == 0 { 0 } else { hash_text(k, text, at) % (self.far as u64 + 1) };
        Some(fwd(text, at, n as usize))
    }
}

fn shuffle<T>(v: &mut [T], seed: u64) {
    let mut r = Rng::new(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

/// The text of a sub-parser's failure report. Unique per sub-parser, start and moment.
pub fn tag(leaf: u16, at: usize, m: Moment) -> String {
    format!("\u{ab}L{leaf}@{at} {m:?}\u{bb}")
}

/// Call `f` on every node.
pub fn each(n: &Node, f: &mut dyn FnMut(&Node)) {
    f(n);
    for c in children(n) {
        each(c, f);
    }
}

pub fn children(n: &Node) -> Vec<&Node> {
    use Node::*;
    match n {
        Leaf(_) | Lit(_) | Char(_) | Ref(_) => vec![],
        Seq(v) | Alt(v) | Tmpl(_, v, _) => v.iter().collect(),
        Opt(x) | Star(x) | Plus(x) | Map(_, x) | Str(x) | Line(x) | Section(x) | Lines(x) | Sections(x) => vec![x],
        RepSep(x, y) => vec![x, y],
        Rules { rules, body, .. } => rules.iter().chain(std::iter::once(&**body)).collect(),
    }
}

pub fn children_mut(n: &mut Node) -> Vec<&mut Node> {
    use Node::*;
    match n {
        Leaf(_) | Lit(_) | Char(_) | Ref(_) => vec![],
        Seq(v) | Alt(v) | Tmpl(_, v, _) => v.iter_mut().collect(),
        Opt(x) | Star(x) | Plus(x) | Map(_, x) | Str(x) | Line(x) | Section(x) | Lines(x) | Sections(x) => vec![x],
        RepSep(x, y) => vec![x, y],
        Rules { rules, body, .. } => rules.iter_mut().chain(std::iter::once(&mut **body)).collect(),
    }
}

/// Does the pattern contain line or section?
pub fn regions(n: &Node) -> bool {
    let mut r = false;
    each(n, &mut |x| {
        r |= match x {
            Node::Line(_) | Node::Section(_) | Node::Lines(_) | Node::Sections(_) => true,
            Node::Tmpl(t, ..) => has_region(*t),
            _ => false,
        }
    });
    r
}
