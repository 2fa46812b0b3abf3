//! The executable reference model: what a pattern must do on a text, walked in
//! continuation-passing style, one alternative after the other.
use crate::ast::*;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tag {
    /// A simulated sub-parser's own report.
    Leaf(String),
    /// The library's own report, and how it begins.
    Lib(String),
}

type Env<'a> = Vec<(&'a Node, usize)>;
/// What to do with a match. True: accepted, stop.
type K<'k> = &'k mut dyn FnMut(&mut Model, usize, V) -> bool;

pub struct Model<'a> {
    scripts: &'a [Script],
    /// Foremost report, one per text being looked at (innermost last).
    errs: Vec<Option<(usize, Tag)>>,
    /// Requests made to simulated sub-parsers.
    pub requests: u64,
    work: u64,
    cap: u64,
    /// Look at everything, accept nothing.
    exhaustive: bool,
    /// (sub-parser, text it was given)
    pub given: HashSet<(u16, String)>,
    record: bool,
    pub over: bool,
    /// Rejected matches seen.
    pub rejected: u64,
    /// Deepest rule nesting reached.
    pub deepest: u64,
    depth: u64,
}

pub struct Verdict {
    pub value: Option<V>,
    pub error: Option<(usize, Tag)>,
}

impl<'a> Model<'a> {
    pub fn new(scripts: &'a [Script], cap: u64, exhaustive: bool, record: bool) -> Self {
        Model {
            scripts,
            errs: vec![None],
            requests: 0,
            work: 0,
            cap,
            exhaustive,
            given: HashSet::new(),
            record,
            over: false,
            rejected: 0,
            deepest: 0,
            depth: 0,
        }
    }

    /// Parse a whole text.
    pub fn parse(&mut self, g: &Node, text: &str) -> Verdict {
        let mut got = None;
        let len = text.len();
        let all = self.exhaustive;
        let g = flat(g);
        let ok = self.go(&g, &Vec::new(), text, 0, &mut |m, end, v| {
            if end == len && !all {
                got = Some(v);
                return true;
            }
            m.rejected += 1;
            m.report_lib(end, || "extra unparsed text".into());
            false
        });
        debug_assert!(ok == got.is_some() || self.over);
        Verdict { value: got, error: self.errs.pop().unwrap() }
    }

    fn report(&mut self, at: usize, t: Tag) {
        let e = self.errs.last_mut().unwrap();
        match e {
            Some((x, _)) if *x >= at => {}
            _ => *e = Some((at, t)),
        }
    }

    fn report_lib(&mut self, at: usize, what: impl FnOnce() -> String) {
        if !matches!(self.errs.last(), Some(Some((x, _))) if *x >= at) {
            self.report(at, Tag::Lib(what()));
        }
    }

    fn go(&mut self, n: &Node, env: &Env<'_>, text: &str, at: usize, k: K<'_>) -> bool {
        self.work += 1;
        if self.work > self.cap || self.over {
            self.over = true;
            return true;
        }
        match n {
            Node::Leaf(i) => self.leaf(*i, text, at, k),
            Node::Lit(s) => {
                if text[at..].starts_with(s.as_str()) {
                    k(self, at + s.len(), Rc::new(Val::Unit))
                } else {
                    self.report_lib(at, || format!("expected {s:?} "));
                    false
                }
            }
            Node::Char(c) => match builtin(*c, &text[at..]) {
                Ok((n, v)) => k(self, at + n, Rc::new(v)),
                Err(what) => {
                    self.report_lib(at, || what);
                    false
                }
            },
            Node::Seq(v) => self.seq(v, env, text, at, &mut Vec::new(), k),
            Node::Alt(v) => {
                for (i, p) in v.iter().enumerate() {
                    if self.go(p, env, text, at, &mut |m, e, x| k(m, e, Rc::new(Val::Alt(i as u8, x)))) {
                        return true;
                    }
                }
                false
            }
            Node::Opt(p) => self.go(p, env, text, at, &mut |m, e, x| k(m, e, Rc::new(Val::Opt(Some(x))))) || k(self, at, Rc::new(Val::Opt(None))),
            Node::Star(p) => self.rep(p, None, 0, env, text, at, false, &mut Vec::new(), k),
            Node::Plus(p) => self.rep(p, None, 1, env, text, at, false, &mut Vec::new(), k),
            Node::RepSep(p, s) => self.rep(p, Some(s), 0, env, text, at, false, &mut Vec::new(), k),
            Node::Map(id, p) => self.go(p, env, text, at, &mut |m, e, x| k(m, e, Rc::new(Val::Map(*id, x)))),
            Node::Str(p) => self.go(p, env, text, at, &mut |m, e, _| k(m, e, Rc::new(Val::Str(text[at..e].to_string())))),
            Node::Line(p) => self.region(true, p, env, text, at, k),
            Node::Section(p) => self.region(false, p, env, text, at, k),
            Node::Lines(_) | Node::Sections(_) | Node::Tmpl(..) => unreachable!("expanded"),
            Node::Rules { rules, body, .. } => {
                let mut e: Env<'_> = env.clone();
                let upto = e.len() + rules.len();
                for r in rules {
                    e.push((r, upto));
                }
                self.go(body, &e, text, at, k)
            }
            Node::Ref(i) => {
                let (r, upto) = env[*i as usize];
                let e: Env<'_> = env[..upto].to_vec();
                self.depth += 1;
                self.deepest = self.deepest.max(self.depth);
                if self.depth > 200 {
                    self.over = true;
                    return true;
                }
                let d = self.depth;
                let r = self.go(r, &e, text, at, k);
                self.depth = d - 1;
                r
            }
        }
    }

    fn leaf(&mut self, i: u16, text: &str, at: usize, k: K<'_>) -> bool {
        let s = &self.scripts[i as usize];
        self.requests += 1;
        if self.record {
            self.given.insert((i, text.to_string()));
        }
        let o = s.offers(text, at);
        if o.ends.is_empty() {
            let p = s.report(text, at, Moment::Refuse).unwrap();
            self.report(p, Tag::Leaf(tag(i, at, Moment::Refuse)));
            return false;
        }
        if let Some(p) = s.report(text, at, Moment::Start) {
            self.report(p, Tag::Leaf(tag(i, at, Moment::Start)));
        }
        for (ord, &end) in o.ends.iter().enumerate() {
            if ord > 0 {
                self.requests += 1;
                if let Some(p) = s.report(text, at, Moment::Next(ord)) {
                    self.report(p, Tag::Leaf(tag(i, at, Moment::Next(ord))));
                }
            }
            if k(self, end, Rc::new(Val::Leaf { leaf: i, start: at, end, ord, inst: Inst(0) })) {
                return true;
            }
        }
        self.requests += 1;
        if let Some(p) = s.report(text, at, Moment::Out) {
            self.report(p, Tag::Leaf(tag(i, at, Moment::Out)));
        }
        false
    }

    fn seq(&mut self, v: &[Node], env: &Env<'_>, text: &str, at: usize, got: &mut Vec<V>, k: K<'_>) -> bool {
        match v.split_first() {
            None => k(self, at, Rc::new(Val::Seq(got.clone()))),
            Some((h, t)) => self.go(h, env, text, at, &mut |m, e, x| {
                got.push(x);
                let r = m.seq(t, env, text, e, got, k);
                got.pop();
                r
            }),
        }
    }

    /// Repetition: as many rounds as possible first; a round that matches nothing is the last one
    /// unless more are required.
    #[allow(clippy::too_many_arguments)]
    fn rep(&mut self, p: &Node, sep: Option<&Node>, min: usize, env: &Env<'_>, text: &str, at: usize, empty_round: bool, got: &mut Vec<V>, k: K<'_>) -> bool {
        self.work += 1;
        let n = got.len();
        if !(n >= min && empty_round) {
            let r = self.go(p, env, text, at, &mut |m, e, x| {
                got.push(x);
                let mut r = match sep {
                    None => m.rep(p, sep, min, env, text, e, e == at, got, k),
                    Some(s) => m.go(s, env, text, e, &mut |m, e2, _| m.rep(p, sep, min, env, text, e2, e2 == at, got, k)),
                };
                if !r {
                    r = k(m, e, Rc::new(Val::Many(got.clone())));
                }
                got.pop();
                r
            });
            if r {
                return true;
            }
        }
        n == 0 && min == 0 && k(self, at, Rc::new(Val::Many(vec![])))
    }

    fn region(&mut self, line: bool, p: &Node, env: &Env<'_>, text: &str, at: usize, k: K<'_>) -> bool {
        let before = &text[..at];
        let starts = if line { at == 0 || before.ends_with('\n') } else { at == 0 || before == "\n" || before.ends_with("\n\n") };
        let kind = if line { "line" } else { "section" };
        if !starts {
            self.report_lib(at, || format!("{kind}() can't match here"));
            return false;
        }
        let (inner, outer) = match area(line, text, at) {
            Some(x) => x,
            None => {
                self.report_lib(text.len(), || format!("expected {kind} "));
                return false;
            }
        };
        let slice = &text[at..inner];
        let mut got: Option<V> = None;
        let all = self.exhaustive;
        self.errs.push(None);
        self.go(p, env, slice, 0, &mut |m, e, x| {
            if e == slice.len() {
                if got.is_none() {
                    got = Some(x);
                }
                return !all;
            }
            m.rejected += 1;
            m.report_lib(e, || format!("{kind}(pattern) matched part"));
            false
        });
        let e = self.errs.pop().unwrap();
        if self.over {
            return true;
        }
        match got {
            Some(x) => k(self, outer, x),
            None => {
                if let Some((l, t)) = e {
                    self.report(at + l, t);
                }
                false
            }
        }
    }
}

/// Interior end and outer end of the line or section that starts at `at`.
pub fn area(line: bool, text: &str, at: usize) -> Option<(usize, usize)> {
    let rest = &text[at..];
    if rest.is_empty() {
        return None;
    }
    let all = (text.len(), text.len());
    Some(if line {
        rest.find('\n').map_or(all, |i| (at + i, at + i + 1))
    } else if rest.starts_with('\n') {
        (at, at + 1)
    } else {
        rest.find("\n\n").map_or(all, |i| (at + i + 1, at + i + 2))
    })
}

/// What a built-in parser makes of this text: how much it matches and its value, or how its
/// report begins.
pub fn builtin(c: u8, rest: &str) -> Result<(usize, Val), String> {
    let run = |from: usize, ok: fn(&char) -> bool| from + rest[from..].chars().take_while(ok).count();
    let sign = rest.starts_with(['+', '-']) as usize;
    let number = |end: usize, some: bool, v: Option<String>, name: &str| match (some, v) {
        (false, _) => Err(format!("expected {name} ")),
        (true, Some(v)) => Ok((end, Val::Str(v))),
        (true, None) => Err(format!("failed to parse {:?} as type {name}: ", &rest[..end])),
    };
    match c {
        5 => {
            let n = run(0, char::is_ascii_digit);
            number(n, n > 0, rest[..n].parse::<u8>().ok().map(|x| x.to_string()), "u8")
        }
        6 => {
            let n = run(sign, char::is_ascii_digit);
            number(n, n > sign, rest[..n].parse::<i8>().ok().map(|x| x.to_string()), "i8")
        }
        7 => match ["true", "false"].iter().find(|w| rest.starts_with(**w)) {
            Some(w) => Ok((w.len(), Val::Str(w.to_string()))),
            None => Err("expected bool ".into()),
        },
        9 => {
            let n = run(0, char::is_ascii_hexdigit);
            number(n, n > 0, u8::from_str_radix(&rest[..n], 16).ok().map(|x| x.to_string()), "u8")
        }
        _ => {
            let x = rest.chars().next();
            let (ok, noun): (fn(char) -> bool, &str) = match c {
                0 => (|_| true, "any character"),
                1 => (char::is_alphabetic, "letter"),
                2 => (|x| x.is_ascii_digit(), "decimal digit"),
                3 => (char::is_lowercase, "lowercase letter"),
                4 => (char::is_alphanumeric, "letter or digit"),
                10 => (char::is_uppercase, "uppercase letter"),
                _ => (|x| SEL.contains(x), "one of"),
            };
            match x {
                Some(x) if ok(x) => Ok((x.len_utf8(), if c == 8 { Val::Str(SEL.chars().position(|y| x == y).unwrap().to_string()) } else { Val::Ch(x) })),
                _ => Err(format!("expected {noun} ")),
            }
        }
    }
}

/// Replace templates, `lines` and `sections` by what they mean, and number the rules by depth.
pub fn flat(n: &Node) -> Node {
    fn walk(n: &Node, names: &mut Vec<u16>) -> Node {
        use Node::*;
        let one = |x: &Node, names: &mut Vec<u16>| Box::new(walk(x, names));
        match n {
            Tmpl(t, p, m) => walk(&expand(*t, p, *m), names),
            Lines(p) => Star(Box::new(Line(one(p, names)))),
            Sections(p) => Star(Box::new(Section(one(p, names)))),
            Leaf(_) | Lit(_) | Char(_) => n.clone(),
            Seq(v) => Seq(v.iter().map(|x| walk(x, names)).collect()),
            Alt(v) => Alt(v.iter().map(|x| walk(x, names)).collect()),
            Opt(x) => Opt(one(x, names)),
            Star(x) => Star(one(x, names)),
            Plus(x) => Plus(one(x, names)),
            RepSep(x, y) => RepSep(one(x, names), one(y, names)),
            Map(i, x) => Map(*i, one(x, names)),
            Str(x) => Str(one(x, names)),
            Line(x) => Line(one(x, names)),
            Section(x) => Section(one(x, names)),
            Rules { base, rules, body } => {
                let depth = names.len();
                for i in 0..rules.len() {
                    names.push(base + i as u16);
                }
                let r = rules.iter().map(|x| walk(x, names)).collect();
                let bd = one(body, names);
                names.truncate(depth);
                Rules { base: depth as u16, rules: r, body: bd }
            }
            Ref(i) => Ref(names.iter().rposition(|x| x == i).expect("unbound rule") as u16),
        }
    }
    walk(n, &mut Vec::new())
}
