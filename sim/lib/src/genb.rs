//! Seeded patterns, scripts and texts.
use crate::ast::*;
use crate::model::Model;
use crate::session::*;
use simrt::rng::Rng;

struct G<'a> {
    r: Rng,
    prop: &'a str,
    scripts: Vec<Script>,
    maps: u16,
    rules: u16,
    letters: Vec<&'static str>,
    budget: i32,
    /// Long mode: how many rounds the outermost repetition gets in a sampled text.
    long: u64,
    /// Rules that may be referred to here, and whether something has been consumed since the rule began.
    scope: Vec<u16>,
    /// What every text begins with, so that positions are big numbers.
    front: String,
}

const SETS: [&[&str]; 7] = [
    &["a", "b"],
    &["a", "b", "c"],
    &["a", "b", ","],
    &["a", "é", "🎄"],
    &["a", "b", "\n"],
    &["a", "1", " "],
    &["a", "ß", "日", "\u{2028}", "b"],
];
const SETS_LINES: [&[&str]; 12] = [
    &["a", "b", "\n"],
    &["a", "\n"],
    &["a", "é", "\n", "🎄"],
    &["a", "\r", "\n"],
    &["a", "b", ",", "\n"],
    &["a", "\u{2028}", "\u{85}", "\n"],
    &["a", " ", "\n"],
    &["a", "\t", "\n"],
    &["b", " ", "\n", "\u{a0}"],
    &["a", "\u{b}", "\u{c}", "\n"],
    &["a", "\0", "\u{feff}", "\n"],
    &["a", "\u{2029}", "\u{1c}", "\n", "b"],
];

impl G<'_> {
    fn p(&mut self, percent: u64) -> bool {
        self.r.below(100) < percent
    }
    fn n(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.r.below(hi - lo + 1)
    }
    fn letter(&mut self) -> &'static str {
        self.letters[self.r.below(self.letters.len() as u64) as usize]
    }
    fn word(&mut self, lo: u64, hi: u64) -> String {
        let n = self.n(lo, hi);
        (0..n).map(|_| self.letter()).collect()
    }
    fn regional(&self) -> bool {
        matches!(self.prop, "C13")
    }

    fn script(&mut self, consume: bool) -> Script {
        if self.long > 0 {
            // one offer, or a few short ones
            let n = if self.p(70) { 1 } else { 2 };
            let v = (0..n).map(|_| self.word(1, 2)).collect();
            let noisy = if self.p(20) { 1 + self.r.below(7) as u8 } else { 0 };
            return Script { kind: Kind::Pieces(v), far: 0, noisy };
        }
        let noisy_p = if self.prop == "C10" { 55 } else { 12 };
        let noisy = if self.p(noisy_p) { 1 + self.r.below(7) as u8 } else { 0 };
        let far = if self.p(if self.prop == "C10" { 60 } else { 25 }) { self.n(1, 3) as u8 } else { 0 };
        let lo = consume as u64;
        let kind = match self.r.below(10) {
            0..=3 => {
                let n = self.n(1, 4);
                let mut v: Vec<String> = (0..n).map(|_| self.word(lo, 3)).collect();
                if !consume && self.p(30) {
                    let at = self.r.below(v.len() as u64 + 1) as usize;
                    v.insert(at, String::new());
                }
                Kind::Pieces(v)
            }
            4..=6 => {
                let class = if self.regional() { *[0u8, 0, 1, 2, 3].get(self.r.below(5) as usize).unwrap() } else { self.r.below(3) as u8 };
                Kind::Run { class, min: if consume { 1 } else { self.r.below(2) as u8 }, order: self.r.below(4) as u8 }
            }
            _ if consume => Kind::Run { class: 0, min: 1, order: 2 },
            _ => Kind::Oracle { seed: self.r.next(), span: self.n(1, 4) as u8, max: self.n(1, 4) as u8, fail: self.r.below(5) as u8 },
        };
        Script { kind, far, noisy }
    }

    fn leaf(&mut self, consume: bool) -> Node {
        let again = !consume && !self.scripts.is_empty() && self.p(20);
        let i = if again {
            self.r.below(self.scripts.len() as u64) as u16
        } else {
            let s = self.script(consume);
            self.scripts.push(s);
            self.scripts.len() as u16 - 1
        };
        Node::Leaf(i)
    }

    /// A pattern that always consumes something.
    fn consuming(&mut self) -> Node {
        match self.r.below(4) {
            0 => Node::Lit(self.word(1, 2)),
            1 => Node::Char(self.r.below(BUILTINS) as u8),
            _ => self.leaf(true),
        }
    }

    fn small(&mut self) -> Node {
        if !self.scope.is_empty() && self.p(35) {
            return Node::Ref(self.scope[self.r.below(self.scope.len() as u64) as usize]);
        }
        match self.r.below(10) {
            0 | 1 => Node::Lit(self.word(0, 2)),
            2 => Node::Char(self.r.below(BUILTINS) as u8),
            _ => self.leaf(false),
        }
    }

    fn next_map(&mut self, n: u16) -> u16 {
        self.maps += n;
        self.maps - n
    }

    fn node(&mut self, depth: u32) -> Node {
        self.budget -= 1;
        if depth == 0 || self.budget <= 0 || self.p(8) {
            return self.small();
        }
        let d = depth - 1;
        let (regions, maps, strs, reps) = match self.prop {
            "C13" => (24, 6, 4, 20),
            "C10" => (14, 6, 4, 22),
            "C06" => (8, 26, 12, 18),
            "C07" => (12, 8, 6, 20),
            "C12" => (6, 4, 4, 40),
            _ => (0, 8, 6, 24),
        };
        let mut x = self.r.below(100) as i64;
        let mut took = |w: i64| {
            x -= w;
            x < 0
        };
        let bx = |n: Node| Box::new(n);
        if took(regions) {
            let n = bx(self.node(d));
            return match self.r.below(6) {
                0 | 1 => Node::Line(n),
                2 | 3 => Node::Section(n),
                4 => Node::Lines(n),
                _ => Node::Sections(n),
            };
        }
        if took(maps) {
            let id = self.next_map(1);
            return Node::Map(id, bx(self.node(d)));
        }
        if took(strs) {
            return Node::Str(bx(self.node(d)));
        }
        if took(reps) {
            return match self.r.below(6) {
                0 | 1 => Node::Star(bx(self.node(d))),
                2 | 3 => Node::Plus(bx(self.node(d))),
                _ => {
                    let p = self.node(d);
                    let s = if self.p(50) { Node::Lit(self.word(0, 1)) } else { self.node(d.min(1)) };
                    Node::RepSep(bx(p), bx(s))
                }
            };
        }
        match self.r.below(100) {
            0..=37 => {
                let n = *[2, 2, 2, 3, 3, 4].get(self.r.below(6) as usize).unwrap();
                Node::Seq((0..n).map(|_| self.node(d)).collect())
            }
            38..=60 => {
                let n = *[2, 2, 2, 3, 4, 1].get(self.r.below(6) as usize).unwrap();
                Node::Alt((0..n).map(|_| self.node(d)).collect())
            }
            61..=72 => Node::Opt(bx(self.node(d))),
            73..=84 => {
                let mut t;
                loop {
                    t = self.r.below(TEMPLATES.len() as u64) as u8;
                    if self.prop != "C08" || !has_region(t) {
                        break;
                    }
                }
                let m = self.next_map(3);
                let parts = (0..TEMPLATES[t as usize]).map(|_| self.node(d.min(2))).collect();
                Node::Tmpl(t, parts, m)
            }
            85..=94 => {
                let n = self.n(1, 3) as u16;
                let base = self.rules;
                self.rules += n;
                // inside a rule, rules can be named only after something has been consumed
                let outer = std::mem::take(&mut self.scope);
                let mut rules = Vec::new();
                for _ in 0..n {
                    let mut inner = outer.clone();
                    inner.extend(base..base + n);
                    let k = self.n(1, 3);
                    let mut alts: Vec<Node> = Vec::new();
                    for _ in 0..k {
                        let head = self.consuming();
                        self.scope = inner.clone();
                        let rest = self.node(d.min(2));
                        self.scope.clear();
                        let rest = if self.p(60) { rest } else { Node::Seq(vec![rest, Node::Lit(self.word(0, 1))]) };
                        alts.push(if self.p(75) { Node::Seq(vec![head, rest]) } else { self.node(1) });
                    }
                    if self.p(40) {
                        alts.push(self.small());
                    }
                    let id = self.next_map(1);
                    rules.push(if alts.len() == 1 { alts.pop().unwrap() } else { Node::Map(id, bx(Node::Alt(alts))) });
                }
                // in the body nothing may be left-recursive, whatever it names
                self.scope = outer.clone();
                self.scope.extend(base..base + n);
                let body = if self.p(50) { Node::Ref(base) } else { self.node(d.min(2)) };
                self.scope = outer;
                Node::Rules { base, rules, body: bx(body) }
            }
            _ => self.small(),
        }
    }

    /// Something that goes on for long.
    fn lengthen(&mut self, x: Node) -> Node {
        let bx = |n: Node| Box::new(n);
        let head = self.consuming();
        let y = Node::Seq(vec![head, Node::Opt(bx(x))]);
        let lines = self.letters.contains(&"\n") && self.prop != "C08";
        let long = match self.r.below(if lines { 11 } else { 6 }) {
            0 | 1 => Node::Star(bx(y)),
            2 | 3 => Node::Plus(bx(y)),
            4 => Node::RepSep(bx(y), bx(Node::Lit(",".into()))),
            5 => {
                let id = self.next_map(1);
                Node::Map(id, bx(Node::Star(bx(y))))
            }
            6 => Node::Lines(bx(y)),
            7 => Node::Lines(bx(Node::Plus(bx(y)))),
            8 => Node::Sections(bx(Node::Lines(bx(Node::Plus(bx(y)))))),
            9 => Node::Section(bx(Node::Lines(bx(Node::RepSep(bx(y), bx(Node::Lit(",".into()))))))),
            _ => Node::Sections(bx(y)),
        };
        match self.r.below(6) {
            0 => Node::Str(bx(long)),
            1 => Node::Seq(vec![long, self.small()]),
            2 => Node::Alt(vec![Node::Seq(vec![long.clone(), Node::Lit("!".into())]), long]),
            _ => long,
        }
    }
    /// Many rule sets, around and next to one another.
    fn many_sets(&mut self, mut x: Node, n: u64) -> Node {
        let bx = |n: Node| Box::new(n);
        for _ in 0..n {
            let base = self.rules;
            self.rules += 1;
            let id = self.next_map(1);
            let head = self.consuming();
            let more = Node::Opt(bx(Node::Ref(base)));
            let body = if self.p(50) { Node::Seq(vec![head, more]) } else { Node::Alt(vec![Node::Seq(vec![head.clone(), Node::Ref(base)]), head]) };
            let rules = vec![Node::Map(id, bx(body))];
            let again = Node::Opt(bx(Node::Ref(base)));
            x = match self.r.below(3) {
                0 => Node::Rules { base, rules, body: bx(Node::Seq(vec![x, again])) },
                1 => Node::Seq(vec![x, Node::Rules { base, rules, body: bx(again) }]),
                _ => Node::Rules { base, rules, body: bx(Node::Seq(vec![again, x])) },
            };
        }
        x
    }

    /// A text that has a chance to match.
    fn sample(&mut self, n: &Node, rules: &mut Vec<(u16, Node)>, fuel: &mut i32) -> String {
        use Node::*;
        *fuel -= 1;
        if *fuel < 0 {
            return String::new();
        }
        match n {
            Leaf(i) => {
                let k = self.scripts[*i as usize].kind.clone();
                match k {
                    Kind::Pieces(p) if !p.is_empty() => p[self.r.below(p.len() as u64) as usize].clone(),
                    Kind::Pieces(_) => String::new(),
                    Kind::Run { class, min, .. } => {
                        let k = self.n(min as u64, 3);
                        (0..k)
                            .map(|_| match class {
                                3 => "\n",
                                2 => "a",
                                _ => self.letter(),
                            })
                            .filter(|c| class != 1 || *c != "\n")
                            .collect()
                    }
                    Kind::Oracle { span, .. } => self.word(0, span as u64),
                }
            }
            Lit(s) => s.clone(),
            Char(c) => match c {
                0 => self.letter().to_string(),
                2 => "1".into(),
                5 => ["1", "12", "255", "256", "7a"][self.r.below(5) as usize].into(),
                6 => ["1", "-12", "+127", "128", "-"][self.r.below(5) as usize].into(),
                7 => ["true", "false"][self.r.below(2) as usize].into(),
                9 => ["a", "1a", "b", "ff", "1aa"][self.r.below(5) as usize].into(),
                10 => "Z".into(),
                _ => ["a", "b", "é"][self.r.below(3) as usize].into(),
            },
            Seq(v) => v.iter().map(|x| self.sample(x, rules, fuel)).collect(),
            Alt(v) => {
                let i = self.r.below(v.len() as u64) as usize;
                self.sample(&v[i], rules, fuel)
            }
            Opt(x) => {
                if self.p(60) {
                    self.sample(x, rules, fuel)
                } else {
                    String::new()
                }
            }
            Star(x) | Plus(x) => {
                let k = self.rounds(matches!(n, Plus(_)) as u64);
                (0..k).map(|_| self.sample(x, rules, fuel)).collect()
            }
            RepSep(x, y) => {
                let k = self.rounds(0);
                let mut s = String::new();
                for i in 0..k {
                    if i > 0 {
                        s += &self.sample(y, rules, fuel);
                    }
                    s += &self.sample(x, rules, fuel);
                }
                s
            }
            Map(_, x) | Str(x) => self.sample(x, rules, fuel),
            Line(x) => self.line(x, rules, fuel),
            Lines(x) => {
                let k = self.rounds_of_text(0);
                (0..k).map(|_| self.line(x, rules, fuel)).collect()
            }
            Section(x) => self.section(x, rules, fuel),
            Sections(x) => {
                let k = self.rounds_of_text(0);
                (0..k).map(|_| self.section(x, rules, fuel)).collect()
            }
            Rules { base, rules: rs, body } => {
                let depth = rules.len();
                for (i, r) in rs.iter().enumerate() {
                    rules.push((base + i as u16, r.clone()));
                }
                let s = self.sample(body, rules, fuel);
                rules.truncate(depth);
                s
            }
            Ref(i) => match rules.iter().rev().find(|x| x.0 == *i).map(|x| x.1.clone()) {
                Some(r) => self.sample(&r, rules, fuel),
                None => String::new(),
            },
            Tmpl(t, p, m) => {
                let e = expand(*t, p, *m);
                self.sample(&e, rules, fuel)
            }
        }
    }
    fn rounds(&mut self, lo: u64) -> u64 {
        let most = std::mem::take(&mut self.long);
        if most > 3 {
            // only the first repetition met gets that many
            self.n(most / 2, most)
        } else {
            self.n(lo, 3)
        }
    }
    /// Lines or sections: many of them, or a few with one that is long itself.
    fn rounds_of_text(&mut self, lo: u64) -> u64 {
        if self.long > 3 && self.p(50) {
            self.n(lo, 3)
        } else {
            self.rounds(lo)
        }
    }
    fn line(&mut self, x: &Node, rules: &mut Vec<(u16, Node)>, fuel: &mut i32) -> String {
        let mut s = self.sample(x, rules, fuel);
        if self.p(85) {
            s = s.replace('\n', "");
        }
        if self.p(95) {
            s.push('\n');
        }
        s
    }
    fn section(&mut self, x: &Node, rules: &mut Vec<(u16, Node)>, fuel: &mut i32) -> String {
        let mut s = self.sample(x, rules, fuel);
        while self.prop != "x" && s.contains("\n\n") && self.p(90) {
            s = s.replacen("\n\n", "\n", 1);
        }
        if !s.ends_with('\n') && self.p(90) {
            s.push('\n');
        }
        if self.p(90) {
            s.push('\n');
        }
        s
    }

    fn text(&mut self, g: &Node) -> String {
        if self.p(30) && self.long == 0 {
            let n = self.n(0, 10);
            return self.word(0, n);
        }
        let long = self.long;
        let mut fuel = if long > 0 { 6000 } else { 60 };
        let mut s = self.sample(g, &mut Vec::new(), &mut fuel);
        self.long = long;
        if regions(g) && self.p(15) {
            s.truncate(s.trim_end_matches('\n').len());
        }
        if self.p(if long > 0 { 30 } else { 45 }) {
            let cs: Vec<char> = s.chars().collect();
            let at = self.r.below(cs.len() as u64 + 1) as usize;
            let mut c: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
            match self.r.below(4) {
                0 if at < c.len() => {
                    c.remove(at);
                }
                1 if at < c.len() => c[at] = self.letter().into(),
                2 => c.truncate(at),
                _ => c.insert(at, self.letter().into()),
            }
            s = c.concat();
        }
        let most = if long > 0 { 3000 } else { 48 };
        if s.len() > most {
            let mut cut = most;
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            s.truncate(cut);
        }
        s
    }
}

/// How much work the model may do on this text.
pub fn cap(base: u64, text: &str) -> u64 {
    if text.len() > 4000 {
        return base; // most of that is one literal
    }
    base + 60 * (text.len() as u64).saturating_sub(48)
}

pub fn case(prop: &str, r: &mut Rng) -> Case {
    loop {
        let mut g = G { r: Rng::new(r.next()), prop, scripts: vec![], maps: 0, rules: 0, letters: vec![], budget: 0, long: 0, scope: vec![], front: String::new() };
        let mode = g.r.below(400);
        if mode < 4 {
            g.long = *[20, 40, 70, 140, 270, 520, 1100].get(g.r.below(7) as usize).unwrap();
        }
        let lines = prop == "C13" || (matches!(prop, "C10" | "C06" | "C07" | "C12") && g.p(40));
        let set = if lines { SETS_LINES[g.r.below(SETS_LINES.len() as u64) as usize] } else { SETS[g.r.below(SETS.len() as u64) as usize] };
        g.letters = set.to_vec();
        g.budget = if g.long > 0 { g.n(2, 6) } else { g.n(3, 16) } as i32;
        let depth = if g.long > 0 { g.n(1, 3) } else { g.n(1, 5) } as u32;
        let mut root = g.node(depth);
        if g.long > 0 {
            root = g.lengthen(root);
        } else if mode < 10 {
            let n = g.n(6, 22);
            root = g.many_sets(root, n);
        }
        if prop == "C13" && !regions(&root) {
            let x = Box::new(root);
            root = match g.r.below(4) {
                0 => Node::Lines(x),
                1 => Node::Section(x),
                2 => Node::Sections(x),
                _ => Node::Seq(vec![Node::Line(x), g.leaf(false)]),
            };
        }
        if prop == "C08" && regions(&root) {
            continue;
        }
        if left_recursive(&root, &g.scripts) {
            continue;
        }
        let inner = root.clone();
        let mut on_line = false;
        if g.long == 0 && g.r.below(120) == 0 {
            let n = *[250u64, 4090, 65_530].get(g.r.below(3) as usize).unwrap() + g.n(0, 10);
            g.front = g.letter().repeat(n as usize);
            on_line = lines && g.p(40);
            if lines && !on_line && g.p(70) {
                g.front.push('\n');
            }
            root = Node::Seq(vec![Node::Lit(g.front.clone()), root]);
            if on_line {
                root = Node::Line(Box::new(root));
            }
        }
        let n = g.n(2, 6);
        let mut texts: Vec<String> = Vec::new();
        let mut flaky = Vec::new();
        for i in 0..n {
            let mut t = g.text(&inner);
            let work = cap(4_000, &t);
            if !g.front.is_empty() {
                t.insert_str(0, &g.front);
                if on_line && !t.ends_with('\n') && g.p(90) {
                    t.push('\n');
                }
            }
            let mut m = Model::new(&g.scripts, work, false, false);
            m.parse(&root, &t);
            if m.over || texts.contains(&t) && !matches!(prop, "C07" | "C12") {
                continue;
            }
            let _ = i;
            let faulty = match prop {
                "C07" => 60,
                "C12" => 40,
                "C06" => 15,
                _ => 0,
            };
            let requests = m.requests;
            if requests > 0 && g.p(faulty) {
                for _ in 0..g.n(1, 4) {
                    let at = g.r.below(requests) as u32;
                    flaky.push((texts.len() as u32, at));
                }
            }
            texts.push(t);
        }
        if texts.is_empty() {
            continue;
        }
        return Case { g: root, scripts: g.scripts, texts, flaky };
    }
}

/// A pattern for engine A: only texts on which even an exhaustive walk is short, so that
/// whatever is refused or left half way, the work stays small.
pub fn tame(seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let about = ["C06", "C08", "C10", "C12", "C13"][r.below(5) as usize];
    loop {
        let mut c = case(about, &mut r);
        c.flaky.clear();
        let Case { g, scripts, texts, .. } = &mut c;
        texts.retain(|t| {
            if t.len() > 8000 {
                return false;
            }
            let mut m = Model::new(scripts, 3_000 + 20 * t.len() as u64, true, false);
            m.parse(g, t);
            !m.over
        });
        texts.dedup();
        if !texts.is_empty() {
            return c;
        }
    }
}

/// Can a rule come back to itself without consuming anything? (Conservative.)
fn left_recursive(n: &Node, scripts: &[Script]) -> bool {
    struct L<'a>(&'a [Script]);
    impl L<'_> {
        fn nullable(&self, n: &Node) -> bool {
            use Node::*;
            match n {
                Lit(s) => s.is_empty(),
                Char(_) => false,
                Leaf(i) => match &self.0[*i as usize].kind {
                    Kind::Pieces(p) => p.iter().any(|x| x.is_empty()),
                    Kind::Run { min, .. } => *min == 0,
                    Kind::Oracle { .. } => true,
                },
                Seq(v) => v.iter().all(|x| self.nullable(x)),
                Alt(v) => v.iter().any(|x| self.nullable(x)),
                Plus(x) | Map(_, x) | Str(x) => self.nullable(x),
                _ => true,
            }
        }
        // rules named at the left edge of `n`
        fn left(&self, n: &Node, out: &mut Vec<u16>) {
            use Node::*;
            match n {
                Ref(i) => out.push(*i),
                Seq(v) => {
                    for x in v {
                        self.left(x, out);
                        if !self.nullable(x) {
                            break;
                        }
                    }
                }
                Tmpl(t, p, m) => self.left(&expand(*t, p, *m), out),
                Rules { body, .. } => self.left(body, out),
                other => children(other).into_iter().for_each(|x| self.left(x, out)),
            }
        }
    }
    let l = L(scripts);
    // edges between rules
    let mut edges: Vec<(u16, Vec<u16>)> = Vec::new();
    each(n, &mut |x| {
        if let Node::Rules { base, rules, .. } = x {
            for (i, r) in rules.iter().enumerate() {
                let mut o = Vec::new();
                l.left(r, &mut o);
                edges.push((base + i as u16, o));
            }
        }
    });
    for (start, _) in &edges {
        let mut seen = Vec::new();
        let mut todo = vec![*start];
        while let Some(x) = todo.pop() {
            for y in edges.iter().filter(|e| e.0 == x).flat_map(|e| e.1.iter()) {
                if y == start {
                    return true;
                }
                if !seen.contains(y) {
                    seen.push(*y);
                    todo.push(*y);
                }
            }
        }
    }
    false
}

pub fn gen(prop: &str, seed: u64) -> Session {
    let mut r = Rng::new(seed);
    let place = match r.below(4) {
        0 => PlaceS::Fresh,
        1 => PlaceS::Gaps(r.next()),
        _ => PlaceS::Lifo,
    };
    let n = 16;
    let hash_seed = r.next();
    let cases = (0..n).map(|_| case(prop, &mut r)).collect();
    Session { prop: prop.into(), seed, env: Env { place, hash_seed }, threads: false, wave: 0, one_text: false, last_words: false, tasks: vec![], faults: vec![], cases, plan: PlanS::Serial, cap: 80_000_000 }
}

/// Smaller sessions to try when minimising.
pub fn smaller(s: &Session) -> Vec<Session> {
    let mut out = Vec::new();
    let mut push = |c: Case| {
        let mut t = s.clone();
        t.cases = vec![c];
        out.push(t);
    };
    if s.cases.len() != 1 {
        return vec![];
    }
    let c = &s.cases[0];
    // fewer texts
    if c.texts.len() > 1 {
        for i in 0..c.texts.len() {
            let mut k = c.clone();
            k.texts = vec![c.texts[i].clone()];
            k.flaky = c.flaky.iter().filter(|f| f.0 == i as u32).map(|f| (0, f.1)).collect();
            push(k);
        }
        return out;
    }
    for i in 0..c.flaky.len() {
        let mut k = c.clone();
        k.flaky.remove(i);
        push(k);
    }
    // smaller patterns
    for g in shrink(&c.g) {
        if closed(&g, &mut vec![]) && !left_recursive(&g, &c.scripts) {
            let mut k = c.clone();
            k.g = g;
            push(k);
        }
    }
    // shorter text
    let cs: Vec<char> = c.texts[0].chars().collect();
    let mut w = cs.len().max(1);
    while w > 0 {
        for i in (0..cs.len()).step_by(w) {
            if i + w <= cs.len() {
                let mut k = c.clone();
                k.texts[0] = cs[..i].iter().chain(&cs[i + w..]).collect();
                push(k);
            }
        }
        w /= 2;
    }
    // simpler scripts
    let mut used = vec![false; c.scripts.len()];
    each(&c.g, &mut |n| {
        if let Node::Leaf(i) = n {
            used[*i as usize] = true
        }
    });
    for i in (0..c.scripts.len()).filter(|&i| used[i]) {
        let sc = &c.scripts[i];
        let mut v = Vec::new();
        if sc.noisy != 0 {
            v.push(Script { noisy: 0, ..sc.clone() });
        }
        if sc.far != 0 {
            v.push(Script { far: 0, ..sc.clone() });
        }
        match &sc.kind {
            Kind::Pieces(p) => {
                for j in 0..p.len() {
                    let mut q = p.clone();
                    q.remove(j);
                    v.push(Script { kind: Kind::Pieces(q), ..sc.clone() });
                }
            }
            Kind::Run { class, min, order } => {
                if *order == 2 {
                    v.push(Script { kind: Kind::Run { class: *class, min: *min, order: 0 }, ..sc.clone() });
                    v.push(Script { kind: Kind::Run { class: *class, min: *min, order: 1 }, ..sc.clone() });
                }
            }
            Kind::Oracle { .. } => {
                for w in ["", "a"] {
                    v.push(Script { kind: Kind::Pieces(vec![w.into()]), ..sc.clone() });
                }
                v.push(Script { kind: Kind::Pieces(vec!["a".into(), "".into()]), ..sc.clone() });
                v.push(Script { kind: Kind::Run { class: 0, min: 0, order: 0 }, ..sc.clone() });
                v.push(Script { kind: Kind::Run { class: 0, min: 0, order: 1 }, ..sc.clone() });
            }
        }
        for x in v {
            let mut k = c.clone();
            k.scripts[i] = x;
            push(k);
        }
    }
    // forget unused scripts
    if used.iter().any(|u| !u) {
        let map: Vec<u16> = used.iter().scan(0, |n, &u| { let x = *n; *n += u as u16; Some(x) }).collect();
        let mut k = c.clone();
        k.scripts = c.scripts.iter().zip(&used).filter(|x| *x.1).map(|x| x.0.clone()).collect();
        rename(&mut k.g, &map);
        push(k);
    }
    out
}

fn rename(n: &mut Node, map: &[u16]) {
    if let Node::Leaf(i) = n {
        *i = map[*i as usize];
    }
    for c in children_mut(n) {
        rename(c, map);
    }
}

fn closed(n: &Node, names: &mut Vec<u16>) -> bool {
    match n {
        Node::Ref(i) => names.contains(i),
        Node::Rules { base, rules, body } => {
            let d = names.len();
            names.extend(*base..*base + rules.len() as u16);
            let ok = rules.iter().all(|r| closed(r, names)) && closed(body, names);
            names.truncate(d);
            ok
        }
        _ => children(n).into_iter().all(|c| closed(c, names)),
    }
}

fn shrink(n: &Node) -> Vec<Node> {
    let mut out: Vec<Node> = children(n).into_iter().cloned().collect();
    if let Node::Tmpl(t, p, m) = n {
        out.push(expand_public(*t, p, *m));
    }
    match n {
        Node::Seq(v) | Node::Alt(v) if v.len() > 1 => {
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                out.push(if matches!(n, Node::Seq(_)) { Node::Seq(w) } else { Node::Alt(w) });
            }
        }
        Node::Leaf(_) | Node::Char(_) | Node::Ref(_) => {
            out.push(Node::Lit("".into()));
            out.push(Node::Lit("a".into()));
        }
        Node::Lit(s) if !s.is_empty() => {
            let mut c = s.chars();
            c.next();
            out.push(Node::Lit(c.as_str().into()));
        }
        _ => {}
    }
    let k = children(n).len();
    for i in 0..k {
        for x in shrink(children(n)[i]) {
            let mut m = n.clone();
            *children_mut(&mut m)[i] = x;
            out.push(m);
        }
    }
    if out.len() > 400 {
        out.truncate(400);
    }
    out
}

fn expand_public(t: u8, p: &[Node], m: u16) -> Node {
    expand(t, p, m)
}
