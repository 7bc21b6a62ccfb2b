//! Rule sets of the harness: a plain tree type, its translation to the library's rules and to
//! meta language text, and enumeration of all trees over an alphabet by unranking.

use piston_meta::meta_rules as mr;
use piston_meta::{Rule, Syntax};
use std::sync::Arc;

pub type P = Option<&'static str>;

#[derive(Clone, PartialEq, Debug)]
pub enum G {
    /// Whitespace; true = optional.
    Ws(bool),
    Tag { t: String, not: bool, inv: bool, p: P },
    UntilWs { any: String, opt: bool, p: P },
    Until { any: String, opt: bool, p: P },
    Text { empty: bool, p: P },
    Num { us: bool, p: P },
    Ref { name: String, p: P },
    Seq(Vec<G>),
    Sel(Vec<G>),
    Opt(Box<G>),
    Not(Box<G>),
    Rep { opt: bool, r: Box<G> },
    Sep { opt: bool, trail: bool, by: Box<G>, r: Box<G> },
    Lines { indent: bool, r: Box<G> },
}
use G::*;

pub fn tag(t: &str) -> G { Tag { t: t.into(), not: false, inv: false, p: None } }
pub fn tagp(t: &str, p: &'static str) -> G { Tag { t: t.into(), not: false, inv: false, p: Some(p) } }
pub fn nottag(t: &str) -> G { Tag { t: t.into(), not: true, inv: false, p: None } }
pub fn rf(n: &str) -> G { Ref { name: n.into(), p: None } }
pub fn rfp(n: &str, p: &'static str) -> G { Ref { name: n.into(), p: Some(p) } }
pub fn seq(v: Vec<G>) -> G { Seq(v) }
pub fn sel(v: Vec<G>) -> G { Sel(v) }
pub fn opt(g: G) -> G { Opt(Box::new(g)) }
pub fn not(g: G) -> G { Not(Box::new(g)) }
pub fn rep(o: bool, g: G) -> G { Rep { opt: o, r: Box::new(g) } }
pub fn sep(o: bool, t: bool, by: G, r: G) -> G { Sep { opt: o, trail: t, by: Box::new(by), r: Box::new(r) } }
pub fn lines(i: bool, g: G) -> G { Lines { indent: i, r: Box::new(g) } }
pub fn num(p: &'static str) -> G { Num { us: false, p: Some(p) } }
pub fn w0() -> G { Ws(true) }
pub fn w1() -> G { Ws(false) }

/// A rule set: (node number, name, rule). The last node reads the document.
#[derive(Clone, PartialEq, Debug)]
pub struct Set(pub Vec<(usize, String, G)>);

impl Set {
    pub fn one(g: G) -> Set { Set(vec![(1, "d".into(), g)]) }
    pub fn names(&self) -> Vec<Arc<String>> { self.0.iter().map(|x| Arc::new(x.1.clone())).collect() }

    /// The library's rules for this set, debug ids numbered as the meta language documents
    /// (number * 1000 + position in order of reading, sub rules before the rule around them),
    /// references resolved to the first node of that name.
    pub fn syntax(&self) -> Syntax {
        let names = self.names();
        let mut s = Syntax::new();
        for ((n, _, g), name) in self.0.iter().zip(&names) { let mut id = n * 1000; s.push(name.clone(), rule(g, &mut id, &names)); }
        s
    }

    /// Meta language text of the set, one node per line.
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (n, name, g) in &self.0 { s.push_str(&format!("{} {} = {}\n", n, name, text(g))); }
        s
    }
}

fn arc(p: &P) -> Option<Arc<String>> { p.map(|s| Arc::new(s.to_string())) }

pub fn rule(g: &G, id: &mut usize, names: &[Arc<String>]) -> Rule {
    macro_rules! next { () => {{ *id += 1; *id }} }
    match g {
        Ws(o) => Rule::Whitespace(mr::Whitespace { optional: *o, debug_id: next!() }),
        Tag { t, not, inv, p } => Rule::Tag(mr::Tag {
            text: Arc::new(t.clone()), not: *not, inverted: *inv, property: arc(p), debug_id: next!() }),
        UntilWs { any, opt, p } => Rule::UntilAnyOrWhitespace(mr::UntilAnyOrWhitespace {
            any_characters: Arc::new(any.clone()), optional: *opt, property: arc(p), debug_id: next!() }),
        Until { any, opt, p } => Rule::UntilAny(mr::UntilAny {
            any_characters: Arc::new(any.clone()), optional: *opt, property: arc(p), debug_id: next!() }),
        Text { empty, p } => Rule::Text(mr::Text {
            allow_empty: *empty, property: arc(p), debug_id: next!() }),
        Num { us, p } => Rule::Number(mr::Number { property: arc(p), debug_id: next!(), allow_underscore: *us }),
        Ref { name, p } => Rule::Node(mr::Node { name: Arc::new(name.clone()), property: arc(p), debug_id: next!(),
            index: names.iter().position(|n| &**n == name) }),
        Seq(v) => { let args = v.iter().map(|g| rule(g, id, names)).collect();
            Rule::Sequence(mr::Sequence { args, debug_id: next!() }) }
        Sel(v) => { let args = v.iter().map(|g| rule(g, id, names)).collect();
            Rule::Select(mr::Select { args, debug_id: next!() }) }
        Opt(g) => { let r = rule(g, id, names); Rule::Optional(Box::new(mr::Optional { rule: r, debug_id: next!() })) }
        Not(g) => { let r = rule(g, id, names);
            Rule::Not(Box::new(mr::Not { rule: r, debug_id: next!() })) }
        Rep { opt, r } => { let r = rule(r, id, names);
            Rule::Repeat(Box::new(mr::Repeat { rule: r, optional: *opt, debug_id: next!() })) }
        Sep { opt, trail, by, r } => { let by = rule(by, id, names); let r = rule(r, id, names);
            Rule::SeparateBy(Box::new(mr::SeparateBy { rule: r, by, optional: *opt, allow_trail: *trail, debug_id: next!() })) }
        Lines { indent, r } => { let r = rule(r, id, names);
            Rule::Lines(Box::new(mr::Lines { rule: r, debug_id: next!(), indent: *indent })) }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn prop(p: &P) -> String { p.map(|s| format!(":{}", quote(s))).unwrap_or_default() }
fn om(o: bool) -> &'static str { if o { "?" } else { "!" } }

/// Meta language text. Rules the language cannot express (a `not` directly around a plain token,
/// empty sequences, inverted tokens without a name) come out as the nearest readable text.
pub fn text(g: &G) -> String {
    match g {
        Ws(o) => format!(".w{}", om(*o)),
        Tag { t, not, inv, p } => format!("{}{}{}", if *not { "!" } else { "" }, quote(t),
            p.map(|s| format!(":{}{}", if *inv { "!" } else { "" }, quote(s))).unwrap_or_default()),
        UntilWs { any, opt, p } => format!("..{}{}{}", quote(any), om(*opt), prop(p)),
        Until { any, opt, p } => format!("...{}{}{}", quote(any), om(*opt), prop(p)),
        Text { empty, p } => format!(".t{}{}", om(*empty), prop(p)),
        Num { us, p } => format!(".${}{}", if *us { "_" } else { "" }, prop(p)),
        Ref { name, p } => format!("{}{}", name, prop(p)),
        Seq(v) => format!("[{}]", v.iter().map(text).collect::<Vec<_>>().join(" ")),
        Sel(v) => format!("{{{}}}", v.iter().map(text).collect::<Vec<_>>().join(" ")),
        Opt(g) => format!("?{}", text(g)),
        Not(g) => format!("!{}", text(g)),
        Rep { opt, r } => format!(".r{}({})", om(*opt), text(r)),
        Sep { opt, trail, by, r } => format!(".s{}{}({} {})", om(*opt), if *trail { "." } else { "" }, text(by), text(r)),
        Lines { indent, r } => format!(".l{}({})", if *indent { "+" } else { "" }, text(r)),
    }
}

/// Whether the tree can be written in the meta language with literals alone.
pub fn expressible(g: &G) -> bool {
    match g {
        Tag { t, inv, p, .. } => !t.is_empty() && (p.is_some() || !inv),
        Seq(v) | Sel(v) => !v.is_empty() && v.iter().all(expressible),
        Not(g) => expressible(g) && !matches!(**g, Tag { not: false, .. }),
        Opt(g) => expressible(g),
        Rep { r, .. } | Lines { r, .. } => expressible(r),
        Sep { by, r, .. } => expressible(by) && expressible(r),
        _ => true,
    }
}

// ---------------------------------------------------------------- enumeration

pub type Un = fn(G) -> G;
pub type Bi = fn(G, G) -> G;

/// All trees with a given number of nodes over leaves, unary and binary operators.
#[derive(Clone)]
pub struct Space { pub leaves: Vec<G>, pub un: Vec<Un>, pub bi: Vec<Bi> }

impl Space {
    /// counts[n] = number of trees with n nodes (index 0 unused).
    pub fn counts(&self, max: usize) -> Vec<u64> {
        let mut c = vec![0u64; max + 1];
        for n in 1..=max {
            c[n] = if n == 1 { self.leaves.len() as u64 } else {
                let mut t = self.un.len() as u64 * c[n - 1];
                for a in 1..n - 1 { t += self.bi.len() as u64 * c[a] * c[n - 1 - a]; }
                t
            };
        }
        c
    }
    pub fn tree(&self, n: usize, mut i: u64, c: &[u64]) -> G {
        if n == 1 { return self.leaves[i as usize].clone(); }
        let u = self.un.len() as u64 * c[n - 1];
        if i < u { return self.un[(i / c[n - 1]) as usize](self.tree(n - 1, i % c[n - 1], c)); }
        i -= u;
        for a in 1..n - 1 {
            let b = n - 1 - a;
            let k = self.bi.len() as u64 * c[a] * c[b];
            if i < k {
                let op = (i / (c[a] * c[b])) as usize;
                let j = i % (c[a] * c[b]);
                return self.bi[op](self.tree(a, j / c[b], c), self.tree(b, j % c[b], c));
            }
            i -= k;
        }
        unreachable!()
    }
}

/// All strings over an alphabet of symbols, up to a length, shortest first.
#[derive(Clone)]
pub struct Words { pub sym: Vec<String>, pub max: usize }

impl Words {
    pub fn new(sym: &[&str], max: usize) -> Words { Words { sym: sym.iter().map(|s| s.to_string()).collect(), max } }
    pub fn count(&self) -> u64 { (0..=self.max).map(|n| (self.sym.len() as u64).pow(n as u32)).sum() }
    pub fn digits(&self, mut i: u64) -> Vec<usize> {
        let k = self.sym.len() as u64;
        let mut n = 0;
        while i >= k.pow(n as u32) { i -= k.pow(n as u32); n += 1; }
        let mut d = vec![0; n];
        for j in (0..n).rev() { d[j] = (i % k) as usize; i /= k; }
        d
    }
    pub fn word(&self, i: u64) -> String { self.digits(i).into_iter().map(|d| self.sym[d].as_str()).collect() }
    pub fn all(&self) -> Vec<String> { (0..self.count()).map(|i| self.word(i)).collect() }
}

/// Leaf rules of every kind with every flag, over a few strings and names.
pub fn flagged() -> Vec<G> {
    let mut v = vec![w0(), w1()];
    for p in [None, Some("p"), Some("q")] {
        for o in [false, true] {
            for t in ["a", "b", "ab"] {
                v.push(Tag { t: t.into(), not: o, inv: false, p });
                if p.is_some() { v.push(Tag { t: t.into(), not: o, inv: true, p }); }
                if t != "ab" || p == Some("p") { v.push(Until { any: t.into(), opt: o, p }); v.push(UntilWs { any: t.into(), opt: o, p }); }
            }
            v.push(Text { empty: o, p });
            v.push(Num { us: o, p });
        }
        for x in ["x", "y", "gone"] { v.push(Ref { name: x.into(), p }); }
    }
    v
}

/// A rule around a leaf, for neighbours that are not leaves.
pub const WRAPS: [fn(G) -> G; 11] = [|g| opt(g), |g| not(g), |g| rep(true, g), |g| rep(false, g), |g| lines(false, g), |g| lines(true, g), |g| seq(vec![g.clone(), g]),
    |g| sel(vec![g, tag("b")]), |g| sep(true, false, tag("b"), g), |g| sep(false, true, tag("b"), g), |g| sep(true, true, g, tag("a"))];
/// Two rules side by side.
pub const BESIDE: [fn(G, G) -> G; 12] = [|a, b| seq(vec![a, b]), |a, b| sel(vec![a, b]), |a, b| sep(true, true, a, b), |a, b| sep(false, false, a, b), |a, b| seq(vec![a, tag("b"), b]), |a, b| sel(vec![tag("z"), a, b]),
    |a, b| seq(vec![opt(a), rep(true, b)]), |a, b| seq(vec![seq(vec![a]), b]), |a, b| sel(vec![a, seq(vec![b, w0()])]), |a, b| sel(vec![seq(vec![a.clone(), tag("b")]), seq(vec![b, a])]),
    |a, b| lines(false, sel(vec![a, b])), |a, b| seq(vec![not(a), b])];

/// Rules that differ in little, next to each other; every ordered pair.
pub fn neighbours() -> (String, u64, impl Fn(u64) -> Set + Send + Sync + Clone + 'static) {
    let l = flagged();
    let s: Vec<G> = [tag("a"), tagp("a", "p"), Tag { t: "a".into(), not: false, inv: true, p: Some("p") }, nottag("a"), num("p"), Ref { name: "x".into(), p: Some("p") }, rf("x"), Until { any: "b".into(), opt: false, p: Some("p") }].into();
    let (n, k, w, b) = (l.len() as u64, s.len() as u64, WRAPS.len() as u64, BESIDE.len() as u64);
    let plain = n * n * b;
    let total = plain + (w * k) * (w * k) * 2;
    let bound = format!("every ordered pair of {} leaf rules (every kind with all its flags, over three strings, names and nodes) in {} surroundings; every ordered pair of {} wrapped leaves ({} wraps) in a sequence and a selection", n, b, w * k, w);
    (bound, total, move |i| {
        let g = if i < plain { BESIDE[(i % b) as usize](l[(i / b / n) as usize].clone(), l[(i / b % n) as usize].clone()) } else {
            let i = i - plain;
            let of = |j: u64| WRAPS[(j / k) as usize](s[(j % k) as usize].clone());
            let (x, y) = (of(i / 2 / (w * k)), of(i / 2 % (w * k)));
            if i % 2 == 0 { seq(vec![x, y]) } else { sel(vec![x, y]) }
        };
        Set(vec![(1, "x".into(), tagp("a", "p")), (2, "y".into(), sel(vec![tag("b"), num("q")])), (3, "d".into(), g)])
    })
}

/// Long strings and, for each, those that differ from it in one place.
pub fn long_near(thorough: bool) -> Vec<(String, Vec<String>)> {
    let mut lens = vec![8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000, 1025];
    if thorough { lens.extend(2..8); lens.extend([10, 11, 13, 14, 18, 19, 21, 22, 23, 25, 28, 30, 36, 56, 72, 80, 96, 160, 192, 320, 384, 511, 512, 513, 768, 2047, 2048, 4096, 5000]); lens.sort(); }
    lens.into_iter().map(|n| {
        let c: Vec<char> = ('a'..='z').cycle().take(n).collect();
        let s = |c: &[char]| c.iter().collect::<String>();
        let at: Vec<usize> = (0..n).filter(|&i| n <= 65 || thorough && n <= 300 || i < 18 || n - i <= 18 || i == n / 2 || i == n / 3 || i.is_power_of_two() || (i + 1).is_power_of_two()).collect();
        let mut v = vec![];
        for &i in &at {
            let mut d = c.clone(); d[i] = if i % 2 == 0 { 'Z' } else { 'é' }; v.push(s(&d));
            let mut d = c.clone(); d[i] = d[i].to_ascii_uppercase(); v.push(s(&d));
            if i + 1 < n { let mut d = c.clone(); d.swap(i, i + 1); v.push(s(&d)); }
        }
        v.push(s(&c[1..])); v.push(s(&c[..n - 1])); v.push(s(&c) + "a"); v.push("z".to_string() + &s(&c));
        (s(&c), v)
    }).collect()
}
