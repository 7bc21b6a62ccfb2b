//! Reference model: what a rule set means for a text, written from the rule table of the README.
//! It is a memoized function of (rule, position, required indentation): no cursor, no shared
//! settings, no output vector to truncate. It yields the end of the reading, the events produced,
//! and the deepest failures met on the way (failures inside a look-ahead do not count).

use crate::gram::{Set, G};
use piston_meta::{MetaData, ParseError, Range};
use crate::lex::{number_value, scan_number, scan_string, unescape};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum D { Start(Rc<str>), End(Rc<str>), Bool(Rc<str>, bool), F64(Rc<str>, f64), Str(Rc<str>, Rc<str>) }

#[derive(Clone, PartialEq, Debug)]
pub struct Ev { pub off: usize, pub len: usize, pub d: D }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Whitespace, NewLine, Something, Number, BadNumber, Text, EmptyText, BadString, Tag, DidNotExpect, Invalid, NoRules, End }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Er { pub off: usize, pub len: usize, pub k: K, pub id: usize }

impl Er { pub fn end(&self) -> usize { self.off + self.len } }

/// The deepest failures (all with the same end).
#[derive(Clone, Default, Debug)]
pub struct Errs(pub Vec<Er>);

impl Errs {
    fn push(&mut self, e: Er) {
        match self.0.first() {
            Some(f) if f.end() > e.end() => {}
            Some(f) if f.end() < e.end() => { self.0.clear(); self.0.push(e); }
            _ => if !self.0.contains(&e) { self.0.push(e) }
        }
    }
    fn merge(&mut self, o: &Errs) { for e in &o.0 { self.push(*e) } }
    pub fn depth(&self) -> Option<usize> { self.0.first().map(|e| e.end()) }
}

/// `cost`: rule applications that reading this again and again, without remembering, takes.
#[derive(Debug)]
pub struct Out { pub end: Option<usize>, pub ev: Vec<Ev>, pub errs: Errs, pub cost: u64 }

enum N {
    Ws(bool), Tag { t: String, not: bool, inv: bool, p: Option<Rc<str>> },
    UntilWs { any: Vec<char>, opt: bool, p: Option<Rc<str>> }, Until { any: Vec<char>, opt: bool, p: Option<Rc<str>> },
    Text { empty: bool, p: Option<Rc<str>> }, Num { us: bool, p: Option<Rc<str>> },
    Ref { to: Option<usize>, p: Option<Rc<str>> },
    Seq(Vec<usize>), Sel(Vec<usize>), Opt(usize), Not(usize), Rep { opt: bool, r: usize },
    Sep { opt: bool, trail: bool, by: usize, r: usize }, Lines { indent: bool, r: usize },
}

/// A rule set prepared for evaluation.
pub struct Model { nodes: Vec<(N, usize)>, roots: Vec<usize>, indents: bool, pub selects: Vec<usize> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Settings { pub indent: u32, pub align: bool, pub tab: u8 }
pub const DEFAULT: Settings = Settings { indent: 0, align: true, tab: 4 };

pub struct Eval<'a> {
    m: &'a Model, text: &'a str, s: Settings,
    memo: HashMap<(u32, u32, u32), Option<Rc<Out>>, std::hash::BuildHasherDefault<Fx>>,
    flat: Vec<Option<Option<Rc<Out>>>>, sparse: bool,
    pub left_recursive: bool,
    pub states: u64, pub transitions: u64, pub cost: u64,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u32(x as u32) } }
    fn write_u32(&mut self, x: u32) { self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95); }
}

impl Model {
    pub fn new(set: &Set) -> Model {
        let mut m = Model { nodes: vec![], roots: vec![], indents: false, selects: vec![] };
        for (n, _, g) in &set.0 {
            let mut id = n * 1000;
            let r = m.add(g, &mut id, set);
            m.roots.push(r);
        }
        m
    }
    fn add(&mut self, g: &G, id: &mut usize, set: &Set) -> usize {
        fn rc(p: &crate::gram::P) -> Option<Rc<str>> { p.map(Rc::from) }
        let n = match g {
            G::Ws(o) => N::Ws(*o),
            G::Tag { t, not, inv, p } => N::Tag { t: t.clone(), not: *not, inv: *inv, p: rc(p) },
            G::UntilWs { any, opt, p } => N::UntilWs { any: any.chars().collect(), opt: *opt, p: rc(p) },
            G::Until { any, opt, p } => N::Until { any: any.chars().collect(), opt: *opt, p: rc(p) },
            G::Text { empty, p } => N::Text { empty: *empty, p: rc(p) },
            G::Num { us, p } => N::Num { us: *us, p: rc(p) },
            G::Ref { name, p } => N::Ref { to: set.0.iter().position(|x| x.1 == *name), p: rc(p) },
            G::Seq(v) => N::Seq(v.iter().map(|g| self.add(g, id, set)).collect()),
            G::Sel(v) => N::Sel(v.iter().map(|g| self.add(g, id, set)).collect()),
            G::Opt(g) => N::Opt(self.add(g, id, set)),
            G::Not(g) => N::Not(self.add(g, id, set)),
            G::Rep { opt, r } => N::Rep { opt: *opt, r: self.add(r, id, set) },
            G::Sep { opt, trail, by, r } => { let by = self.add(by, id, set); let r = self.add(r, id, set);
                N::Sep { opt: *opt, trail: *trail, by, r } }
            G::Lines { indent, r } => { if *indent { self.indents = true; }
                N::Lines { indent: *indent, r: self.add(r, id, set) } }
        };
        *id += 1;
        if let N::Sel(_) = n { self.selects.push(*id); }
        self.nodes.push((n, *id));
        self.nodes.len() - 1
    }
}

impl Model {
    /// Whether what an error says besides its place and kind is true of the rule it names.
    /// `src` is the text under the error's range.
    pub fn says_truth(&self, e: &ParseError, src: &str) -> bool {
        match e {
            ParseError::ExpectedTag(t, id) => self.nodes.iter().any(|(n, i)| i == id && matches!(n, N::Tag { t: x, .. } if *x == **t)),
            ParseError::DidNotExpectTag(t, _) => **t == src,
            ParseError::ParseNumberError(k, _) => {
                use read_token::ParseNumberError::*;
                let d: String = src.chars().filter(|c| *c != '_').collect();
                match d.parse::<f64>() {
                    Ok(v) if v == f64::INFINITY => *k == OverflowInfinity,
                    Ok(v) if v == f64::NEG_INFINITY => *k == OverflowNegInfinity,
                    _ => *k != OverflowInfinity && *k != OverflowNegInfinity,
                }
            }
            _ => true,
        }
    }
}

impl<'a> Eval<'a> {
    pub fn new(m: &'a Model, text: &'a str, s: Settings) -> Eval<'a> {
        let sparse = m.indents || m.nodes.len().saturating_mul(text.len() + 1) > 1 << 22;
        let flat = if sparse { vec![] } else { let mut v = Vec::new(); v.resize(m.nodes.len() * (text.len() + 1), None); v };
        Eval { m, text, s, memo: HashMap::default(), flat, sparse, left_recursive: false, states: 0, transitions: 0, cost: 0 }
    }

    /// Reads the whole document: Ok(events) or Err(deepest failures).
    pub fn document(&mut self) -> Result<Vec<Ev>, Errs> {
        let root = match self.m.roots.last() {
            None => return Err(Errs(vec![Er { off: 0, len: 0, k: K::NoRules, id: 0 }])),
            Some(r) => *r,
        };
        let o = self.eval(root, 0, self.s.indent);
        match o.end {
            Some(e) if e == self.text.len() => Ok(o.ev.clone()),
            Some(e) => { let mut x = o.errs.clone(); x.push(Er { off: e, len: 0, k: K::End, id: 0 }); Err(x) }
            None => Err(o.errs.clone()),
        }
    }
    pub fn root(&mut self) -> Rc<Out> { let r = *self.m.roots.last().unwrap(); self.eval(r, 0, self.s.indent) }

    fn eval(&mut self, n: usize, pos: usize, indent: u32) -> Rc<Out> {
        self.transitions += 1;
        let key = (n as u32, pos as u32, indent);
        let fi = n * (self.text.len() + 1) + pos;
        let hit = if self.sparse { self.memo.get(&key).cloned() } else { self.flat[fi].clone() };
        match hit {
            Some(Some(o)) => { self.cost = self.cost.saturating_add(o.cost); return o; }
            Some(None) => {
                // The rule is asked for itself at the same place: left recursion.
                self.left_recursive = true;
                return Rc::new(Out { cost: 0, end: None, ev: vec![], errs: Errs::default() });
            }
            None => {}
        }
        self.states += 1;
        if self.sparse { self.memo.insert(key, None); } else { self.flat[fi] = Some(None); }
        let before = std::mem::replace(&mut self.cost, 0);
        let mut o = self.step(n, pos, indent);
        o.cost = self.cost.saturating_add(1);
        self.cost = before.saturating_add(o.cost);
        let o = Rc::new(o);
        if self.sparse { self.memo.insert(key, Some(o.clone())); } else { self.flat[fi] = Some(Some(o.clone())); }
        o
    }

    fn step(&mut self, n: usize, pos: usize, indent: u32) -> Out {
        let m = self.m;
        let id = m.nodes[n].1;
        let rest = &self.text[pos..];
        let fail = |off: usize, len: usize, k: K| Out { cost: 0, end: None, ev: vec![], errs: Errs(vec![Er { off, len, k, id }]) };
        let ok = |len: usize, p: &Option<Rc<str>>, d: &dyn Fn(Rc<str>) -> D| Out { cost: 0,
            end: Some(pos + len), errs: Errs::default(),
            ev: p.iter().map(|p| Ev { off: pos, len, d: d(p.clone()) }).collect() };
        match &m.nodes[n].0 {
            N::Ws(o) => {
                let k = rest.len() - rest.trim_start().len();
                if k == 0 && !o { fail(pos, 0, K::Whitespace) } else { ok(k, &None, &|_| unreachable!()) }
            }
            N::Tag { t, not, inv, p } => {
                let here = rest.starts_with(t.as_str());
                match (here, not) {
                    (true, false) => ok(t.len(), p, &|p| D::Bool(p, !inv)),
                    (false, true) => ok(0, p, &|p| D::Bool(p, !inv)),
                    (true, true) => fail(pos, t.len(), K::DidNotExpect),
                    (false, false) => fail(pos, 0, K::Tag),
                }
            }
            N::UntilWs { any, opt, p } => {
                let k = rest.find(|c: char| c.is_whitespace() || any.contains(&c)).unwrap_or(rest.len());
                if k == 0 && !opt { fail(pos, 0, K::Something) } else { ok(k, p, &|p| D::Str(p, Rc::from(&rest[..k]))) }
            }
            N::Until { any, opt, p } => {
                let k = rest.find(|c: char| any.contains(&c)).unwrap_or(rest.len());
                if k == 0 && !opt { fail(pos, 0, K::Something) } else { ok(k, p, &|p| D::Str(p, Rc::from(&rest[..k]))) }
            }
            N::Text { empty, p } => match scan_string(rest) {
                None => fail(pos, 0, K::Text),
                Some(2) if !empty => fail(pos, 2, K::EmptyText),
                Some(n) => match unescape(&rest[..n]) {
                    Err((o, l)) => fail(pos + o, l, K::BadString),
                    Ok(s) => ok(n, p, &|p| D::Str(p, Rc::from(s.as_str()))),
                },
            },
            N::Num { us, p } => match scan_number(rest, *us) {
                None => fail(pos, 0, K::Number),
                Some(n) => match number_value(&rest[..n], *us) {
                    None => fail(pos, n, K::BadNumber),
                    Some(v) => ok(n, p, &|p| D::F64(p, v)),
                },
            },
            N::Ref { to: None, .. } => fail(pos, 0, K::Invalid),
            N::Ref { to: Some(i), p } => {
                let o = self.eval(m.roots[*i], pos, indent);
                match (o.end, p) {
                    (Some(e), Some(p)) => {
                        let mut ev = Vec::with_capacity(o.ev.len() + 2);
                        ev.push(Ev { off: pos, len: 0, d: D::Start(p.clone()) });
                        ev.extend(o.ev.iter().cloned());
                        ev.push(Ev { off: pos, len: e - pos, d: D::End(p.clone()) });
                        Out { cost: 0, end: o.end, ev, errs: o.errs.clone() }
                    }
                    _ => Out { cost: 0, end: o.end, ev: o.ev.clone(), errs: o.errs.clone() },
                }
            }
            N::Seq(v) => {
                let (mut at, mut ev, mut errs) = (pos, vec![], Errs::default());
                for &a in v {
                    let o = self.eval(a, at, indent);
                    errs.merge(&o.errs);
                    match o.end {
                        Some(e) => { at = e; ev.extend(o.ev.iter().cloned()); }
                        None => return Out { cost: 0, end: None, ev: vec![], errs },
                    }
                }
                Out { cost: 0, end: Some(at), ev, errs }
            }
            N::Sel(v) => {
                let mut errs = Errs::default();
                for &a in v {
                    let o = self.eval(a, pos, indent);
                    errs.merge(&o.errs);
                    if o.end.is_some() { return Out { cost: 0, end: o.end, ev: o.ev.clone(), errs }; }
                }
                if v.is_empty() { return fail(pos, 0, K::Invalid); }
                Out { cost: 0, end: None, ev: vec![], errs }
            }
            N::Opt(a) => {
                let o = self.eval(*a, pos, indent);
                match o.end {
                    Some(_) => Out { cost: 0, end: o.end, ev: o.ev.clone(), errs: o.errs.clone() },
                    None => Out { cost: 0, end: Some(pos), ev: vec![], errs: o.errs.clone() },
                }
            }
            N::Not(a) => {
                match self.eval(*a, pos, indent).end {
                    Some(e) => fail(pos, e - pos, K::DidNotExpect),
                    None => Out { cost: 0, end: Some(pos), ev: vec![], errs: Errs::default() },
                }
            }
            N::Rep { opt, r } => {
                let (mut at, mut ev, mut errs, mut first) = (pos, vec![], Errs::default(), true);
                loop {
                    let o = self.eval(*r, at, indent);
                    errs.merge(&o.errs);
                    match o.end {
                        None if first && !opt => return Out { cost: 0, end: None, ev: vec![], errs },
                        None => break,
                        Some(e) => {
                            ev.extend(o.ev.iter().cloned());
                            // A repetition that reads nothing is the last one.
                            if e == at { break; }
                            at = e;
                        }
                    }
                    first = false;
                }
                Out { cost: 0, end: Some(at), ev, errs }
            }
            N::Sep { opt, trail, by, r } => {
                let (mut at, mut ev, mut errs, mut first) = (pos, vec![], Errs::default(), true);
                loop {
                    let item = at;
                    let o = self.eval(*r, at, indent);
                    errs.merge(&o.errs);
                    match o.end {
                        None => {
                            let fine = if first { *opt } else { *trail };
                            if !fine { return Out { cost: 0, end: None, ev: vec![], errs }; }
                            break;
                        }
                        Some(e) => { at = e; ev.extend(o.ev.iter().cloned()); }
                    }
                    let b = self.eval(*by, at, indent);
                    errs.merge(&b.errs);
                    match b.end {
                        None => break,
                        Some(e) => { at = e; ev.extend(b.ev.iter().cloned()); }
                    }
                    // An item that with its separator reads nothing is the last one.
                    if at == item { break; }
                    first = false;
                }
                Out { cost: 0, end: Some(at), ev, errs }
            }
            N::Lines { indent: block, r } => self.block(*block, *r, id, pos, indent),
        }
    }

    /// Line lists. `column` is the indentation the lines of an indented block must have.
    fn block(&mut self, indented: bool, item: usize, id: usize, pos: usize, enclosing: u32) -> Out {
        let (mut ev, mut errs) = (vec![], Errs::default());
        let mut at = pos;
        let mut fresh = true; // at the start of a line
        let mut column = enclosing;
        let mut align = self.s.align;
        loop {
            let rest = &self.text[at..];
            let blank = rest.len() - rest.trim_start().len();
            if blank == rest.len() { return Out { cost: 0, end: Some(self.text.len()), ev, errs }; }
            if let Some(i) = rest[..blank].rfind('\n') { at += i + 1; fresh = true; }
            if !fresh {
                errs.push(Er { off: at, len: 0, k: K::NewLine, id });
                return Out { cost: 0, end: None, ev: vec![], errs };
            }
            let mut x = at;
            let mut inner = enclosing;
            if indented {
                // A tab covers up to the configured number of spaces.
                let mut need = column;
                let b = self.text.as_bytes();
                while need > 0 {
                    match b.get(x) {
                        Some(b' ') => need -= 1,
                        Some(b'\t') => need = need.saturating_sub((self.s.tab as u32).max(0)),
                        _ => return Out { cost: 0, end: Some(at), ev, errs },
                    }
                    x += 1;
                }
                if align {
                    align = false;
                    loop {
                        match b.get(x) {
                            Some(b' ') => column += 1,
                            Some(b'\t') => column += self.s.tab as u32,
                            _ => break,
                        }
                        x += 1;
                    }
                } else if b.get(x) == Some(&b' ') { return Out { cost: 0, end: Some(at), ev, errs }; }
                inner = column + 1;
            }
            let o = self.eval(item, x, inner);
            errs.merge(&o.errs);
            let e = match o.end { None => return Out { cost: 0, end: Some(at), ev, errs }, Some(e) => e };
            ev.extend(o.ev.iter().cloned());
            // An item that ended by reading a line break starts the next line itself.
            fresh = self.text[at..e].trim_end_matches(|c: char| c != '\n' && c.is_whitespace()).ends_with('\n');
            at = e;
        }
    }
}

// ---------------------------------------------------------------- comparison with the library

pub fn same_data(d: &D, m: &MetaData) -> bool {
    match (d, m) {
        (D::Start(a), MetaData::StartNode(b)) | (D::End(a), MetaData::EndNode(b)) => **a == ***b,
        (D::Bool(a, x), MetaData::Bool(b, y)) => **a == ***b && x == y,
        (D::F64(a, x), MetaData::F64(b, y)) => **a == ***b && x.to_bits() == y.to_bits(),
        (D::Str(a, x), MetaData::String(b, y)) => **a == ***b && **x == ***y,
        _ => false,
    }
}

pub fn same_events(ev: &[Ev], m: &[Range<MetaData>], ranges: bool) -> bool {
    ev.len() == m.len() && ev.iter().zip(m).all(|(e, r)|
        same_data(&e.d, &r.data) && (!ranges || (e.off == r.offset && e.len == r.length)))
}

pub fn kind(e: &ParseError) -> (K, usize) {
    match *e {
        ParseError::ExpectedWhitespace(i) => (K::Whitespace, i),
        ParseError::ExpectedNewLine(i) => (K::NewLine, i),
        ParseError::ExpectedSomething(i) => (K::Something, i),
        ParseError::ExpectedNumber(i) => (K::Number, i),
        ParseError::ParseNumberError(_, i) => (K::BadNumber, i),
        ParseError::ExpectedText(i) => (K::Text, i),
        ParseError::EmptyTextNotAllowed(i) => (K::EmptyText, i),
        ParseError::ParseStringError(_, i) => (K::BadString, i),
        ParseError::ExpectedTag(_, i) => (K::Tag, i),
        ParseError::DidNotExpectTag(_, i) => (K::DidNotExpect, i),
        ParseError::InvalidRule(_, i) => (K::Invalid, i),
        ParseError::NoRules => (K::NoRules, 0),
        ParseError::ExpectedEnd => (K::End, 0),
        ParseError::Conversion(_) => (K::Invalid, usize::MAX),
    }
}
