//! The meta language, read by hand: text to rules, or None if the text is not a well-formed
//! document. Written from the README's rule table and the documented syntax; shares no code with
//! the library's own meta rules or its converter.

use crate::lex::*;
use piston_meta::meta_rules as mr;
use piston_meta::{Rule, Syntax};
use std::collections::HashMap;
use std::sync::Arc;

/// A string written literally or by the name of a constant.
#[derive(Clone, Debug)]
enum Set { Value(String), Const(String) }

#[derive(Clone, Debug)]
enum A {
    Ws(bool), UntilWs(Set, bool, Option<Set>), Until(Set, bool, Option<Set>), Lines(bool, Box<A>), Rep(bool, Box<A>),
    Num(bool, Option<Set>), Text(bool, Option<Set>), Ref(String, Option<Set>), Seq(Vec<A>), Sel(Vec<A>),
    Sep { opt: bool, trail: bool, by: Box<A>, r: Box<A> }, Tag { not: bool, inv: bool, text: Set, p: Option<Set> },
    Opt(Box<A>), Not(Box<A>),
}

const SEPS: &str = "[]{}():.!?\"";

#[derive(Clone, Copy)]
struct Rd<'a> { t: &'a str, at: usize }

type R<T> = Option<T>;

impl<'a> Rd<'a> {
    fn rest(&self) -> &'a str { &self.t[self.at..] }
    fn eat(&mut self, s: &str) -> bool { if self.rest().starts_with(s) { self.at += s.len(); true } else { false } }
    fn need(&mut self, s: &str) -> R<()> { if self.eat(s) { Some(()) } else { None } }
    fn ws(&mut self) -> bool { let r = self.rest(); let k = r.len() - r.trim_start().len(); self.at += k; k > 0 }
    fn name(&mut self) -> R<String> {
        let r = self.rest();
        let k = r.find(|c: char| c.is_whitespace() || SEPS.contains(c)).unwrap_or(r.len());
        if k == 0 { return None; }
        self.at += k;
        Some(r[..k].to_string())
    }
    /// A node name: not like a string constant or a built-in rule.
    fn node_name(&mut self) -> R<String> { if self.rest().starts_with(['_', '.']) { None } else { self.name() } }
    fn text(&mut self, empty: bool) -> R<String> {
        let n = scan_string(self.rest())?;
        if n == 2 && !empty { return None; }
        let s = unescape(&self.rest()[..n]).ok()?;
        self.at += n;
        Some(s)
    }
    fn set(&mut self, empty: bool) -> R<Set> {
        let mut x = *self;
        if let Some(s) = x.text(empty) { *self = x; return Some(Set::Value(s)); }
        if !self.rest().starts_with('_') { return None; }
        let mut x = *self;
        x.at += 1;
        let n = x.name()?;
        *self = x;
        Some(Set::Const(n))
    }
    fn prop(&mut self) -> Option<Set> {
        let mut x = *self;
        if x.eat(":") { if let Some(s) = x.set(false) { *self = x; return Some(s); } }
        None
    }
    fn opt(&mut self) -> R<bool> { if self.eat("?") { Some(true) } else if self.eat("!") { Some(false) } else { None } }

    fn list(&mut self, end: &str) -> R<Vec<A>> {
        self.ws();
        // Rules with whitespace in front, separated by whitespace, which may trail.
        let mut v = vec![];
        loop {
            let mut x = *self;
            x.ws();
            match x.rule() {
                Some(r) => { v.push(r); *self = x; }
                None => break,
            }
            if !self.ws() { break; }
        }
        if v.is_empty() { return None; }
        self.need(end)?;
        Some(v)
    }

    fn rule(&mut self) -> R<A> {
        if let Some(a) = self.try_(|x| { x.need(".w")?; Some(A::Ws(x.opt()?)) }) { return Some(a); }
        if let Some(a) = self.try_(|x| { x.need("..")?; let s = x.set(true)?; let o = x.opt()?; Some(A::UntilWs(s, o, x.prop())) }) { return Some(a); }
        if let Some(a) = self.try_(|x| { x.need("...")?; let s = x.set(true)?; let o = x.opt()?; Some(A::Until(s, o, x.prop())) }) { return Some(a); }
        if self.rest().starts_with(".l") { return self.try_(|x| {
            x.need(".l")?; let i = x.eat("+"); x.need("(")?; x.ws(); let r = x.rule()?; x.ws(); x.need(")")?; Some(A::Lines(i, Box::new(r))) }); }
        if self.rest().starts_with(".r") { return self.try_(|x| {
            x.need(".r")?; let o = x.opt()?; x.need("(")?; let r = x.rule()?; x.need(")")?; Some(A::Rep(o, Box::new(r))) }); }
        if self.rest().starts_with(".$") { return self.try_(|x| { x.need(".$")?; let u = x.eat("_"); Some(A::Num(u, x.prop())) }); }
        if self.rest().starts_with(".t") { return self.try_(|x| { x.need(".t")?; let o = x.opt()?; Some(A::Text(o, x.prop())) }); }
        if self.rest().starts_with(".s") { return self.try_(|x| {
            x.need(".s")?; let opt = x.opt()?; let trail = x.eat("."); x.need("(")?; x.ws();
            let by = x.rule()?; if !x.ws() { return None; } let r = x.rule()?; x.ws(); x.need(")")?;
            Some(A::Sep { opt, trail, by: Box::new(by), r: Box::new(r) }) }); }
        if self.rest().starts_with('[') { return self.try_(|x| { x.at += 1; Some(A::Seq(x.list("]")?)) }); }
        if self.rest().starts_with('{') { return self.try_(|x| { x.at += 1; Some(A::Sel(x.list("}")?)) }); }
        if let Some(a) = self.try_(|x| { let n = x.node_name()?; Some(A::Ref(n, x.prop())) }) { return Some(a); }
        if let Some(a) = self.try_(|x| {
            let not = x.eat("!");
            let text = x.set(false)?;
            let mut y = *x;
            let (mut inv, mut p) = (false, None);
            if y.eat(":") {
                let i = y.eat("!");
                if let Some(s) = y.set(false) { inv = i; p = Some(s); *x = y; }
            }
            Some(A::Tag { not, inv, text, p }) }) { return Some(a); }
        if self.rest().starts_with('?') { return self.try_(|x| { x.at += 1; Some(A::Opt(Box::new(x.rule()?))) }); }
        if self.rest().starts_with('!') { return self.try_(|x| { x.at += 1; Some(A::Not(Box::new(x.rule()?))) }); }
        None
    }
    fn try_<T>(&mut self, f: impl FnOnce(&mut Rd<'a>) -> R<T>) -> R<T> {
        let mut x = *self;
        let r = f(&mut x)?;
        *self = x;
        Some(r)
    }

    fn comment(&mut self) -> R<()> {
        if self.try_(|x| x.block_comment()).is_some() { return Some(()); }
        self.need("//")?;
        let r = self.rest();
        self.at += r.find('\n').unwrap_or(r.len());
        Some(())
    }
    /// Comments nest. One opened inside that never ends counts as text.
    fn block_comment(&mut self) -> R<()> {
        self.need("/*")?;
        loop {
            let r = self.rest();
            self.at += r.find(['*', '/'])?;
            if self.eat("*/") { return Some(()); }
            if self.eat("*") { continue; }
            if self.try_(|x| x.block_comment()).is_some() { continue; }
            self.at += 1;
        }
    }

    /// Items that each start on a new line.
    fn lines(&mut self, mut item: impl FnMut(&mut Rd<'a>) -> R<()>) -> R<()> {
        let mut fresh = true;
        loop {
            let r = self.rest();
            let blank = r.len() - r.trim_start().len();
            if blank == r.len() { self.at = self.t.len(); return Some(()); }
            if let Some(i) = r[..blank].rfind('\n') { self.at += i + 1; fresh = true; }
            if !fresh { return None; }
            let from = self.at;
            let mut x = *self;
            x.ws();
            if item(&mut x).is_none() { return Some(()); }
            self.at = x.at;
            fresh = self.t[from..self.at].trim_end_matches(|c: char| c != '\n' && c.is_whitespace()).ends_with('\n');
        }
    }
}

/// Rules of a document, not optimized, references resolved.
pub fn parse(t: &str) -> Option<Syntax> {
    let mut strings: Vec<(String, String)> = vec![];
    let mut nodes: Vec<(f64, String, A)> = vec![];
    let mut x = Rd { t, at: 0 };
    x.lines(|x| {
        if let Some(s) = x.try_(|x| { x.need("_")?; let n = x.name()?; x.need(":")?; x.ws(); Some((n, x.text(true)?)) }) { strings.push(s); return Some(()); }
        x.comment()
    })?;
    x.lines(|x| {
        if let Some(n) = x.try_(|x| {
            let k = scan_number(x.rest(), false)?;
            let id = number_value(&x.rest()[..k], false)?;
            x.at += k;
            if !x.ws() { return None; }
            let name = x.node_name()?;
            x.ws(); x.need("=")?; x.ws();
            Some((id, name, x.rule()?)) }) { nodes.push(n); return Some(()); }
        x.comment()
    })?;
    x.ws();
    if x.at != t.len() { return None; }
    let names: Vec<Arc<String>> = nodes.iter().map(|n| Arc::new(n.1.clone())).collect();
    // The first constant, or node, of a name.
    let mut strings_: HashMap<String, String> = HashMap::new();
    for (n, v) in strings { strings_.entry(n).or_insert(v); }
    let strings = strings_;
    let mut first: HashMap<String, usize> = HashMap::new();
    for (i, n) in names.iter().enumerate() { first.entry(n.to_string()).or_insert(i); }
    let nodes_at = first;
    let mut rules = vec![];
    for (id, _, a) in &nodes {
        let first = (*id as usize).checked_mul(1000)?;
        if first > usize::MAX / 2 { return None; }
        let mut id = first;
        rules.push(build(a, &mut id, &nodes_at, &strings)?);
    }
    let mut s = Syntax::new();
    s.rules = rules;
    s.names = names;
    Some(s)
}

fn build(a: &A, id: &mut usize, names: &HashMap<String, usize>, strings: &HashMap<String, String>) -> Option<Rule> {
    let set = |s: &Set| -> Option<Arc<String>> { match s {
        Set::Value(v) => Some(Arc::new(v.clone())),
        Set::Const(n) => strings.get(n).map(|x| Arc::new(x.clone())),
    } };
    let prop = |p: &Option<Set>| -> Option<Option<Arc<String>>> { match p { None => Some(None), Some(s) => set(s).map(Some) } };
    macro_rules! sub { ($a:expr) => { build($a, id, names, strings)? } }
    macro_rules! next { () => {{ *id += 1; *id }} }
    Some(match a {
        A::Ws(o) => Rule::Whitespace(mr::Whitespace { optional: *o, debug_id: next!() }),
        A::UntilWs(s, o, p) => Rule::UntilAnyOrWhitespace(mr::UntilAnyOrWhitespace { any_characters: set(s)?, optional: *o, property: prop(p)?, debug_id: next!() }),
        A::Until(s, o, p) => Rule::UntilAny(mr::UntilAny { any_characters: set(s)?, optional: *o, property: prop(p)?, debug_id: next!() }),
        A::Num(u, p) => Rule::Number(mr::Number { allow_underscore: *u, property: prop(p)?, debug_id: next!() }),
        A::Text(e, p) => Rule::Text(mr::Text { allow_empty: *e, property: prop(p)?, debug_id: next!() }),
        A::Ref(n, p) => Rule::Node(mr::Node { name: Arc::new(n.clone()), property: prop(p)?, debug_id: next!(), index: names.get(n).copied() }),
        A::Tag { not, inv, text, p } => Rule::Tag(mr::Tag { not: *not, inverted: *inv, text: set(text)?, property: prop(p)?, debug_id: next!() }),
        A::Seq(v) => { let mut args = vec![]; for x in v { args.push(sub!(x)); } Rule::Sequence(mr::Sequence { args, debug_id: next!() }) }
        A::Sel(v) => { let mut args = vec![]; for x in v { args.push(sub!(x)); } Rule::Select(mr::Select { args, debug_id: next!() }) }
        A::Lines(i, r) => { let rule = sub!(r); Rule::Lines(Box::new(mr::Lines { rule, indent: *i, debug_id: next!() })) }
        A::Rep(o, r) => { let rule = sub!(r); Rule::Repeat(Box::new(mr::Repeat { rule, optional: *o, debug_id: next!() })) }
        A::Opt(r) => { let rule = sub!(r); Rule::Optional(Box::new(mr::Optional { rule, debug_id: next!() })) }
        A::Not(r) => { let rule = sub!(r); Rule::Not(Box::new(mr::Not { rule, debug_id: next!() })) }
        A::Sep { opt, trail, by, r } => { let by = sub!(by); let rule = sub!(r);
            Rule::SeparateBy(Box::new(mr::SeparateBy { by, rule, optional: *opt, allow_trail: *trail, debug_id: next!() })) }
    })
}
