//! C13: converting meta data to rules.

use crate::engine::*;
use crate::p_meta::*;
use crate::p_parse::rule_eq;
use piston_meta::meta_rules as mr;
use piston_meta::{bootstrap, MetaData, Range, Rule, Syntax};
use std::collections::BTreeSet;
use std::sync::Arc;

// ---------------------------------------------------------------- model

enum T<'a> { Leaf(&'a MetaData, usize), Node(&'a str, Vec<T<'a>>, usize, usize) }

fn span(t: &T) -> (usize, usize) { match t { T::Leaf(_, i) => (*i, *i + 1), T::Node(_, _, a, b) => (*a, *b) } }

fn tree(d: &[MetaData]) -> Option<Vec<T<'_>>> {
    let mut st: Vec<(&str, usize, Vec<T>)> = vec![("", 0, vec![])];
    for (i, x) in d.iter().enumerate() {
        match x {
            MetaData::StartNode(n) => st.push((n, i, vec![])),
            MetaData::EndNode(n) => {
                if st.len() == 1 { return None; }
                let (m, a, c) = st.pop().unwrap();
                if m != n.as_str() { return None; }
                st.last_mut().unwrap().2.push(T::Node(m, c, a, i + 1));
            }
            x => st.last_mut().unwrap().2.push(T::Leaf(x, i)),
        }
    }
    if st.len() == 1 { Some(st.pop().unwrap().2) } else { None }
}

struct M<'a> { strings: Vec<(&'a str, &'a str)>, ignored: Vec<(usize, usize)>, id: usize }

type Name = Arc<String>;

impl<'a> M<'a> {
    fn skip(&mut self, t: &T) { self.ignored.push(span(t)); }
    fn bool_(t: &T, name: &str) -> Option<bool> { match t { T::Leaf(MetaData::Bool(n, v), _) if **n == name => Some(*v), _ => None } }
    fn str_<'b>(t: &T<'b>, name: &str) -> Option<&'b Name> { match t { T::Leaf(MetaData::String(n, v), _) if **n == name => Some(v), _ => None } }

    /// A string written literally or by name: children are nothing but these.
    fn set(&self, t: &T, prop: &str) -> Option<Name> {
        let c = match t { T::Node(n, c, _, _) if *n == prop => c, _ => return None };
        let mut v = None;
        for x in c {
            if let Some(s) = Self::str_(x, "value") { v = Some(s.clone()); }
            else if let Some(s) = Self::str_(x, "ref") { v = self.strings.iter().find(|y| y.0 == s.as_str()).map(|y| Arc::new(y.1.to_string())); }
            else { return None; }
        }
        v
    }
    fn next(&mut self) -> usize { self.id += 1; self.id }

    /// Node `prop` around exactly one rule.
    fn rule(&mut self, t: &T, prop: &str) -> Option<Rule> {
        match t { T::Node(n, c, _, _) if *n == prop && c.len() == 1 => match &c[0] { T::Node(k, c, _, _) => self.kind(k, c), _ => None }, _ => None }
    }

    fn kind(&mut self, k: &str, c: &[T]) -> Option<Rule> {
        let (mut a, mut b, mut any, mut prop, mut name) = (None, None, None, None, None);
        let (mut r1, mut r2) = (None, None);
        match k {
            "sequence" | "select" => {
                let mut args = vec![];
                for x in c { match self.rule(x, "rule") { Some(r) => args.push(r), None => self.skip(x) } }
                let debug_id = self.next();
                Some(if k == "select" { Rule::Select(mr::Select { args, debug_id }) } else { Rule::Sequence(mr::Sequence { args, debug_id }) })
            }
            "until_any_or_whitespace" | "until_any" => {
                for x in c {
                    if let Some(s) = self.set(x, "any_characters") { any = Some(s) } else if let Some(v) = Self::bool_(x, "optional") { a = Some(v) }
                    else if let Some(s) = self.set(x, "property") { prop = Some(s) } else { self.skip(x) }
                }
                let (any_characters, optional, property) = (any?, a.unwrap_or(false), prop);
                let debug_id = self.next();
                Some(if k == "until_any" { Rule::UntilAny(mr::UntilAny { any_characters, optional, property, debug_id }) }
                    else { Rule::UntilAnyOrWhitespace(mr::UntilAnyOrWhitespace { any_characters, optional, property, debug_id }) })
            }
            "tag" => {
                for x in c {
                    if let Some(s) = self.set(x, "text") { any = Some(s) } else if let Some(s) = self.set(x, "property") { prop = Some(s) }
                    else if let Some(v) = Self::bool_(x, "not") { a = Some(v) } else if let Some(v) = Self::bool_(x, "inverted") { b = Some(v) } else { self.skip(x) }
                }
                let text = any?;
                Some(Rule::Tag(mr::Tag { text, not: a.unwrap_or(false), inverted: b.unwrap_or(false), property: prop, debug_id: self.next() }))
            }
            "whitespace" => {
                if c.len() != 1 { return None; }
                let optional = Self::bool_(&c[0], "optional")?;
                Some(Rule::Whitespace(mr::Whitespace { optional, debug_id: self.next() }))
            }
            "text" => {
                for x in c { if let Some(v) = Self::bool_(x, "allow_empty") { a = Some(v) } else if let Some(s) = self.set(x, "property") { prop = Some(s) } else { self.skip(x) } }
                Some(Rule::Text(mr::Text { allow_empty: a.unwrap_or(true), property: prop, debug_id: self.next() }))
            }
            "number" => {
                for x in c { if let Some(s) = self.set(x, "property") { prop = Some(s) } else if let Some(v) = Self::bool_(x, "underscore") { a = Some(v) } else { self.skip(x) } }
                Some(Rule::Number(mr::Number { allow_underscore: a.unwrap_or(false), property: prop, debug_id: self.next() }))
            }
            "reference" => {
                for x in c { if let Some(s) = Self::str_(x, "name") { name = Some(s.clone()) } else if let Some(s) = self.set(x, "property") { prop = Some(s) } else { self.skip(x) } }
                let name = name?;
                Some(Rule::Node(mr::Node { name, property: prop, debug_id: self.next(), index: None }))
            }
            "optional" | "not" => {
                if c.len() != 1 { return None; }
                let rule = self.rule(&c[0], "rule")?;
                let debug_id = self.next();
                Some(if k == "not" { Rule::Not(Box::new(mr::Not { rule, debug_id })) } else { Rule::Optional(Box::new(mr::Optional { rule, debug_id })) })
            }
            "separated_by" => {
                for x in c {
                    if let Some(v) = Self::bool_(x, "optional") { a = Some(v) } else if let Some(v) = Self::bool_(x, "allow_trail") { b = Some(v) }
                    else if let Some(r) = self.rule(x, "by") { r1 = Some(r) } else if let Some(r) = self.rule(x, "rule") { r2 = Some(r) } else { self.skip(x) }
                }
                let (by, rule) = (r1?, r2?);
                Some(Rule::SeparateBy(Box::new(mr::SeparateBy { by, rule, optional: a.unwrap_or(true), allow_trail: b.unwrap_or(false), debug_id: self.next() })))
            }
            "lines" => {
                let (indent, c) = match c.first().and_then(|x| Self::bool_(x, "indent")) { Some(v) => (v, &c[1..]), None => (false, c) };
                if c.len() != 1 { return None; }
                let rule = self.rule(&c[0], "rule")?;
                Some(Rule::Lines(Box::new(mr::Lines { rule, indent, debug_id: self.next() })))
            }
            "repeat" => {
                for x in c { if let Some(r) = self.rule(x, "rule") { r1 = Some(r) } else if let Some(v) = Self::bool_(x, "optional") { a = Some(v) } else { self.skip(x) } }
                let (rule, optional) = (r1?, a?);
                Some(Rule::Repeat(Box::new(mr::Repeat { rule, optional, debug_id: self.next() })))
            }
            _ => None,
        }
    }
}

/// Rules described by the meta data and what is not understood of it.
fn model(d: &[MetaData]) -> Option<(Syntax, Vec<(usize, usize)>)> {
    let t = tree(d)?;
    let mut m = M { strings: vec![], ignored: vec![], id: 0 };
    let mut k = 0;
    while let Some(T::Node("string", c, _, _)) = t.get(k) {
        let (mut name, mut text) = (None, None);
        let mut fine = true;
        for x in c {
            if let Some(s) = M::str_(x, "name") { name = Some(s) } else if let Some(s) = M::str_(x, "text") { text = Some(s) } else { fine = false }
        }
        match (fine, name, text) { (true, Some(n), Some(s)) => m.strings.push((n, s)), _ => break }
        k += 1;
    }
    let mut out = Syntax::new();
    for x in &t[k..] {
        let c = match x { T::Node("node", c, _, _) => c, _ => return None };
        let (mut id, mut name, mut rule) = (0usize, None, None);
        for y in c {
            if let T::Leaf(MetaData::F64(n, v), _) = y { if **n == "id" { id = *v as usize; continue; } }
            if let Some(s) = M::str_(y, "name") { name = Some(s.clone()); continue; }
            m.id = id.checked_mul(1000)?;
            if m.id > usize::MAX / 2 { return None; }
            match m.rule(y, "rule") { Some(r) => rule = Some(r), None => m.skip(y) }
        }
        out.push(name?, rule?);
    }
    let names = out.names.clone();
    for r in &mut out.rules { refs(r, &names); }
    Some((out, m.ignored))
}

fn refs(r: &mut Rule, names: &[Name]) {
    match r {
        Rule::Node(n) => n.index = names.iter().position(|x| *x == n.name),
        Rule::Sequence(x) => for a in &mut x.args { refs(a, names) },
        Rule::Select(x) => for a in &mut x.args { refs(a, names) },
        Rule::SeparateBy(x) => { refs(&mut x.by, names); refs(&mut x.rule, names) }
        Rule::Repeat(x) => refs(&mut x.rule, names), Rule::Lines(x) => refs(&mut x.rule, names),
        Rule::Optional(x) => refs(&mut x.rule, names), Rule::Not(x) => refs(&mut x.rule, names),
        _ => {}
    }
}

fn cover(v: impl Iterator<Item = (usize, usize)>) -> BTreeSet<usize> { v.flat_map(|(a, b)| a..b).collect() }

fn short(d: &[MetaData]) -> String {
    d.iter().map(|x| match x {
        MetaData::StartNode(n) => format!("<{}", n), MetaData::EndNode(n) => format!("{}>", n), MetaData::Bool(n, v) => format!("{}={}", n, v),
        MetaData::F64(n, v) => format!("{}={:?}", n, v), MetaData::String(n, v) => format!("{}={:?}", n, v) }).collect::<Vec<_>>().join(" ")
}

pub fn ranged(d: &[MetaData]) -> Vec<Range<MetaData>> { d.iter().enumerate().map(|(i, x)| Range::new(i * 3, 1 + i % 2).wrap(x.clone())).collect() }

fn case(d: &[MetaData], cx: &mut Cx) -> bool {
    cx.inc("states"); cx.add("transitions", d.len() as u64); cx.inc("executions");
    cx.note(|| short(d));
    let data = ranged(d);
    let want = model(d);
    let before = Range::new(77, 7);
    let mut ignored = vec![before];
    let got = guard(BUDGET, || bootstrap::convert(&data, &mut ignored));
    let bad = match (&want, &got) {
        (_, Err(e)) => Some(format!("convert {}", e)),
        (None, Ok(Err(()))) => { cx.inc("refused"); None }
        (None, Ok(Ok(s))) => Some(format!("expected: refused\nlibrary: {:?}", s)),
        (Some(w), Ok(Err(()))) => Some(format!("expected: {:?}\nlibrary refuses it", w)),
        (Some((w, ig)), Ok(Ok(s))) => {
            let a = cover(ig.iter().copied());
            if ignored[0] != before { Some("earlier ignored ranges were changed".into()) }
            else if ignored[1..].iter().any(|r| r.next_offset() > d.len() || r.length == 0) { Some(format!("ignored {:?} lies outside the data", ignored)) }
            else {
                let b = cover(ignored[1..].iter().map(|r| (r.offset, r.next_offset())));
                if ig.is_empty() { cx.inc("converted") } else { cx.inc("converted, parts ignored") }
                let same = if ig.is_empty() { s.names == w.names && s.rules.len() == w.rules.len() && s.rules.iter().zip(&w.rules).all(|(a, b)| rule_eq(a, b)) }
                    else { s.names == w.names && s.rules.len() == w.rules.len() && s.rules.iter().zip(&w.rules).all(|(a, b)| rule_eq(&unnumbered(a), &unnumbered(b))) };
                if !same { Some(format!("expected: {:?}\nlibrary: {:?}", w, s)) }
                else if a != b { Some(format!("entries not understood: {:?}\nlisted as ignored: {:?}", a, ignored)) }
                else { None }
            }
        }
    };
    cx.sample(|| short(d));
    match bad { None => true, Some(b) => { cx.violation(short(d), format!("meta data: {}\n{}", short(d), b)); !cx.failed() } }
}

// ---------------------------------------------------------------- spaces

fn n(s: &str) -> Name { Arc::new(s.to_string()) }
fn st(s: &str) -> MetaData { MetaData::StartNode(n(s)) }
fn en(s: &str) -> MetaData { MetaData::EndNode(n(s)) }
fn bo(s: &str, v: bool) -> MetaData { MetaData::Bool(n(s), v) }
fn fl(s: &str, v: f64) -> MetaData { MetaData::F64(n(s), v) }
fn sr(s: &str, v: &str) -> MetaData { MetaData::String(n(s), n(v)) }
fn wrap(s: &str, d: Vec<MetaData>) -> Vec<MetaData> { let mut v = vec![st(s)]; v.extend(d); v.push(en(s)); v }

const KINDS: [&str; 14] = ["sequence", "select", "until_any_or_whitespace", "until_any", "tag", "whitespace", "text", "number", "reference", "optional", "not", "separated_by", "lines", "repeat"];

/// Parts that may stand inside any kind of rule.
fn parts() -> Vec<Vec<MetaData>> {
    let ws = wrap("whitespace", vec![bo("optional", true)]);
    vec![
        wrap("rule", ws.clone()), wrap("by", wrap("number", vec![])), wrap("rule", wrap("tag", vec![])), wrap("rule", [ws.clone(), ws].concat()),
        wrap("text", vec![sr("value", "t")]), wrap("property", vec![sr("ref", "s")]), wrap("property", vec![sr("ref", "undefined")]), wrap("any_characters", vec![sr("value", "")]),
        wrap("any_characters", vec![sr("value", "x"), bo("more", true)]), wrap("property", vec![]),
        vec![bo("optional", true)], vec![bo("optional", false)], vec![bo("not", true)], vec![bo("inverted", true)], vec![bo("allow_empty", false)], vec![bo("allow_trail", true)], vec![bo("underscore", true)], vec![bo("indent", true)],
        vec![sr("name", "d")], vec![sr("optional", "x")], vec![bo("name", true)], vec![bo("unknown", true)], wrap("unknown", wrap("rule", vec![fl("id", 1.0)])),
        wrap("rule", wrap("sequence", vec![bo("extra", true)])),
    ]
}

fn in_kinds(max: usize) -> Family {
    let p = parts();
    let k = p.len() as u64;
    let per: u64 = (0..=max as u32).map(|j| k.pow(j)).sum();
    fam("kinds", format!("each of the {} kinds of rule with every sequence of up to {} out of {} parts inside (rules, names, flags, literal, constant and undefined strings, unknown and malformed parts), alone in a node with one string defined", KINDS.len(), max, k), KINDS.len() as u64 * ((per + 511) / 512), move |u, cx| {
        let kind = KINDS[(u % KINDS.len() as u64) as usize];
        let c = u / KINDS.len() as u64;
        for mut i in c * 512..((c + 1) * 512).min(per) {
            let mut j = 0;
            while i >= k.pow(j) { i -= k.pow(j); j += 1; }
            let mut inner = vec![];
            for _ in 0..j { inner.extend(p[(i % k) as usize].clone()); i /= k; }
            let mut d = wrap("string", vec![sr("name", "s"), sr("text", "S")]);
            d.extend(wrap("node", [vec![fl("id", 3.0), sr("name", "d")], wrap("rule", wrap(kind, inner))].concat()));
            if !case(&d, cx) { return; }
        }
    })
}

fn in_document(max: usize) -> Family {
    let rule = || wrap("rule", wrap("number", vec![]));
    let p: Vec<Vec<MetaData>> = vec![
        vec![fl("id", 2.0)], vec![fl("id", 1e30)], vec![fl("id", f64::NAN)], vec![sr("name", "d")], rule(), wrap("rule", wrap("reference", vec![sr("name", "d")])),
        wrap("rule", vec![bo("x", true)]), vec![bo("id", true)], wrap("node", vec![sr("name", "e")]), wrap("string", vec![sr("name", "s"), sr("text", "")]), wrap("extra", rule()),
    ];
    let top: Vec<Vec<MetaData>> = vec![
        wrap("string", vec![sr("name", "s"), sr("text", "S")]), wrap("string", vec![sr("text", "S")]), wrap("string", vec![sr("name", "s"), sr("text", "S"), bo("x", true)]),
        wrap("node", [vec![sr("name", "d")], rule()].concat()), wrap("node", [vec![fl("id", 4.0), sr("name", "e")], wrap("rule", wrap("reference", vec![sr("name", "d"), bo("u", true)]))].concat()),
        wrap("node", [vec![sr("name", "f")], wrap("rule", wrap("text", wrap("property", vec![sr("ref", "s")])))].concat()),
        wrap("node", vec![sr("name", "d")]), wrap("other", vec![]), vec![bo("x", true)], vec![st("node")], vec![en("node")],
    ];
    fam("document", format!("a node with every sequence of up to {} out of {} parts; a document of every sequence of up to {} out of {} top level parts (strings, nodes, malformed ones, unbalanced ends)", max, p.len(), max, top.len()), 2, move |u, cx| {
        let p = if u == 0 { &p } else { &top };
        let k = p.len() as u64;
        for j in 0..=max as u32 { for i in 0..k.pow(j) {
            let mut i = i;
            let mut d = vec![];
            for _ in 0..j { d.extend(p[(i % k) as usize].clone()); i /= k; }
            if u == 0 { d = wrap("node", d); }
            if !case(&d, cx) { return; }
        } }
    })
}

fn flat(max: usize) -> Family {
    let a: Vec<MetaData> = vec![st("node"), en("node"), st("rule"), en("rule"), st("sequence"), en("sequence"), st("tag"), en("tag"), st("text"), en("text"), st("string"), en("string"), sr("name", "n"), sr("text", "t"), sr("value", "v"), bo("optional", true), fl("id", 1.0)];
    let k = a.len() as u64;
    let total: u64 = (0..=max as u32).map(|j| k.pow(j)).sum();
    fam("sequences", format!("every sequence of up to {} entries over {} (starts and ends of six kinds of node, values), balanced or not", max, k), (total + 4095) / 4096, move |u, cx| {
        for mut i in u * 4096..((u + 1) * 4096).min(total) {
            let mut j = 0;
            while i >= k.pow(j) { i -= k.pow(j); j += 1; }
            let mut d = vec![];
            for _ in 0..j { d.push(a[(i % k) as usize].clone()); i /= k; }
            if !case(&d, cx) { return; }
        }
    })
}

fn alphabet() -> Vec<MetaData> {
    let mut v = vec![];
    for s in ["node", "rule", "by", "property", "text", "sequence", "tag", "string", "lines", "unknown"] { v.push(st(s)); v.push(en(s)); }
    for s in ["optional", "not", "inverted", "indent", "unknown"] { v.push(bo(s, true)); }
    for s in ["name", "value", "ref", "text", "unknown"] { v.push(sr(s, "s")); }
    v.push(fl("id", 2.0)); v.push(fl("id", 1e300)); v.push(fl("name", -1.0));
    v
}

/// Three documents: with numbers, strings, names and nested rules.
pub fn documents() -> Vec<Vec<MetaData>> {
    let rule = |v: Vec<MetaData>| wrap("rule", v);
    let node = |id: f64, name: &str, r: Vec<MetaData>| wrap("node", [vec![fl("id", id), sr("name", name)], rule(r)].concat());
    vec![
        node(1.0, "d", wrap("reference", vec![sr("name", "d")])),
        [wrap("string", vec![sr("name", "s"), sr("text", "S")]), node(2.0, "d", wrap("tag", [wrap("text", vec![sr("ref", "s")]), wrap("property", vec![sr("value", "p")]), vec![bo("not", true)]].concat()))].concat(),
        [node(2.0, "x", wrap("number", wrap("property", vec![sr("value", "n")]))), node(3.0, "d", wrap("sequence", [rule(wrap("optional", rule(wrap("reference", vec![sr("name", "x")])))), rule(wrap("repeat", [vec![bo("optional", true)], rule(wrap("whitespace", vec![bo("optional", true)]))].concat()))].concat()))].concat(),
    ]
}

/// All single edits of a sequence.
pub fn edits(d: &[MetaData]) -> Vec<Vec<MetaData>> {
    let al = alphabet();
    let mut v = vec![];
    for i in 0..=d.len() {
        v.push(d[..i].to_vec());
        v.push(d[i..].to_vec());
        for x in &al { let mut c = d.to_vec(); c.insert(i, x.clone()); v.push(c); }
        if i == d.len() { break; }
        let mut c = d.to_vec(); c.remove(i); v.push(c);
        let mut c = d.to_vec(); c.insert(i, d[i].clone()); v.push(c);
        for x in &al { let mut c = d.to_vec(); c[i] = x.clone(); v.push(c); }
        if i + 1 < d.len() { let mut c = d.to_vec(); c.swap(i, i + 1); v.push(c); }
        if let MetaData::StartNode(_) = d[i] {
            // The whole node: deleted, doubled, swapped with what follows, its content lifted, its name changed on both sides.
            let mut depth = 0;
            let e = (i..d.len()).find(|&j| { match d[j] { MetaData::StartNode(_) => depth += 1, MetaData::EndNode(_) => depth -= 1, _ => {} } depth == 0 });
            if let Some(e) = e {
                v.push([&d[..i], &d[e + 1..]].concat());
                v.push([&d[..=e], &d[i..]].concat());
                v.push([&d[..i], &d[i + 1..e], &d[e + 1..]].concat());
                for s in ["unknown", "rule", "by", "property", "text", "tag", "select", "repeat", "node", "string"] { let mut c = d.to_vec(); c[i] = st(s); c[e] = en(s); v.push(c); }
                for j in e + 1..d.len() { v.push([&d[..i], &d[e + 1..=j], &d[i..=e], &d[j + 1..]].concat()); }
            }
        }
        for j in i + 1..d.len() { v.push([&d[..i], &d[j..]].concat()); }
    }
    v
}

fn bases() -> Vec<Vec<MetaData>> {
    corpus().iter().filter_map(|t| {
        let mut tokens = vec![];
        piston_meta::parse(raw_rules(), t, &mut tokens).ok()?;
        Some(tokens.into_iter().map(|r| r.data).collect())
    }).collect()
}

fn edited(two: bool, limit: usize) -> Family {
    let b: Vec<Vec<MetaData>> = bases().into_iter().filter(|d| d.len() <= limit).collect();
    fam(if two { "two-edits" } else { "edits" }, format!("meta data of {} valid rule sets (up to {} entries) with {} edit at every place: truncation, deletion of any stretch, insertion and replacement over {} entries, swaps, nodes deleted, doubled, moved, lifted and renamed", b.len(), limit, if two { "every pair of" } else { "one" }, alphabet().len()), if two { b.iter().map(|d| edits(d).len() as u64).sum() } else { b.len() as u64 }, move |u, cx| {
        if !two {
            let d = &b[u as usize];
            if !case(d, cx) { return; }
            for e in edits(d) { if !case(&e, cx) { return; } }
        } else {
            let mut i = u as usize;
            for d in &b {
                let e = edits(d);
                if i < e.len() { for f in edits(&e[i]) { if !case(&f, cx) { return; } } return; }
                i -= e.len();
            }
        }
    })
}

/// Meta data of growing size: number of parts, of arguments, of levels, of strings, of nodes, and lengths of names.
fn sized(thorough: bool) -> Family {
    type Shape = (usize, fn(usize) -> Vec<MetaData>);
    fn node(rule: Vec<MetaData>) -> Vec<MetaData> { wrap("node", [vec![fl("id", 2.0), sr("name", "d")], wrap("rule", rule)].concat()) }
    fn num() -> Vec<MetaData> { wrap("number", vec![]) }
    fn rule(v: Vec<MetaData>) -> Vec<MetaData> { wrap("rule", v) }
    fn many(n: usize, f: impl Fn(usize) -> Vec<MetaData>) -> Vec<MetaData> { (0..n).flat_map(f).collect() }
    fn nest(n: usize, d: Vec<MetaData>, pre: &[&str]) -> Vec<MetaData> {
        let mut v = vec![];
        for i in 0..n { v.push(st("rule")); v.push(st(pre[i % pre.len()])); }
        v.extend(d);
        for i in (0..n).rev() { v.push(en(pre[i % pre.len()])); v.push(en("rule")); }
        v
    }
    let shapes: Vec<(&'static str, Shape)> = vec![
        ("arguments of a sequence", (20_000, |n| node(wrap("sequence", many(n, |i| rule(wrap("reference", vec![sr("name", ["d", "x"][i % 2])]))))))),
        ("alternatives, each followed by a part not understood", (20_000, |n| node(wrap("select", many(n, |i| if i % 2 == 0 { rule(num()) } else { vec![bo("unknown", true)] }))))),
        ("parts not understood in a kind", (20_000, |n| node(wrap("tag", [many(n, |_| vec![bo("unknown", true)]), wrap("text", vec![sr("value", "t")]), many(n, |_| wrap("unknown", vec![]))].concat())))),
        ("flags given again and again", (20_000, |n| node(wrap("separated_by", [many(n, |i| vec![bo("optional", i % 2 == 0), bo("allow_trail", i % 3 == 0)]), wrap("by", num()), rule(num())].concat())))),
        ("parts given again and again", (2000, |n| node(wrap("repeat", [many(n, |i| rule(wrap("text", wrap("property", vec![sr("value", &format!("p{}", i))])))), vec![bo("optional", true)]].concat())))),
        ("levels not understood", (300, |n| node(wrap("sequence", [nest(n, vec![], &["unknown", "other"]), rule(num())].concat())))),
        ("levels not understood, with values", (300, |n| { let mut v = vec![]; for i in 0..n { v.push(st(["node", "rule", "string", "x"][i % 4])); v.push(bo("v", true)); } for i in (0..n).rev() { v.push(en(["node", "rule", "string", "x"][i % 4])); } wrap("node", [vec![sr("name", "d")], wrap("unknown", v), rule(num())].concat()) })),
        ("not in optional", (300, |n| { let mut v = num(); for i in 0..n { v = wrap(["not", "optional"][i % 2], rule(v)); } node(v) })),
        ("sequence in select", (300, |n| { let mut v = num(); for i in 0..n { v = wrap(["sequence", "select", "lines", "repeat"][i % 4], if i % 4 == 3 { [vec![bo("optional", false)], rule(v)].concat() } else { rule(v) }); } node(v) })),
        ("a part not understood at every level", (300, |n| { let mut v = num(); for _ in 0..n { v = wrap("sequence", [vec![bo("u", true)], rule(v), vec![bo("w", false)]].concat()); } node(v) })),
        ("strings", (2000, |n| [many(n, |i| wrap("string", vec![sr("name", &format!("s{}", i)), sr("text", &format!("t{}", i))])), node(wrap("sequence", many(n.min(300), |i| rule(wrap("text", wrap("property", vec![sr("ref", &format!("s{}", n - 1 - i))]))))))].concat())),
        ("strings of one name", (2000, |n| [many(n, |i| wrap("string", vec![sr("name", "s"), sr("text", &format!("t{}", i))])), node(wrap("text", wrap("property", vec![sr("ref", "s")])))].concat())),
        ("nodes", (2000, |n| many(n, |i| wrap("node", [vec![fl("id", i as f64), sr("name", &format!("k{}", i))], rule(wrap("reference", vec![sr("name", &format!("k{}", (i * 7) % (n + 1)))]))].concat())))),
        ("nodes of one name", (2000, |n| many(n, |i| wrap("node", [vec![fl("id", i as f64), sr("name", ["a", "b"][i % 2])], rule(wrap("sequence", [rule(wrap("reference", vec![sr("name", "b")])), rule(num())].concat()))].concat())))),
        ("names given again and again", (20_000, |n| wrap("node", [many(n, |i| vec![sr("name", ["x", "d"][i % 2]), fl("id", i as f64)]), rule(num())].concat()))),
        ("rules given again and again", (2000, |n| wrap("node", [vec![sr("name", "d"), fl("id", 1.0)], many(n, |i| rule(wrap("sequence", many(i % 3, |_| rule(num()))))), rule(num())].concat()))),
        ("length of texts", (70_000, |n| { let s = "é".repeat(n); [wrap("string", vec![sr("name", &s), sr("text", &s)]), node(wrap("sequence", [rule(wrap("tag", [wrap("text", vec![sr("ref", &s)]), wrap("property", vec![sr("value", &s)])].concat())), rule(wrap("reference", vec![sr("name", &s)])), vec![sr(&s, &s)], wrap(&s, vec![])].concat()))].concat() })),
        ("ends missing", (300, |n| { let mut v = nest(n + 1, vec![], &["sequence"]); v.truncate(v.len() - 1 - n / 2); node(v) })),
        ("ends too many", (300, |n| [node(num()), many(n + 1, |i| vec![en(["node", "rule"][i % 2])])].concat())),
    ];
    let mut cases: Vec<(usize, usize)> = vec![];
    for (i, s) in shapes.iter().enumerate() { for n in crate::p_sizes::sizes(thorough) { if n <= (s.1).0 { cases.push((i, n)); } } }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    let names: Vec<&str> = shapes.iter().map(|s| s.0).collect();
    fam("sizes", format!("{} shapes of meta data ({}), each with every size 0..{} and sizes around powers of two and ten up to 300, 2000, 20000 or 65537: {} lists; whole, and with the first, a middle and the last entry left out", names.len(), names.join(", "), if thorough { 300 } else { 40 }, cases.len()), cases.len() as u64, move |u, cx| {
        let (i, n) = cases[u as usize];
        let d = ((shapes[i].1).1)(n);
        if !case(&d, cx) || d.is_empty() { return; }
        for k in [0, d.len() / 3, d.len() / 2, d.len() - 1] { let mut c = d.clone(); c.remove(k); if !case(&c, cx) { return; } }
    })
}

/// Node numbers and their debug ids.
fn numbered(thorough: bool) -> Family {
    fam("numbers", "nodes numbered with every double out of a list (every power of two and its neighbours, fractions, negative, not numbers), with one to three rules inside", 2100, move |u, cx| {
        let mut v = vec![];
        if u < 2047 {
            let b = f64::from_bits(u << 52);
            v.extend([b, f64::from_bits((u << 52) + 1), f64::from_bits((u << 52) | ((1 << 52) - 1)), f64::from_bits((u << 52) | (1 << 51))]);
            if thorough { for k in 0..52 { v.push(f64::from_bits((u << 52) | (1 << k))); } }
        } else {
            let k = (u - 2047) as f64;
            v.extend([k, k + 0.5, k * 1000.0 + 0.999, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 9223372036854775.0 + k, 18446744073709551.0 - k, 9223372036854775807.0, 1.8446744073709552e19]);
        }
        for x in v { for y in [x, -x] {
            let d = wrap("node", [vec![fl("id", y), sr("name", "d")], wrap("rule", wrap("sequence", [wrap("rule", wrap("number", vec![])), wrap("rule", wrap("text", vec![]))].concat()))].concat());
            // Which number a negative or fractional one stands for is left open; converting it must not panic.
            if y < 0.0 || y.fract() != 0.0 || y.is_nan() { cx.inc("executions"); cx.inc("states"); let r = guard(BUDGET, || bootstrap::convert(&ranged(&d), &mut vec![]).is_ok()); if r.is_err() { cx.violation(short(&d), format!("convert {:?}", r)); if cx.failed() { return; } } continue; }
            if !case(&d, cx) { return; }
        } }
    })
}

pub fn c13(thorough: bool) -> Prop {
    let f = vec![
        in_kinds(if thorough { 4 } else { 3 }), in_document(if thorough { 5 } else { 4 }), flat(if thorough { 6 } else { 5 }),
        edited(false, 4000), edited(true, if thorough { 24 } else { 17 }),
        sized(thorough), numbered(thorough),
    ];
    Prop { id: "C13", level: "model_checking", rule: "a state is a sequence of meta data, a transition one entry; an execution converts it with the library and compares the rules and the ignored entries with a model that works on the tree", families: f, assumptions: vec![
        "debug ids are compared where nothing is ignored", "unbalanced meta data must be refused whatever else it holds"] }
}
