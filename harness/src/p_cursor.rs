//! C16 and C17: the two cursors over meta data, against a list and a position.

use crate::engine::*;
use crate::p_json::show;
use piston_meta::bootstrap::Convert;
use piston_meta::{MetaData, ParseError, Range};
use piston_meta_search::Search;
use std::sync::Arc;

type D = Vec<Range<MetaData>>;
fn name(s: &str) -> Arc<String> { Arc::new(s.to_string()) }

/// Words over a list of entries, each at a range of its own (some touching, some empty, some apart).
fn word(e: &[MetaData], i: u64, len: usize) -> D {
    let k = e.len() as u64;
    let (mut j, mut off) = (i, 3);
    (0..len).map(|p| {
        let x = e[(j % k) as usize].clone();
        j /= k;
        let l = [2, 0, 1, 5][p % 4];
        let r = Range::new(off, l);
        off += l + p % 2;
        r.wrap(x)
    }).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val { Unit, B(bool), F(u64), S(String) }

#[derive(Clone, Debug)]
pub enum Op { Bool(&'static str), F64(&'static str), Str(&'static str), Node(&'static str), End(&'static str),
    ForBool(&'static str, bool), ForF64(&'static str, f64), ForStr(&'static str, &'static str), ForNode(&'static str), ForEnd(&'static str) }

fn ops() -> Vec<Op> {
    let mut v = vec![];
    for n in ["a", "ab", "", "c"] {
        v.extend([Op::Bool(n), Op::F64(n), Op::Str(n), Op::Node(n), Op::End(n), Op::ForNode(n), Op::ForEnd(n), Op::ForBool(n, true), Op::ForBool(n, false)]);
        for x in [1.0, -2.5, 1e300, 0.1 + 0.2, 0.3] { v.push(Op::ForF64(n, x)); }
        for x in ["a", "ab", "", "é"] { v.push(Op::ForStr(n, x)); }
    }
    v
}

fn search_entries() -> Vec<MetaData> {
    let (a, b, z) = (name("a"), name("ab"), name(""));
    vec![MetaData::StartNode(a.clone()), MetaData::EndNode(a.clone()), MetaData::Bool(a.clone(), true), MetaData::F64(a.clone(), 1.0), MetaData::String(a.clone(), name("a")),
        MetaData::StartNode(b.clone()), MetaData::EndNode(b.clone()), MetaData::Bool(b.clone(), false), MetaData::F64(b.clone(), -2.5), MetaData::String(b.clone(), z.clone()),
        MetaData::Bool(a.clone(), false), MetaData::F64(a.clone(), 0.1 + 0.2), MetaData::String(a.clone(), name("ab")), MetaData::String(z.clone(), name("é")), MetaData::F64(z, f64::NAN)]
}

/// Numbers that are close to each other or special.
fn numbers() -> Vec<f64> {
    let mut v = vec![];
    for x in [0.0, f64::MIN_POSITIVE, f64::MIN_POSITIVE / 2.0, 5e-324, 1e-323, 1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.1, 0.3, 0.1 + 0.2, 2.0, 1e15, 1e15 + 0.125, 9007199254740992.0, 9007199254740991.0, 9007199254740994.0, 1e300, 1e300 * (1.0 + f64::EPSILON), f64::MAX, f64::INFINITY] { v.push(x); v.push(-x); }
    v.push(f64::NAN);
    v
}

const BASES: [&str; 9] = ["", "a", "ab", "abc", "é", "aé", "€b", "n", "abcdefghijklmnop"];

/// Strings one edit apart.
fn near_words(thorough: bool) -> Vec<&'static str> {
    let chars: Vec<char> = if thorough { (' '..='~').chain("\0\t\n\r\u{a0}é\u{301}€😀Éİſ\u{200b}\u{feff}".chars()).collect() } else { "ab A1'_ \0\n\té\u{301}€😀É".chars().collect() };
    let mut v: Vec<String> = vec![];
    for b in BASES {
        let c: Vec<char> = b.chars().collect();
        v.push(b.into());
        v.push(b.to_uppercase());
        v.push(format!("{}{}", b, b));
        for i in 0..c.len() { v.push(c[..i].iter().chain(&c[i + 1..]).collect()); }
        for x in &chars { for i in [0, c.len() / 2, c.len()] {
            v.push(c[..i].iter().chain([x]).chain(&c[i..]).collect());
            if i < c.len() { v.push(c[..i].iter().chain([x]).chain(&c[i + 1..]).collect()); }
        } }
    }
    v.sort(); v.dedup();
    v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}

fn long_pairs(thorough: bool) -> Vec<(&'static str, &'static str)> {
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    crate::gram::long_near(thorough).into_iter().flat_map(|(a, v)| { let a = leak(a); v.into_iter().map(move |b| (a, leak(b))) }).collect()
}

/// Entries of every kind named one way and the other.
fn twins(x: &str, y: &str) -> D {
    vec![MetaData::String(name("n"), name(y)), MetaData::String(name("n"), name(x)), MetaData::StartNode(name(y)), MetaData::StartNode(name(x)), MetaData::EndNode(name(x)), MetaData::EndNode(name(y)),
        MetaData::Bool(name(x), true), MetaData::Bool(name(y), true), MetaData::F64(name(x), 1.0), MetaData::F64(name(y), 1.0), MetaData::String(name(x), name("v")), MetaData::String(name(y), name("v"))]
        .into_iter().enumerate().map(|(i, x)| Range::new(i * 3, i % 3).wrap(x)).collect()
}

/// Whether a word shares its start or end with one in the entry.
fn near(w: &str, e: &Range<MetaData>) -> bool {
    let c = |s: &str| { let w: Vec<char> = w.chars().collect(); let s: Vec<char> = s.chars().collect(); w.is_empty() || s.is_empty() || w[0] == s[0] || w[w.len() - 1] == s[s.len() - 1] };
    match &e.data { MetaData::StartNode(n) | MetaData::EndNode(n) | MetaData::Bool(n, _) | MetaData::F64(n, _) => c(n), MetaData::String(n, v) => c(n) || c(v) }
}

/// The list model: value and new position, or the range of the error.
fn model(d: &D, pos: usize, last: Option<Range>, op: &Op) -> Result<(Val, usize), Range> {
    let none = last.unwrap_or(Range::empty(0));
    let read = |f: &dyn Fn(&MetaData) -> Option<Val>| -> Result<(Val, usize), Range> {
        match d.get(pos) { None => Err(none), Some(x) => f(&x.data).map(|v| (v, pos + 1)).ok_or(x.range()) }
    };
    let find = |f: &dyn Fn(&MetaData) -> bool| -> Result<(Val, usize), Range> {
        (pos..d.len()).find(|i| f(&d[*i].data)).map(|i| (Val::Unit, i + 1)).ok_or(none)
    };
    match op {
        Op::Bool(n) => read(&|x| match x { MetaData::Bool(m, v) if m.as_str() == *n => Some(Val::B(*v)), _ => None }),
        Op::F64(n) => read(&|x| match x { MetaData::F64(m, v) if m.as_str() == *n => Some(Val::F(v.to_bits())), _ => None }),
        Op::Str(n) => read(&|x| match x { MetaData::String(m, v) if m.as_str() == *n => Some(Val::S(v.to_string())), _ => None }),
        Op::Node(n) => read(&|x| match x { MetaData::StartNode(m) if m.as_str() == *n => Some(Val::Unit), _ => None }),
        Op::End(n) => read(&|x| match x { MetaData::EndNode(m) if m.as_str() == *n => Some(Val::Unit), _ => None }),
        Op::ForBool(n, b) => find(&|x| matches!(x, MetaData::Bool(m, v) if m.as_str() == *n && v == b)),
        Op::ForF64(n, b) => find(&|x| matches!(x, MetaData::F64(m, v) if m.as_str() == *n && v == b)),
        Op::ForStr(n, b) => find(&|x| matches!(x, MetaData::String(m, v) if m.as_str() == *n && v.as_str() == *b)),
        Op::ForNode(n) => find(&|x| matches!(x, MetaData::StartNode(m) if m.as_str() == *n)),
        Op::ForEnd(n) => find(&|x| matches!(x, MetaData::EndNode(m) if m.as_str() == *n)),
    }
}

fn searching(op: &Op) -> bool { matches!(op, Op::ForBool(..) | Op::ForF64(..) | Op::ForStr(..) | Op::ForNode(_) | Op::ForEnd(_)) }

type St = (usize, Option<Range>);

/// Applies an operation to a real searcher. Returns the result, the state it is left in, and the
/// state handed to the continuation. `fail`: the continuation returns an error of its own.
fn apply(s: &mut Search, d: &D, op: &Op, fail: bool) -> (Result<Val, Range<ParseError>>, St, Option<St>) {
    let mut inner = None;
    let st = |s: &Search| -> St { (d.len() - s.data.len(), s.range) };
    let r = {
        let mut cont = |t: Search| -> Result<Val, Range<ParseError>> {
            // The continuation's data must be a tail of the list.
            assert!(t.data.as_ptr() as usize + t.data.len() * std::mem::size_of::<Range<MetaData>>() == d.as_ptr() as usize + d.len() * std::mem::size_of::<Range<MetaData>>());
            inner = Some(st(&t));
            if fail { Err(Range::new(77, 7).wrap(ParseError::ExpectedEnd)) } else { Ok(Val::Unit) }
        };
        match op {
            Op::Bool(n) => s.bool(n).map(Val::B), Op::F64(n) => s.f64(n).map(|v| Val::F(v.to_bits())), Op::Str(n) => s.string(n).map(|v| Val::S(v.to_string())),
            Op::Node(n) => s.node(n).map(|_| Val::Unit), Op::End(n) => s.end_node(n).map(|_| Val::Unit),
            _ => { let s: &Search = s; match op {
                Op::ForBool(n, b) => s.for_bool(n, *b, &mut cont), Op::ForF64(n, b) => s.for_f64(n, *b, &mut cont), Op::ForStr(n, b) => s.for_string(n, b, &mut cont),
                Op::ForNode(n) => s.for_node(n, &mut cont), Op::ForEnd(n) => s.for_end_node(n, &mut cont), _ => unreachable!() } }
        }
    };
    (r, st(s), inner)
}

fn step(d: &D, at: St, op: &Op, how: &str, cx: &mut Cx) -> Option<Option<usize>> {
    let want = model(d, at.0, at.1, op);
    let searches = searching(op);
    for fail in [false, true] {
        if fail && !searches { break; }
        cx.inc("transitions"); cx.inc("executions");
        let got = guard(BUDGET, || {
            let mut s = at_place(&d[at.0..], at.1);
            apply(&mut s, d, op, fail)
        });
        let ok = match (&got, &want) {
            (Ok((Ok(v), st, inner)), Ok((w, p))) if !(fail && searches) => v == w && {
                let next = (*p, Some(d[*p - 1].range()));
                if searches { *st == at && *inner == Some(next) } else { *st == next && inner.is_none() }
            },
            (Ok((Err(e), st, inner)), Ok((_, p))) if fail && searches => *st == at && *inner == Some((*p, Some(d[*p - 1].range()))) && e.range() == Range::new(77, 7) && e.data == ParseError::ExpectedEnd,
            (Ok((Err(e), st, inner)), Err(w)) => e.range() == *w && *st == at && inner.is_none(),
            _ => false,
        };
        if !ok {
            cx.violation(format!("[{}] at {}{} {:?}", show(d), at.0, how, op), format!("meta data: {:?}\nposition {}, last read {:?}\noperation {:?}{}\nexpected: {:?}\nlibrary: {:?}", d, at.0, at.1, op, if fail { " (continuation fails)" } else { "" }, want, got));
            if cx.failed() { return None; }
        }
    }
    cx.inc(if want.is_ok() { if searches { "found" } else { "read" } } else { "refused" });
    Some(want.ok().map(|x| x.1))
}

/// Breadth first over all states reachable from a new searcher.
fn explore(d: &D, all: &[Op], cx: &mut Cx) -> bool {
    // The first state is what `new` makes.
    let n = Search::new(d);
    if n.data.len() != d.len() || n.range.is_some() { cx.violation(format!("new {}", show(d)), "a new searcher does not stand at the start".to_string()); return !cx.failed(); }
    let mut seen = vec![false; d.len() + 1];
    let mut todo = vec![(0usize, None)];
    seen[0] = true;
    while let Some(at) = todo.pop() {
        cx.inc("states");
        for op in all {
            match step(d, at, op, "", cx) {
                None => return false,
                Some(Some(p)) => if !seen[p] { seen[p] = true; todo.push((p, Some(d[p - 1].range()))) },
                Some(None) => {}
            }
        }
    }
    true
}

/// All sequences of operations on one searcher, kept through failures, searches nested in searches.
fn at_place(d: &[Range<MetaData>], r: Option<Range>) -> Search<'_> { let mut s = Search::new(d); s.range = r; s }

fn histories(d: &D, all: &[Op], depth: usize, cx: &mut Cx) -> bool {
    fn go<'a>(s: &Search<'a>, d: &'a D, at: St, all: &[Op], depth: usize, cx: &mut Cx) -> bool {
        if depth == 0 { return true; }
        for op in all {
            let mut t = at_place(s.data, s.range);
            let want = model(d, at.0, at.1, op);
            cx.inc("transitions"); cx.inc("executions");
            let (r, st, inner) = apply(&mut t, d, op, false);
            let next = want.as_ref().ok().map(|x| (x.1, Some(d[x.1 - 1].range())));
            let ok = match (&r, &want) { (Ok(v), Ok((w, _))) => v == w, (Err(e), Err(w)) => e.range() == *w, _ => false }
                && if searching(op) { st == at && inner == next } else { st == next.unwrap_or(at) };
            if !ok { cx.violation(format!("history [{}] {:?}", show(d), op), format!("meta data {:?}\nat {:?} operation {:?}\nexpected {:?}, library {:?} and {:?} {:?}", d, at, op, want, r, st, inner)); if cx.failed() { return false; } }
            if searching(op) {
                if let Some(n) = next {
                    let inner = at_place(&d[n.0..], n.1);
                    if !go(&inner, d, n, all, depth - 1, cx) { return false; }
                }
            }
            if !go(&t, d, if searching(op) { at } else { next.unwrap_or(at) }, all, depth - 1, cx) { return false; }
        }
        true
    }
    cx.inc("states");
    go(&Search::new(d), d, (0, None), all, depth, cx)
}

pub fn c16(thorough: bool) -> Prop {
    let e = search_entries();
    let k = e.len() as u64;
    let mut fams = vec![];
    for n in 0..=5 {
        let e = e.clone();
        let total = k.pow(n as u32);
        fams.push(fam(format!("lists{}", n), format!("all lists of {} entries out of {}; every state reachable from a new searcher, every one of {} operations on it (searches with a continuation that succeeds and one that fails)", n, k, ops().len()), (total + 255) / 256, move |u, cx| {
            let all = ops();
            for i in u * 256..((u + 1) * 256).min(total) {
                let d = word(&e, i, n);
                if !explore(&d, &all, cx) { return; }
                cx.sample(|| format!("[{}] all operations at all positions", show(&d)));
            }
        }));
    }
    // Histories.
    let small: Vec<MetaData> = e[..5].to_vec();
    let few = vec![Op::Bool("a"), Op::F64("a"), Op::Str("a"), Op::Node("a"), Op::End("a"), Op::ForBool("a", true), Op::ForF64("a", 1.0), Op::ForStr("a", "a"), Op::ForNode("a"), Op::ForEnd("a"), Op::Str("b")];
    let (n, depth) = if thorough { (6, 5) } else { (5, 4) };
    let total = (small.len() as u64).pow(n as u32);
    fams.push(fam("histories", format!("all lists of {} entries out of {}, all sequences of {} operations out of {} on one searcher, searches nesting in searches", n, small.len(), depth, few.len()), (total + 7) / 8, move |u, cx| {
        for i in u * 8..((u + 1) * 8).min(total) { let d = word(&small, i, n); if !histories(&d, &few, depth, cx) { return; } }
    }));
    fams.push(fam("long lists", "lists of 6 to 400 equal and different entries, the wanted one at every place", 395, move |u, cx| {
        let n = u as usize + 6;
        for k in [0, n / 2, n - 1] {
            let d: D = (0..n).map(|i| Range::new(i * 3, 2).wrap(if i == k { MetaData::F64(name("a"), 0.3) } else if i % 2 == 0 { MetaData::F64(name("a"), 0.1 + 0.2) } else { MetaData::StartNode(name("a")) })).collect();
            cx.inc("states");
            for at in [(0, None), (n / 3, Some(Range::new(1, 1))), (n, Some(Range::new(9, 9)))] {
                for op in [Op::ForF64("a", 0.3), Op::ForNode("a"), Op::ForEnd("a"), Op::F64("a"), Op::Node("a")] { if step(&d, at, &op, "", cx).is_none() { return; } }
            }
        }
    }));
    let nums = numbers();
    let nn = nums.len() as u64;
    fams.push(fam("near numbers", format!("lists of two numbers out of {} (zeros of both signs, neighbours, subnormal, largest, infinite, not a number), each of them (but not-a-number) searched for and read", nn), nn * nn, move |u, cx| {
        let (x, y) = (nums[(u / nn) as usize], nums[(u % nn) as usize]);
        for (m, l) in [("a", "a"), ("a", "b"), ("b", "a")] {
            let d: D = vec![Range::new(3, 2).wrap(MetaData::F64(name(m), x)), Range::new(6, 1).wrap(MetaData::F64(name(l), y)), Range::new(9, 1).wrap(MetaData::Bool(name("a"), true))];
            cx.inc("states");
            for z in &nums { if !z.is_nan() && step(&d, (0, None), &Op::ForF64("a", *z), "", cx).is_none() { return; } }
            for p in 0..2 { if step(&d, (p, None), &Op::F64("a"), "", cx).is_none() { return; } }
        }
    }));
    let words = near_words(thorough);
    let nw = words.len() as u64;
    fams.push(fam("near texts", format!("strings and names out of {} ({:?} and every string one edit of a character of 1 to 4 bytes away, {:?} ...): lists of two entries, one of them and its neighbour in the list of words, each word searched for and read as value and as name, with every kind of entry", nw, BASES, &words[..12]), nw, move |u, cx| {
        let x = words[u as usize];
        for y in [words[((u + 1) % nw) as usize], words[((u + nw / 2) % nw) as usize], ""] {
            let d = twins(x, y);
            cx.inc("states");
            for w in &words {
                let w: &'static str = w;
                if d.iter().all(|e| !near(w, e)) && w.len() % 3 != 0 { continue; }
                for op in [Op::ForStr("n", w), Op::ForNode(w), Op::ForEnd(w), Op::ForBool(w, true), Op::ForF64(w, 1.0), Op::ForStr(w, "v")] { if step(&d, (0, None), &op, "", cx).is_none() { return; } }
                for (p, op) in [(3, Op::Node(w)), (4, Op::End(w)), (6, Op::Bool(w)), (8, Op::F64(w)), (10, Op::Str(w))] { if step(&d, (p, None), &op, "", cx).is_none() { return; } }
            }
        }
    }));
    let all = long_pairs(thorough);
    let nl = all.len() as u64;
    fams.push(fam("near long texts", format!("{} pairs of strings of 7 to {} characters that differ in one place, as value and name of every kind of entry next to each other, each searched for and read", nl, all.iter().map(|p| p.1.len()).max().unwrap()), (nl + 15) / 16, move |u, cx| {
        for &(x, y) in &all[(u * 16) as usize..((u + 1) * 16).min(nl) as usize] {
            let d: D = twins(x, y);
            cx.inc("states");
            for w in [x, y] {
                for op in [Op::ForStr("n", w), Op::ForNode(w), Op::ForEnd(w), Op::ForBool(w, true), Op::ForF64(w, 1.0), Op::ForStr(w, "v")] { if step(&d, (0, None), &op, "", cx).is_none() { return; } }
                for p in 0..d.len() { for op in [Op::Node(w), Op::End(w), Op::Bool(w), Op::F64(w), Op::Str(w)] { if step(&d, (p, None), &op, "", cx).is_none() { return; } } }
            }
        }
    }));
    let sizes: Vec<usize> = crate::p_sizes::sizes(thorough).into_iter().filter(|&n| n <= 20_000).collect();
    fams.push(fam("sizes", format!("lists of {} lengths up to {}: nodes holding nodes of the same and of other names, siblings, values, unclosed nodes, with the wanted entry nowhere, first, in the middle and last; every operation from the start, the middle and the end", sizes.len(), sizes.last().unwrap()), sizes.len() as u64 * 5, move |u, cx| {
        let n = sizes[sizes.len() - 1 - (u / 5) as usize];
        let (s, e, t, f) = (|| MetaData::StartNode(name("a")), || MetaData::EndNode(name("a")), || MetaData::StartNode(name("b")), || MetaData::EndNode(name("b")));
        for wanted in [None, Some(0), Some(n / 2), Some(n)] {
            let mut l: Vec<MetaData> = vec![];
            let mut half = vec![];
            for i in 0..=n {
                if wanted == Some(i) { l.extend([MetaData::Bool(name("w"), true), MetaData::F64(name("w"), 2.5), MetaData::String(name("w"), name("é")), MetaData::StartNode(name("w")), MetaData::EndNode(name("w"))]); }
                match u % 5 {
                    0 => { l.push(t()); half.push(f()); }
                    1 => { l.push(s()); l.push(t()); l.push(f()); l.push(e()); }
                    2 => { l.push(if i % 2 == 0 { s() } else { t() }); half.push(if i % 2 == 0 { e() } else { f() }); }
                    3 => { l.push(MetaData::Bool(name("w"), false)); l.push(MetaData::F64(name("w"), i as f64)); l.push(MetaData::String(name("w"), name("x"))); }
                    _ => { l.push(t()); l.push(f()); if i % 3 == 0 { l.push(e()); } }
                }
            }
            half.reverse();
            l.extend(half);
            let d: D = l.into_iter().enumerate().map(|(i, x)| Range::new(i * 2, 1).wrap(x)).collect();
            cx.inc("states");
            for at in [0, d.len() / 2, d.len()] {
                let st = (at, if at > 0 { Some(d[at - 1].range()) } else { None });
                for op in [Op::ForBool("w", true), Op::ForF64("w", 2.5), Op::ForStr("w", "é"), Op::ForNode("w"), Op::ForNode("a"), Op::ForNode("b"), Op::ForEnd("w"), Op::ForEnd("a"), Op::ForEnd("b"), Op::Bool("w"), Op::Node("a"), Op::Node("b"), Op::End("a"), Op::Str("w")] {
                    if step(&d, st, &op, "", cx).is_none() { return; }
                }
            }
        }
    }));
    Prop { id: "C16", level: "model_checking", rule: "a state is a list, a position in it and the range last read; transitions are all operations of the searcher in that state; result, following state, state given to the continuation and error range are compared with a list model",
        assumptions: vec!["searching for a number that is not a number is left open (it equals nothing)"], families: fams }
}

// ---------------------------------------------------------------- C17

fn cursor_entries() -> Vec<MetaData> {
    let (a, b) = (name("a"), name("ab"));
    vec![MetaData::StartNode(a.clone()), MetaData::EndNode(a.clone()), MetaData::Bool(a.clone(), true), MetaData::F64(a.clone(), 1.5), MetaData::String(a.clone(), name("v")),
        MetaData::StartNode(b.clone()), MetaData::EndNode(b.clone()), MetaData::Bool(b.clone(), false), MetaData::F64(b.clone(), -0.0), MetaData::String(b, name(""))]
}

/// End of the entry or node starting at p; the end of the list for a node that is never closed.
fn skip(d: &D, p: usize) -> usize {
    match d.get(p).map(|x| &x.data) {
        None => p,
        Some(MetaData::StartNode(_)) => {
            let mut q = p + 1;
            loop {
                match d.get(q).map(|x| &x.data) { None => return q, Some(MetaData::EndNode(_)) => return q + 1, Some(_) => q = skip(d, q) }
            }
        }
        Some(_) => p + 1,
    }
}

/// The same without recursion.
fn skip_flat(d: &D, p: usize) -> usize {
    let (mut q, mut depth) = (p, 0usize);
    while let Some(x) = d.get(q) {
        q += 1;
        match x.data { MetaData::StartNode(_) => depth += 1, MetaData::EndNode(_) if depth > 0 => depth -= 1, _ => {} }
        if depth == 0 { return q; }
    }
    q
}

fn cursor(d: &D, cx: &mut Cx) -> bool { cursor_named(d, &["a", "ab", "", "b"], cx) }

fn cursor_named(d: &D, names: &[&str], cx: &mut Cx) -> bool {
    let n = d.len();
    // One real cursor for each position, reached entry by entry; `all` also reaches them by jumps.
    let r = guard(BUDGET, || -> Result<(u64, u64), String> {
        let (mut steps, mut states) = (0u64, 0u64);
        let mut at: Vec<Convert> = vec![Convert::new(d)];
        macro_rules! want { ($got:expr, $want:expr, $($what:tt)*) => {{ steps += 1; let (g, w) = ($got, $want); if g != w { return Err(format!("{}: expected {:?}, library {:?}", format!($($what)*), w, g)); } }} }
        for p in 0..=n {
            states += 1;
            let c = at[p];
            want!(c.remaining_data_len(), n - p, "remaining at {}", p);
            for &nm in names {
                let x = d.get(p).map(|x| &x.data);
                let one = Range::new(p, 1);
                want!(c.start_node(nm), match x { Some(MetaData::StartNode(m)) if m.as_str() == nm => Ok(one), _ => Err(()) }, "start_node {:?} at {}", nm, p);
                want!(c.end_node(nm), match x { Some(MetaData::EndNode(m)) if m.as_str() == nm => Ok(one), _ => Err(()) }, "end_node {:?} at {}", nm, p);
                want!(c.meta_bool(nm), match x { Some(MetaData::Bool(m, v)) if m.as_str() == nm => Ok((one, *v)), _ => Err(()) }, "meta_bool {:?} at {}", nm, p);
                want!(c.meta_f64(nm).map(|x| (x.0, x.1.to_bits())), match x { Some(MetaData::F64(m, v)) if m.as_str() == nm => Ok((one, v.to_bits())), _ => Err(()) }, "meta_f64 {:?} at {}", nm, p);
                want!(c.meta_string(nm), match x { Some(MetaData::String(m, v)) if m.as_str() == nm => Ok((one, v.clone())), _ => Err(()) }, "meta_string {:?} at {}", nm, p);
            }
            let q = skip(d, p);
            want!(c.ignore(), Range::new(p, q - p), "ignore at {}", p);
            want!(c.remaining_data_len(), n - p, "remaining at {} after reading", p);
            if p < n {
                let mut next = c;
                next.update(Range::new(p, 1));
                at.push(next);
            }
            // Jumps: to where skipping leads, and to every later range.
            for a in p..=n { for b in a..=n {
                let mut j = c;
                j.update(Range::new(a, b - a));
                want!(j.remaining_data_len(), n - b, "update from {} to {}..{}", p, a, b);
                want!(j.ignore(), Range::new(b, skip(d, b) - b), "ignore after update from {} to {}..{}", p, a, b);
                want!(j.subtract(c), Range::new(p, b - p), "subtract {} from {}", p, b);
                want!(c.remaining_data_len(), n - p, "remaining at {} after a copy moved", p);
            } }
        }
        for p in 0..=n { for q in 0..=n {
            let (c, e) = (at[p], at[q]);
            if p <= q {
                want!(e.subtract(c), Range::new(p, q - p), "subtract {} from {}", p, q);
                let mut o = c;
                o.update(e.subtract(c));
                want!(o.remaining_data_len(), n - q, "update at {} with the difference to {}", p, q);
            }
            let src = if p < q { let s = d[p].offset; Some(Range::new(s, d[q - 1].next_offset() - s)) } else { None };
            want!(e.source(c), src, "source from {} to {}", p, q);
        } }
        Ok((steps, states))
    });
    cx.inc("executions");
    match r.and_then(|x| x) {
        Ok((t, s)) => { cx.add("transitions", t); cx.add("states", s); true }
        Err(e) => { cx.violation(format!("[{}] {}", show(d), e), format!("meta data: {:?}\n{}", d, e)); !cx.failed() }
    }
}

pub fn c17(thorough: bool) -> Prop {
    let e = cursor_entries();
    let k = e.len() as u64;
    let mut fams = vec![];
    for n in 0..=if thorough { 7 } else { 6 } {
        let e = e.clone();
        let total = k.pow(n as u32);
        fams.push(fam(format!("lists{}", n), format!("all lists of {} entries out of {}: all reading operations at all positions, all jumps between positions, all differences and source ranges of two positions", n, k), (total + 255) / 256, move |u, cx| {
            for i in u * 256..((u + 1) * 256).min(total) {
                let d = word(&e, i, n);
                if !cursor(&d, cx) { return; }
                cx.sample(|| format!("[{}]", show(&d)));
            }
        }));
    }
    let e3: Vec<MetaData> = vec![e[0].clone(), e[1].clone(), e[7].clone()];
    for n in if thorough { 8..=13 } else { 7..=11 } {
        let e3 = e3.clone();
        let total = 3u64.pow(n as u32);
        fams.push(fam(format!("nesting{}", n), format!("all lists of {} entries out of start, end and one value, as before", n), (total + 255) / 256, move |u, cx| {
            for i in u * 256..((u + 1) * 256).min(total) { if !cursor(&word(&e3, i, n), cx) { return; } }
        }));
    }
    let words = near_words(thorough);
    let nw = words.len() as u64;
    let long = long_pairs(thorough);
    let nl = (long.len() as u64 + 15) / 16;
    fams.push(fam("near names", format!("entries of every kind named with {} strings ({:?} and every string one edit of a character of 1 to 4 bytes away) and with a neighbour in that list; {} pairs of strings of 7 to {} characters that differ in one place: all operations and jumps, each with both names and words close by", nw, BASES, long.len(), long.iter().map(|p| p.1.len()).max().unwrap()), nw + nl, move |u, cx| {
        if u < nl {
            for &(x, y) in &long[(u * 16) as usize..((u + 1) * 16).min(long.len() as u64) as usize] { if !cursor_named(&twins(x, y), &[x, y], cx) { return; } }
            return;
        }
        let u = u - nl;
        let x = words[u as usize];
        let around: Vec<&str> = (0..nw).filter(|i| (i + nw - u) % nw <= 20 || i % 7 == u % 7).map(|i| words[i as usize]).collect();
        for y in [words[((u + 1) % nw) as usize], words[((u + nw / 2) % nw) as usize], ""] { if !cursor_named(&twins(x, y), &around, cx) { return; } }
    }));
    fams.push(fam("deep", "nodes nested 1 to 200 deep, closed and not closed", 200, move |u, cx| {
        let n = u as usize + 1;
        for close in [0, n / 2, n, n + 3] {
            let d: D = (0..n).map(|i| Range::new(i, 0).wrap(MetaData::StartNode(name("a")))).chain((0..close).map(|i| Range::new(n, i).wrap(MetaData::EndNode(name("a"))))).collect();
            for p in [0, n / 2, n - 1, n] {
                cx.inc("executions"); cx.inc("states"); cx.add("transitions", d.len() as u64);
                let r = guard(BUDGET, || { let mut c = Convert::new(&d); c.update(Range::new(0, p)); c.ignore() });
                if r != Ok(Range::new(p, skip(&d, p) - p)) { cx.violation(format!("ignore at {} of {} starts, {} ends", p, n, close), format!("{:?}", r)); if cx.failed() { return; } }
            }
        }
    }));
    let sizes: Vec<usize> = crate::p_sizes::sizes(thorough).into_iter().filter(|&n| n <= 20_000).collect();
    fams.push(fam("sizes", format!("lists of {} lengths up to {}: one node holding values, nodes holding nodes, nodes one after the other, a node never closed, values alone, ends alone; every operation at places near both ends and in the middle, jumps from there to all of those", sizes.len(), sizes.last().unwrap()), sizes.len() as u64 * 6, move |u, cx| {
        let n = sizes[sizes.len() - 1 - (u / 6) as usize];
        let a = name("a");
        let (s, e) = (MetaData::StartNode(a.clone()), MetaData::EndNode(name("b")));
        let value = |i: usize| match i % 3 { 0 => MetaData::Bool(a.clone(), true), 1 => MetaData::F64(a.clone(), i as f64), _ => MetaData::String(a.clone(), name(&i.to_string())) };
        let mut l: Vec<MetaData> = vec![value(1)];
        match u % 6 {
            0 => { l.push(s.clone()); for i in 0..n { l.push(value(i)); } l.push(e.clone()); }
            1 => { let n = n.min(3000); for _ in 0..n { l.push(s.clone()); l.push(value(n)); } for i in 0..n { l.push(e.clone()); l.push(value(i)); } }
            2 => { l.push(s.clone()); for i in 0..n { l.push(s.clone()); if i % 2 == 0 { l.push(value(i)); } l.push(e.clone()); } l.push(e.clone()); }
            3 => { l.push(s.clone()); for i in 0..n { l.push(value(i)); if i % 5 == 0 { l.push(s.clone()); l.push(e.clone()); } } }
            4 => for i in 0..n { l.push(value(i)); },
            _ => for _ in 0..n { l.push(e.clone()); },
        }
        l.push(value(2));
        let d: D = l.into_iter().enumerate().map(|(i, x)| Range::new(i * 2, 1).wrap(x)).collect();
        let len = d.len();
        let mut places = vec![0, 1, 2, 3, len / 3, len / 2, len / 2 + 1, len - 1, len];
        places.retain(|&p| p <= len);
        places.sort(); places.dedup();
        let r = guard(BUDGET, || -> Result<u64, String> {
            let mut k = 0;
            for &p in &places {
                let mut c = Convert::new(&d);
                c.update(Range::new(0, p));
                let q = skip_flat(&d, p);
                k += 5;
                if c.ignore() != Range::new(p, q - p) { return Err(format!("ignore at {}: {:?}, expected {}", p, c.ignore(), q - p)); }
                if c.remaining_data_len() != len - p { return Err(format!("remaining at {}: {}", p, c.remaining_data_len())); }
                let x = d.get(p).map(|x| &x.data);
                let one = Range::new(p, 1);
                if c.start_node("a") != match x { Some(MetaData::StartNode(_)) => Ok(one), _ => Err(()) } || c.end_node("b") != match x { Some(MetaData::EndNode(_)) => Ok(one), _ => Err(()) }
                    || c.meta_bool("a") != match x { Some(MetaData::Bool(_, v)) => Ok((one, *v)), _ => Err(()) } || c.meta_f64("a") != match x { Some(MetaData::F64(_, v)) => Ok((one, *v)), _ => Err(()) }
                    || c.meta_string("a") != match x { Some(MetaData::String(_, v)) => Ok((one, v.clone())), _ => Err(()) } { return Err(format!("reading at {}", p)); }
                for &q in &places { if q >= p {
                    let mut e = c;
                    e.update(Range::new(p, q - p));
                    k += 3;
                    let src = if p < q { Some(Range::new(d[p].offset, d[q - 1].next_offset() - d[p].offset)) } else { None };
                    if e.remaining_data_len() != len - q || e.subtract(c) != Range::new(p, q - p) || e.source(c) != src { return Err(format!("from {} to {}: {:?} {:?}", p, q, e.subtract(c), e.source(c))); }
                } }
            }
            Ok(k)
        });
        cx.inc("states"); cx.inc("executions");
        match r.and_then(|x| x) { Ok(k) => cx.add("transitions", k), Err(e) => { cx.violation(format!("size {} shape {}", n, u % 6), format!("list {} of size {} ({} entries): {}", u % 6, n, len, e)); } }
    }));
    Prop { id: "C17", level: "model_checking", rule: "a state is a list of meta data and a position of the real cursor in it; transitions are all operations there, compared with a list model",
        assumptions: vec!["differences are taken from an earlier to a later position, updates go forward"], families: fams }
}
