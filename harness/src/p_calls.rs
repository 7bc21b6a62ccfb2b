//! C18, C19, C23: calls do not influence each other; threads; files.

use crate::engine::*;
use crate::gram::*;
use crate::interp::{Settings, DEFAULT};
use crate::p_json::to_json;
use crate::p_parse::*;
use piston_meta::{bootstrap, json, load_syntax_data, parse, parse_errstr, parse_with_indent, syntax, syntax_errstr, MetaData, ParseError, ParseErrorHandler, Range, Syntax};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

extern "C" { fn alarm(s: u32) -> u32; fn gettid() -> i32; }

/// Runs a closure in a child process and returns the text it yields, or None if it died.
pub fn in_child(f: impl FnOnce() -> String) -> Option<String> {
    unsafe {
        let mut fd = [0i32; 2];
        assert!(sys::pipe(fd.as_mut_ptr()) == 0);
        let pid = sys::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            sys::close(fd[0]);
            alarm(60);
            let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "child panicked".into());
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = sys::write(fd[1], b.as_ptr() as *const _, b.len());
                if n <= 0 { break; }
                b = &b[n as usize..];
            }
            sys::_exit(if b.is_empty() { 0 } else { 1 });
        }
        sys::close(fd[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = sys::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 { break; }
            out.extend_from_slice(&buf[..n as usize]);
        }
        sys::close(fd[0]);
        let mut st = 0;
        sys::waitpid(pid, &mut st, 0);
        if st == 0 { String::from_utf8(out).ok() } else { None }
    }
}

// ---------------------------------------------------------------- the pool of calls

/// Rules and data the calls use; built from plain constructors only, no function of the library is called.
pub struct World { syn: Vec<Syntax>, data: Vec<Tokens> }

fn m(d: MetaData) -> Range<MetaData> { Range::new(1, 2).wrap(d) }
fn nm(s: &str) -> Arc<String> { Arc::new(s.to_string()) }

fn world() -> World {
    let list = |x: &str, y: &str| Set(vec![
        (1, "item".into(), sel(vec![tagp(x, "x"), G::Tag { t: y.into(), not: false, inv: true, p: Some("x") }, num("n"), G::Text { empty: true, p: Some("t") }])),
        (2, "d".into(), sep(true, false, seq(vec![tag(","), w0()]), rfp("item", "item")))]);
    let block = Set(vec![
        (1, "block".into(), lines(true, seq(vec![G::UntilWs { any: ":".into(), opt: false, p: Some("w") }, opt(seq(vec![tag(":"), rfp("block", "b")]))]))),
        (2, "d".into(), rf("block"))]);
    let flat = Set::one(lines(false, seq(vec![w0(), not(tag("-")), rep(false, sel(vec![tagp("a", "a"), tagp("b", "b")]))])));
    let wrong = Set::one(seq(vec![tag("a"), rf("missing")]));
    // Every kind of rule, with data.
    let kinds = Set(vec![
        (1, "x".into(), seq(vec![G::Until { any: ";é".into(), opt: false, p: Some("u") }, tag(";")])),
        (2, "y".into(), G::UntilWs { any: ",".into(), opt: false, p: Some("w") }),
        (3, "d".into(), lines(false, seq(vec![rfp("x", "x"), G::Num { us: true, p: Some("n") }, w1(), G::Text { empty: true, p: Some("t") }, w0(),
            sel(vec![tagp("+", "b"), G::Tag { t: "-".into(), not: false, inv: true, p: Some("b") }, nottag("+")]), G::Tag { t: "!".into(), not: true, inv: false, p: Some("nb") },
            sep(true, true, tag(","), rfp("y", "y")), opt(tagp("?", "o")), rep(true, tagp(" ", "s"))])))]);
    let deep = Set(vec![(1, "x".into(), seq(vec![tagp("(", "o"), opt(rfp("x", "n")), tag(")")])), (2, "d".into(), rf("x"))]);
    let start = |s: &str| m(MetaData::StartNode(nm(s)));
    let end = |s: &str| m(MetaData::EndNode(nm(s)));
    let b = |s: &str| m(MetaData::Bool(nm(s), true));
    let data = vec![
        vec![start("node"), m(MetaData::F64(nm("id"), 1.0)), m(MetaData::String(nm("name"), nm("d"))), start("rule"), start("token"), start("text"), m(MetaData::String(nm("value"), nm("a"))), end("text"), end("token"), end("rule"), end("node")],
        vec![start("node"), b("x"), end("node"), m(MetaData::F64(nm("id"), 1.0))],
        vec![start("é"), b("x"), start("\""), end("\""), end("é"), m(MetaData::String(nm("s"), nm("\n\\")))],
        vec![end("a"), b("x"), start("a")],
    ];
    World { syn: vec![list("a", "b").syntax(), list("b", "a").syntax(), block.syntax(), flat.syntax(), wrong.syntax(), Syntax::new(), kinds.syntax(), deep.syntax()], data }
}

const RULES: [&str; 6] = ["1 d = [\"a\":\"x\" .w?]", "1 d = [\"b\":\"x\" .w?]", "_s: \"a\"\n1 d = {_s:\"x\" \"b\"}\n", "1 d = [\"a\" .w?", "1 d = [_s .w?]", "/* c */\n1 a = .r!(\"x\")\n2 d = .l+(a:\"a\")"];
const TIGHT: Settings = Settings { indent: 4, align: false, tab: 2 };

/// Texts too large to write down.
fn large(k: usize) -> (usize, String) {
    match k {
        0 => (0, (0..600).map(|i| format!("{}, ", ["a", "b", "1_", "\"é\""][i % 4])).collect()),
        1 => (7, format!("{}{}", "(".repeat(800), ")".repeat(800))),
        2 => (7, format!("{}{}", "(".repeat(700), ")".repeat(699))),
        3 => (2, (0..200).map(|i| format!("{}w{}:\n", " ".repeat(i % 7), i)).collect()),
        4 => (6, (0..150).map(|i| format!("u{};{} \"t{}\" -y{},z{}?\n", i, i * 7, i, i, i + 1)).collect()),
        5 => (6, format!("{};1 \"{}\"+{},", "u".repeat(5000), "t".repeat(5000), "y".repeat(5000))),
        _ => (3, (0..600).map(|i| if i % 5 == 0 { "ab\n" } else { "  ba\n" }).collect()),
    }
}
fn large_rules() -> String { (0..40).map(|i| format!("{} n{} = [\"t{}\":\"p{}\" .w? ?n{} ...\"{};\"?:\"u\"] // {}\n", i + 1, i, i, i, (i + 1) % 40, i % 10, i)).collect() }

#[derive(Clone)]
pub enum Call { Large(usize), Compile(usize), Jsons(usize), Reports(usize), Converts(usize), Parse(usize, &'static str, Settings), ErrStr(usize, &'static str), Syntax(usize), SyntaxErr(usize), Optimize(usize), Json(usize), Str(&'static str), Convert(usize), Report(&'static str, usize), Bootstrap }
use Call::*;

fn calls() -> Vec<Call> {
    vec![
        Parse(0, "a, 1_, b", DEFAULT), Parse(0, "a, 12, b", DEFAULT), Parse(1, "a, 12, b", DEFAULT), Parse(0, "a, \"\\n\",", DEFAULT), Parse(0, "", DEFAULT),
        Parse(2, "x:\n  y\n  z\nw", DEFAULT), Parse(2, "x:\n y\n   z\nw", DEFAULT), Parse(2, "\tx:\n\t\ty", DEFAULT), Parse(2, "\tx:\n\t\ty", TIGHT), Parse(2, "x:\n  y\n  z\nw", TIGHT),
        Parse(3, "ab\n b", DEFAULT), Parse(3, "ab\n -", DEFAULT), Parse(4, "a", DEFAULT), Parse(5, "", DEFAULT),
        ErrStr(0, "a,\nx"), ErrStr(1, "a, b"),
        Syntax(0), Syntax(1), Syntax(2), Syntax(3), Syntax(4), SyntaxErr(3), SyntaxErr(5),
        Optimize(0), Optimize(1), Json(2), Json(3), Str("\u{1}é\""), Convert(0), Convert(1), Report("a\n\tb", 3), Bootstrap,
    ]
}

/// The calls threads make: those and others.
fn all_jobs() -> Vec<Call> {
    let mut v = calls();
    for t in ["ab;1_2 \"é\"+p,q?\nc;3 \"\" -r,", "xyz;45 \"n\" -s?  \n", "ab;1_2 \"é\"!p", "ab;12 \"e\"+p,q?\nd;7 \"\" -rr"] { v.push(Parse(6, t, DEFAULT)); }
    for t in ["((()))", "(((())))", "(()"] { v.push(Parse(7, t, DEFAULT)); }
    v.push(Optimize(6)); v.push(Str("\u{2}\"\\x")); v.push(Report("é\n\tx", 4));
    for i in 0..7 { v.push(Large(i)); }
    for i in 0..2 { v.push(Compile(i)); v.push(Jsons(i)); v.push(Reports(i)); v.push(Converts(i)); }
    v
}
/// The first of the jobs that are not calls, and the first large one.
const MORE: usize = 32;
const LARGE: usize = MORE + 10;

fn show(c: &Call) -> String {
    match c {
        Large(i) => { let (r, t) = large(*i); format!("parse(rules {}, {} characters {:?}..)", r, t.len(), t.chars().take(12).collect::<String>()) }
        Compile(i) => format!("syntax({} characters{})", large_rules().len(), if *i == 0 { "" } else { ", and one wrong" }),
        Jsons(i) => format!("json::write(large data {})", i), Reports(i) => format!("report(large text {})", i), Converts(i) => format!("convert(large data {})", i),
        Parse(r, t, s) => format!("parse(rules {}, {:?}{})", r, t, if *s == DEFAULT { "" } else { ", other settings" }), ErrStr(r, t) => format!("parse_errstr(rules {}, {:?})", r, t),
        Syntax(i) => format!("syntax({:?})", RULES[*i]), SyntaxErr(i) => format!("syntax_errstr({:?})", RULES[*i]), Optimize(i) => format!("optimize(rules {})", i),
        Json(i) => format!("json::write(data {})", i), Str(s) => format!("json::write_string({:?})", s), Convert(i) => format!("convert(data {})", i), Report(t, k) => format!("report({:?}, {})", t, k), Bootstrap => "bootstrap::rules()".into(),
    }
}

fn perform(w: &World, c: &Call) -> String {
    let data = |i: usize| -> Tokens { (0..400).flat_map(|k| { let mut v = w.data[i * 2].clone(); v.push(m(MetaData::F64(nm(&format!("é{}", k)), k as f64 / 3.0))); if i == 0 { v.pop(); } v }).collect() };
    let r = guard(BUDGET, || match c {
        Large(i) => { let (r, t) = large(*i); let mut d = vec![]; let r = parse(&w.syn[r], &t, &mut d); if r.is_ok() { format!("{:?}", d) } else { format!("{:?}", r) } }
        Compile(i) => { let t = large_rules(); format!("{:?}", syntax(&t[..t.len() - i * 8])) }
        Jsons(i) => { let d = data(*i); format!("{:?}", mc_shim::write_json(&d)) }
        Reports(i) => { let (_, t) = large(i + 3); format!("{:?} {:?}", mc_shim::report(&t, Range::new(t.len() / 2, 3).wrap(ParseError::ExpectedTag(nm(";"), 3))), mc_shim::message(&t, Range::new(t.len() - 1, 1), "x")) }
        Converts(i) => { let d = data(*i); let mut ig = vec![]; let r = bootstrap::convert(&d, &mut ig); if r.is_ok() { format!("{:?} {:?}", r, ig) } else { format!("{:?}", r) } }
        Parse(r, t, s) => { let mut d = vec![m(MetaData::Bool(nm("before"), true))]; let r = parse_with_indent(&w.syn[*r], t, &mut d, &settings(*s));
            let ok = r.is_ok(); if !ok { d.truncate(1); } format!("{:?} {:?}", r, d) }
        ErrStr(r, t) => { let mut d = vec![]; let r = parse_errstr(&w.syn[*r], t, &mut d); if r.is_ok() { format!("{:?}", d) } else { format!("{:?}", r) } }
        Syntax(i) => format!("{:?}", syntax(RULES[*i])),
        SyntaxErr(i) => format!("{:?}", syntax_errstr(RULES[*i])),
        Optimize(i) => format!("{:?}", w.syn[*i].clone().optimize()),
        Json(i) => format!("{:?}", mc_shim::write_json(&w.data[*i])),
        Str(s) => format!("{:?}", mc_shim::write_string(s)),
        Convert(i) => { let mut ig = vec![]; let r = bootstrap::convert(&w.data[*i], &mut ig); if r.is_ok() { format!("{:?} {:?}", r, ig) } else { format!("{:?}", r) } }
        Report(t, k) => format!("{:?}", mc_shim::report(t, Range::empty(*k).wrap(ParseError::ExpectedTag(nm(";"), 3)))),
        Bootstrap => format!("{:?}", bootstrap::rules()),
    });
    match r { Ok(s) => s, Err(e) => e }
}

/// Calls whose arguments are almost the same.
enum Near { Compile(String), Read(usize, String, Settings), Quote(String), Caret(String, usize, usize), Read2(Vec<Range<MetaData>>) }

fn one_edit(b: &str, ins: &[&str]) -> Vec<String> {
    let c: Vec<char> = b.chars().collect();
    let s = |v: &[char]| -> String { v.iter().collect() };
    let mut v = vec![b.to_string()];
    for i in 0..=c.len() {
        for x in ins { v.push(format!("{}{}{}", s(&c[..i]), x, s(&c[i..]))); }
        if i < c.len() {
            v.push(format!("{}{}", s(&c[..i]), s(&c[i + 1..])));
            v.push(format!("{}{}{}", s(&c[..i]), ins[0], s(&c[i + 1..])));
            if c[i].is_alphabetic() { v.push(format!("{}{}{}", s(&c[..i]), c[i].to_uppercase(), s(&c[i + 1..]))); v.push(format!("{}{}{}", s(&c[..i]), ((c[i] as u8) ^ 1) as char, s(&c[i + 1..]))); }
            if c[i].is_ascii_digit() { v.push(format!("{}{}{}", s(&c[..i]), ((c[i] as u8) ^ 1) as char, s(&c[i + 1..]))); }
        }
        if i + 1 < c.len() { v.push(format!("{}{}{}{}", s(&c[..i]), c[i + 1], c[i], s(&c[i + 2..]))); }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// Rule sets that differ in one thing: a token, a name, a flag, a number of a node, an order.
fn near_sets() -> Vec<Set> {
    let mut v = vec![];
    let tags = |x: &str, p: &'static str, inv: bool| G::Tag { t: x.into(), not: false, inv, p: Some(p) };
    let until = |x: &str, opt: bool, p: &'static str| G::Until { any: x.into(), opt, p: Some(p) };
    let items = vec![tags("a", "p", false), tags("b", "p", false), tags("a", "q", false), tags("a", "p", true), tags("ab", "p", false), until("b", true, "p"), until("a", true, "p"), until("b", false, "p"), opt(tags("a", "p", false)), not(not(tags("a", "p", false))), G::UntilWs { any: "b".into(), opt: true, p: Some("p") }];
    for k in [1, 2] {
        for i in &items {
            for d in [sep(true, false, tag(","), rfp("x", "n")), sep(true, true, tag(","), rfp("x", "n")), sep(true, false, tag(" "), rfp("x", "n")), rep(true, rfp("x", "n")), seq(vec![rfp("x", "n"), opt(tag(",")), opt(rfp("x", "m"))]), lines(false, rfp("x", "n")), sel(vec![seq(vec![rfp("x", "n"), tag(",")]), rfp("x", "n")])] {
                v.push(Set(vec![(k, "x".into(), i.clone()), (3, "d".into(), d)]));
            }
        }
    }
    v
}

fn near_calls(kind: usize) -> Vec<Near> {
    match kind {
        0 => one_edit("_s: \"a b\"\n1 x = [\"a\":\"x\" .w? \"c  d\"]\n2 d = {_s x}", &["x", " ", "\n"]).into_iter().map(Near::Compile).collect(),
        1 => { let n = near_sets().len(); (0..n).flat_map(|k| ["a", "b,a", "a,b", "a a", "ab,"].into_iter().map(move |t| Near::Read(k, t.to_string(), DEFAULT))).collect() }
        2 => one_edit("a,b ,ab\n a,  a", &["a", " ", "\n", ",", "é"]).into_iter().flat_map(|t| [3usize, 73, 39].into_iter().map(move |k| Near::Read(k, t.clone(), DEFAULT))).collect(),
        3 => {
            let mut v = vec![];
            for indent in 0..4u32 { for align in [true, false] { for tab in [0u8, 1, 2, 4] { for t in ["a\n a", "  a\n  b:\n\ta", "\ta\n\ta", " a:\n   b\n a"] { for set in [1000, 1001] { v.push(Near::Read(set, t.into(), Settings { indent, align, tab })); } } } } }
            v
        }
        4 => one_edit("a\"b\\ \né", &["x", "\"", "\u{1}", "\n", "é"]).into_iter().map(Near::Quote).collect(),
        5 => one_edit("a\n\tb é\n c", &["x", "\n", "\t"]).into_iter().flat_map(|t| { let at: Vec<usize> = t.char_indices().map(|x| x.0).step_by(3).collect(); at.into_iter().map(move |a| Near::Caret(t.clone(), a, 1)).collect::<Vec<_>>() }).collect(),
        7 => {
            let mut v = vec![];
            for n in [40usize, 300, 5000] {
                let at = |len: usize| -> Vec<usize> { let mut p: Vec<usize> = (0..=8).map(|k| k * (len - 1) / 8).chain([1, 17, len / 2 + 1]).collect(); p.sort(); p.dedup(); p };
                let edits = |t: &str, a: char, b: char| -> Vec<String> {
                    let c: Vec<char> = t.chars().collect();
                    [t.to_string()].into_iter().chain(at(c.len()).into_iter().map(|i| { let mut d = c.clone(); let i = (i..d.len()).find(|&j| d[j] == a || d[j] == b).unwrap_or_else(|| (0..i).rev().find(|&j| d[j] == a || d[j] == b).unwrap()); d[i] = if d[i] == a { b } else { a }; d.into_iter().collect() })).collect()
                };
                for t in edits(&"ab\n".repeat(n / 3), 'a', 'b') { v.push(Near::Read(2003, t.clone(), DEFAULT)); v.push(Near::Caret(t.clone(), t.len() / 2, 1)); v.push(Near::Caret(t.replace('\n', "ab"), t.len() / 2, 1)); }
                for t in edits(&("a, ".repeat(n / 3) + "a"), 'a', 'b') { v.push(Near::Read(2000, t, DEFAULT)); }
                for t in edits(&"x\"y\u{e9}".repeat(n / 4), 'x', 'y') { v.push(Near::Quote(t)); }
                if n < 1000 {
                    let r: String = (0..n / 20 + 1).map(|i| format!("{} n{} = [\"t\":\"t\" .w? ?n{}]\n", i + 1, i, i)).collect();
                    for t in edits(&r, 't', 'u') { v.push(Near::Compile(t)); }
                }
                let d: Vec<Range<MetaData>> = (0..n / 10).flat_map(|i| world().data[if i == 0 { 0 } else { 2 }].clone()).collect();
                for i in at(d.len()) { let mut e = d.clone(); e[i] = Range::new(1, 2).wrap(MetaData::Bool(nm("x"), true)); v.push(Near::Read2(e)); }
                v.push(Near::Read2(d));
            }
            v
        }
        _ => {
            let base = &world().data[0];
            let mut v = vec![base.clone()];
            for i in 0..base.len() {
                let mut d = base.clone(); d.remove(i); v.push(d);
                let mut d = base.clone(); let x = d[i].clone(); d.insert(i, x); v.push(d);
                let mut d = base.clone(); d[i] = Range::new(1, 2).wrap(match &d[i].data { MetaData::StartNode(n) => MetaData::StartNode(nm(&format!("{}x", n))), MetaData::EndNode(n) => MetaData::EndNode(nm(&format!("{}x", n))), MetaData::Bool(n, b) => MetaData::Bool(n.clone(), !b), MetaData::F64(n, x) => MetaData::F64(n.clone(), x + 1.0), MetaData::String(n, s) => MetaData::String(n.clone(), nm(&format!("{}x", s))) }); v.push(d);
                if i + 1 < base.len() { let mut d = base.clone(); d.swap(i, i + 1); v.push(d); }
            }
            v.into_iter().map(Near::Read2).collect()
        }
    }
}

/// Every call finds its arguments at the same place in memory as the one before.
struct Places { text: String, rules: Box<Syntax>, data: Tokens }
impl Places {
    fn new() -> Places { Places { text: String::with_capacity(1 << 14), rules: Box::new(Syntax::new()), data: Vec::with_capacity(4096) } }
    fn text(&mut self, t: &str) { self.text.clear(); self.text.push_str(t); }
}

fn perform_near(sets: &[Syntax], at: &mut Places, c: &Near) -> String {
    match c {
        Near::Compile(t) | Near::Quote(t) | Near::Caret(t, _, _) => at.text(t),
        Near::Read(k, t, _) => { at.text(t); *at.rules = Syntax::new(); *at.rules = if *k >= 2000 { world().syn.swap_remove(k - 2000) } else if *k >= 1000 { world().syn.swap_remove(k - 1000 + 2) } else { sets[*k].clone() }; }
        Near::Read2(d) => { at.data.clear(); at.data.extend_from_slice(d); }
    }
    let (t, syn, d) = (&at.text[..], &*at.rules, &at.data[..]);
    let r = guard(BUDGET, || match c {
        Near::Compile(_) => format!("{:?}", syntax(t)),
        Near::Read(_, _, s) => { let mut d = vec![]; let r = parse_with_indent(syn, t, &mut d, &settings(*s)); if r.is_ok() { format!("{:?}", d) } else { format!("{:?}", r) } }
        Near::Quote(_) => { let mut v: Vec<u8> = vec![]; json::write_string(&mut v, t).unwrap(); format!("{:?}", v) }
        Near::Caret(_, a, l) => { let l = t[*a..].chars().take(*l).map(|c| c.len_utf8()).sum(); let mut v: Vec<u8> = vec![]; ParseErrorHandler::new(t).write(&mut v, Range::new(*a, l).wrap(ParseError::ExpectedTag(nm(";"), 3))).unwrap(); format!("{:?}", v) }
        Near::Read2(_) => { let mut ig = vec![]; let r = bootstrap::convert(d, &mut ig); let j = if r.is_ok() { format!("{:?}", ig) } else { String::new() }; format!("{:?} {} {:?}", r, j, to_json(d)) }
    });
    match r { Ok(s) => s, Err(e) => e }
}

fn show_near(c: &Near) -> String {
    match c {
        Near::Compile(t) => format!("syntax({:?})", t), Near::Read(k, t, s) => format!("parse({}, {:?}, {:?})", near_sets().get(*k).map_or(format!("rules {}", *k), |s| s.text().replace('\n', " ; ")), t, s),
        Near::Quote(t) => format!("json::write_string({:?})", t), Near::Caret(t, a, _) => format!("report({:?}, {})", t, a), Near::Read2(d) => format!("convert and json::write({:?})", d),
    }
}

/// Every ordered pair of calls with almost the same arguments, one directly after the other.
fn near(kind: usize) -> Family {
    let what = ["compiling rule texts one edit apart", "parsing with rule sets that differ in one thing", "parsing texts one edit apart", "parsing under different settings", "writing strings one edit apart", "reporting errors in texts one edit apart", "converting and writing meta data one edit apart", "all of these with texts and lists of 40, 300 and 5000 characters or entries that differ in one place"][kind];
    let n = near_calls(kind).len();
    let block = 4000;
    let seq = Arc::new(de_bruijn(n, 2));
    let cell: Arc<OnceLock<Vec<u64>>> = Arc::new(OnceLock::new());
    fam(format!("near calls {}", kind), format!("{}: {} calls, every ordered pair directly after one another, in histories of {} calls in a process of their own, the arguments of all at the same place in memory, each result compared with that of the call alone in a process", what, n, block), ((seq.len() + block - 1) / block) as u64, move |u, cx| {
        let cs = near_calls(kind);
        let sets: Vec<Syntax> = near_sets().iter().map(|s| s.syntax()).collect();
        let want = cell.get_or_init(|| cs.iter().map(|c| in_child(|| hash(&perform_near(&sets, &mut Places::new(), c)).to_string()).and_then(|s| s.parse().ok()).unwrap_or(0)).collect());
        let (a, b) = (u as usize * block, ((u as usize + 1) * block + 1).min(seq.len()));
        cx.add("states", (b - a) as u64); cx.add("transitions", (b - a) as u64); cx.add("executions", (b - a) as u64);
        cx.note(|| format!("{}: calls {}..{}", what, a, b));
        let r = in_child(|| {
            let mut at = Places::new();
            for (i, c) in seq[a..b].iter().enumerate() {
                let s = perform_near(&sets, &mut at, &cs[*c]);
                if hash(&s) != want[*c] { return format!("call {}, {}, after {:?}, gives\n{}", i, show_near(&cs[*c]), seq[a..a + i].iter().rev().take(3).rev().map(|c| show_near(&cs[*c])).collect::<Vec<_>>(), s); }
            }
            "same".into()
        });
        if r.as_deref() != Some("same") {
            let r = r.unwrap_or("the process died".into());
            let head: String = r.chars().take_while(|c| *c != '\n').take(300).collect();
            cx.violation(format!("near calls {}: {}", kind, head), r);
        }
    })
}

/// One call made over and over, then every call once.
fn endless(times: usize) -> Family {
    let k = calls().len();
    fam("endless", format!("each of {} calls {} times over in one process, every result the same; then every call once", k, times), k as u64, move |u, cx| {
        let cs = calls();
        let want = alone();
        cx.inc("states"); cx.add("transitions", (times + k) as u64); cx.add("executions", (times + k) as u64);
        cx.note(|| format!("{} over and over", show(&cs[u as usize])));
        let r = in_child(|| {
            unsafe { alarm(800); }
            let w = world();
            for i in 0..times { let s = perform(&w, &cs[u as usize]); if hash(&s) != want[u as usize] { return format!("time {}: {}", i + 1, s); } }
            for (i, c) in cs.iter().enumerate() { let s = perform(&w, c); if hash(&s) != want[i] { return format!("after {} times, {} gives {}", times, show(c), s); } }
            if unchanged(&w) { "same".into() } else { "rules or data changed".into() }
        });
        if r.as_deref() != Some("same") { cx.violation(format!("{} over and over", show(&cs[u as usize])), r.unwrap_or("the process died".into())); }
    })
}

/// Runs a closure with standard output and error going to memory; single-threaded processes only.
fn captured<T>(f: impl FnOnce() -> T) -> (Result<T, String>, Vec<u8>, Vec<u8>) {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::fd::{AsRawFd, FromRawFd};
    let file = || unsafe { let fd = memfd_create(b"captured\0".as_ptr() as *const _, 0); assert!(fd >= 0, "memfd"); std::fs::File::from_raw_fd(fd) };
    let (mut out, mut err) = (file(), file());
    std::io::stdout().flush().unwrap();
    let keep = unsafe { (dup(1), dup(2)) };
    unsafe { sys::dup2(out.as_raw_fd(), 1); sys::dup2(err.as_raw_fd(), 2); }
    let r = guard(BUDGET * 10, f);
    let _ = std::io::stdout().flush();
    unsafe { sys::dup2(keep.0, 1); sys::dup2(keep.1, 2); sys::close(keep.0); sys::close(keep.1); }
    let mut read = |f: &mut std::fs::File| { let mut v = vec![]; f.seek(SeekFrom::Start(0)).unwrap(); f.read_to_end(&mut v).unwrap(); v };
    let (o, e) = (read(&mut out), read(&mut err));
    (r, o, e)
}
extern "C" { fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32; fn dup(fd: i32) -> i32; }

/// A file in memory, and a path that opens it anew.
fn in_memory(b: &[u8]) -> (std::fs::File, String) {
    use std::io::Write;
    use std::os::fd::{AsRawFd, FromRawFd};
    let mut f = unsafe { let fd = memfd_create(b"file\0".as_ptr() as *const _, 0); assert!(fd >= 0, "memfd"); std::fs::File::from_raw_fd(fd) };
    f.write_all(b).unwrap();
    let p = format!("/proc/self/fd/{}", f.as_raw_fd());
    (f, p)
}

/// Calls that read files, print, report to standard error or panic.
const OUTSIDE: usize = 18;
fn outside(i: usize) -> String {
    let reports = [("a\n\n  b;\n", 6usize), ("é\t𝄞x", 3), ("", 0)];
    let error = |k: usize| Range::empty(reports[k].1).wrap(ParseError::ExpectedTag(nm(";"), k));
    let files = [("1 d = \"a\":\"x\"", "a"), ("1 d = \"a\":\"y\"", "a"), ("1 d = \"a\":\"x\"", "b"), ("1 d = \"a\":\"x", "a"), ("1 d = .r?({\"a\":\"x\" \"é\":\"y\"})", "aééa"), ("1 d = .r?({\"a\":\"x\" \"é\":\"y\"})", "aé\na")];
    let w = world();
    let (r, o, e) = match i {
        0..=2 => captured(|| { ParseErrorHandler::new(reports[i].0).error(error(i)); String::new() }),
        3..=5 => captured(|| piston_meta::stderr_unwrap::<String>(reports[i - 3].0, Err(error(i - 3)))),
        6 => captured(|| piston_meta::stderr_unwrap("a", Ok("ok".to_string()))),
        7..=12 => { let (s, d) = files[i - 7]; let (s, d) = (in_memory(s.as_bytes()), in_memory(d.as_bytes())); captured(|| format!("{:?}", load_syntax_data(&s.1, &d.1))) }
        13 => { let s = in_memory(b"1 d = \"a\""); captured(|| format!("{:?}", load_syntax_data(&s.1, "/proc/self/fd/none"))) }
        14 => { let (s, d) = (in_memory(b"1 d = \"a\""), in_memory(b"a\xff")); captured(|| format!("{:?}", load_syntax_data(&s.1, &d.1))) }
        15 | 16 => captured(|| { json::print(&w.data[i - 13]); String::new() }),
        _ => captured(|| format!("{:?} {:?}", syntax_errstr(RULES[3]), syntax(RULES[1]))),
    };
    // What a panic says may name places in the source.
    format!("{:?} {:?} {:?}", r.map_err(|_| "panicked"), String::from_utf8_lossy(&o), String::from_utf8_lossy(&e))
}
fn show_outside(i: usize) -> String {
    match i { 0..=2 => format!("ParseErrorHandler::error {}", i), 3..=6 => format!("stderr_unwrap {}", i - 3), 7..=14 => format!("load_syntax_data {}", i - 7), 15 | 16 => format!("json::print {}", i - 15), _ => "syntax_errstr, syntax".into() }
}

/// All sequences of calls with effects outside the process.
fn outsides(thorough: bool) -> Family {
    let n = if thorough { 4 } else { 3 };
    let total = (OUTSIDE as u64).pow(n);
    let per = OUTSIDE as u64 * 3;
    let cell: Arc<OnceLock<Vec<String>>> = Arc::new(OnceLock::new());
    fam("outside", format!("all sequences of {} calls out of {} that read files, write to standard output or error or panic, each sequence in a process of its own: every call returns or panics and writes what it does alone", n, OUTSIDE), total / per, move |u, cx| {
        let want = cell.get_or_init(|| (0..OUTSIDE).map(|i| in_child(|| outside(i)).unwrap_or_else(|| "died".into())).collect());
        for i in u * per..(u + 1) * per {
            let seq: Vec<usize> = (0..n).map(|k| (i / (OUTSIDE as u64).pow(k)) as usize % OUTSIDE).collect();
            let name = || seq.iter().map(|&i| show_outside(i)).collect::<Vec<_>>().join("; ");
            cx.inc("states"); cx.add("transitions", n as u64); cx.inc("executions");
            cx.note(name);
            let r = in_child(|| {
                for (k, &i) in seq.iter().enumerate() { let s = outside(i); if s != want[i] { return format!("call {}, {}: {}\nalone: {}", k + 1, show_outside(i), s, want[i]); } }
                "same".into()
            });
            if r.as_deref() != Some("same") { cx.violation(format!("outside: {}", name()), r.unwrap_or("the process died".into())); if cx.failed() { return; } }
        }
    })
}

/// What each call yields in a process in which nothing else was called.
fn alone() -> &'static Vec<u64> {
    static R: OnceLock<Vec<u64>> = OnceLock::new();
    R.get_or_init(|| calls().iter().map(|c| in_child(|| hash(&perform(&world(), c)).to_string()).and_then(|s| s.parse().ok()).unwrap_or(0)).collect())
}

fn unchanged(w: &World) -> bool { let v = world(); w.syn == v.syn && format!("{:?}", w.data) == format!("{:?}", v.data) }

/// Sequence of length 3 or 4 windows: de Bruijn sequence over k symbols.
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0; k * n];
    let mut out = vec![];
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n { if n % p == 0 { out.extend_from_slice(&a[1..=p]); } return; }
        a[t] = a[t - p];
        db(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k { a[t] = j; db(t + 1, t, k, n, a, out); }
    }
    db(1, 1, k, n, &mut a, &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

/// Calls over whole spaces of arguments, made in two orders and each twice in a row.
fn orders(thorough: bool) -> Vec<Family> {
    type Call1 = Box<dyn Fn(u64) -> String>;
    type Make = fn(bool) -> (u64, Call1);
    fn parsed(y: &Syntax, t: &str, s: Settings) -> String { let mut d = vec![]; let r = parse_with_indent(y, t, &mut d, &settings(s)); if r.is_ok() { format!("{:?}", d) } else { format!("{:?}", r) } }
    fn both(set: &Set, t: &str, s: Settings) -> String { let y = set.syntax(); let a = parsed(&y, t, s); format!("{} {}", a, parsed(&y.optimize(), t, s)) }
    fn tree_space(sp: Space, max: usize) -> (u64, impl Fn(u64) -> Set) {
        let c = sp.counts(max);
        (c.iter().sum(), move |i: u64| { let (mut k, mut j) = (1, i); while j >= c[k] { j -= c[k]; k += 1 } lift(sp.tree(k, j, &c)) })
    }
    let kinds: Vec<(&'static str, String, u64, Make)> = vec![
        ("compiling", format!("rule texts: every sequence of up to {} lexemes out of 22, and every text one edit from three", if thorough { 4 } else { 3 }), 256, |th| {
            let w = Words::new(&["[", "]", "{", "}", ".s?(", ".r!(", ")", "?", ":", "\"p\"", "a", "_s", "_u", "\"t\"", ".w!", ".t?", ".$_", "..\"x\"?", "...", "!", "\n2 b = ", " "], if th { 4 } else { 3 });
            let n = w.count();
            let more: Vec<String> = ["_s: \"x\"\n1 a = [a \"b\":\"p\"]", "1 a = .l+(.s!.(\",\" a:\"n\")) // c", "/* c */\n12 é = {.$:\"n\" ..\"x\"?}\n"].iter().flat_map(|b| one_edit(b, &["x", " ", "\n", "\"", "1"])).collect();
            (n + more.len() as u64, Box::new(move |i| { let t = if i < n { format!("_s: \"x\"\n1 a = {}\n", w.word(i)) } else { more[(i - n) as usize].clone() }; let r = syntax(&t); format!("{:?} => {:?}", t, r) }))
        }),
        ("converting", "meta data: every edit (truncation, deletion of any stretch, insertion and replacement over 33 entries, swaps, nodes deleted, doubled, moved, lifted, renamed) of three documents".into(), 512, |_| {
            let v: Vec<Vec<MetaData>> = crate::p_conv::documents().iter().flat_map(|d| crate::p_conv::edits(d)).collect();
            (v.len() as u64, Box::new(move |i| { let d = crate::p_conv::ranged(&v[i as usize]); let mut ig = vec![]; let r = bootstrap::convert(&d, &mut ig); if r.is_ok() { format!("{:?} => {:?} {:?}", d, r, ig) } else { format!("{:?} => {:?}", d, r) } }))
        }),
        ("parsing", "rule trees of up to 3 nodes over 6 leaves, plain and optimized, on texts up to 4 characters".into(), 4096, |_| {
            let (n, set) = tree_space(Space { leaves: core_leaves(), un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() }, 3);
            let t = Words::new(&["a", "b", " "], 4).all();
            let k = t.len() as u64;
            (n * k, Box::new(move |i| { let s = set(i / k); let t = &t[(i % k) as usize]; format!("{} {:?} => {}", s.text(), t, both(&s, t, DEFAULT)) }))
        }),
        ("reading", "rule trees of up to 2 nodes over every kind of reader, plain and optimized, on texts up to 3 characters out of 12".into(), 4096, |_| {
            let (n, set) = tree_space(Space { leaves: reader_leaves(), un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() }, 2);
            let t = Words::new(&["a", ",", " ", "\"", "1", "_", ".", "-", "e", "\\", "é", "\n"], 3).all();
            let k = t.len() as u64;
            (n * k, Box::new(move |i| { let s = set(i / k); let t = &t[(i % k) as usize]; format!("{} {:?} => {}", s.text(), t, both(&s, t, DEFAULT)) }))
        }),
        ("blocks", "17 rule sets of blocks and lines on all texts up to 5 symbols, four settings".into(), 4096, |_| {
            let sets = crate::p_lines::programs();
            let t = Words::new(&["a", "b", " ", "\n", "\t"], 5).all();
            let (k, m) = (t.len() as u64, sets.len() as u64);
            (m * k * 4, Box::new(move |i| { let s = &sets[(i / 4 / k) as usize]; let t = &t[(i / 4 % k) as usize]; let st = Settings { indent: (i % 2) as u32, align: i / 2 % 2 == 0, tab: 2 }; format!("{} {:?} {:?} => {}", s.text(), t, st, both(s, t, st)) }))
        }),
        ("optimizing", "rule trees of up to 4 nodes over 6 leaves".into(), 1024, |_| {
            let (n, set) = tree_space(Space { leaves: core_leaves(), un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() }, 4);
            (n, Box::new(move |i| { let s = set(i); let y = s.syntax(); format!("{} => {:?}", s.text(), y.optimize()) }))
        }),
        ("numbers and strings", "number and text rules on texts up to 5 characters of either kind".into(), 4096, |_| {
            let num = Set(vec![(1, "d".into(), sel(vec![G::Num { us: true, p: Some("n") }, G::Num { us: false, p: Some("m") }, G::Text { empty: true, p: Some("t") }]))]).syntax();
            let mut t = Words::new(&["0", "1", "9", ".", "e", "-", "_"], 5).all();
            t.extend(Words::new(&["\\", "n", "u", "0", "é", "x"], 5).all().iter().map(|s| format!("\"{}\"", s)));
            (t.len() as u64, Box::new(move |i| format!("{:?} => {}", t[i as usize], parsed(&num, &t[i as usize], DEFAULT))))
        }),
        ("errors as text", "two rule sets on texts up to 6 characters through parse_errstr".into(), 2048, |_| {
            let w = world();
            let t = Words::new(&["a", ",", "b", "\n", "é"], 6).all();
            (t.len() as u64 * 2, Box::new(move |i| { let t = &t[(i / 2) as usize]; let mut d = vec![]; let r = parse_errstr(&w.syn[(i % 2) as usize], t, &mut d); if r.is_ok() { format!("{:?} => {:?}", t, d) } else { format!("{:?} => {:?}", t, r) } }))
        }),
        ("reporting", "texts up to 5 characters out of 6, every place, two lengths".into(), 4096, |_| {
            let t: Vec<String> = Words::new(&["a", " ", "\n", "\t", "é", "\r"], 5).all();
            let c: Vec<(u32, u32, u32)> = t.iter().enumerate().flat_map(|(k, t)| t.char_indices().map(|x| x.0).chain([t.len()]).flat_map(move |i| [(k as u32, i as u32, 0), (k as u32, i as u32, (t.len() - i) as u32)]).collect::<Vec<_>>()).collect();
            (c.len() as u64, Box::new(move |i| { let (k, o, l) = c[i as usize]; let t = &t[k as usize]; let mut v: Vec<u8> = vec![]; let mut h = ParseErrorHandler::new(t); let r = Range::new(o as usize, l as usize); h.write(&mut v, r.wrap(ParseError::ExpectedTag(nm(";"), 3))).unwrap(); h.write_msg(&mut v, r, "x").unwrap(); format!("{:?} {:?} => {:?}", t, r, v) }))
        }),
        ("writing", "lists of up to 4 entries out of 12, strings of up to 4 characters out of 9".into(), 4096, |_| {
            let al = crate::p_json::entries(12);
            let k = al.len() as u64;
            let lists: u64 = (0..=4).map(|j| k.pow(j)).sum();
            let w = Words::new(&["a", "\"", "\\", "\n", "\u{1}", "é", "𝄞", "/", "\t"], 4);
            (lists + w.count(), Box::new(move |i| {
                if i >= lists { let t = w.word(i - lists); let mut v: Vec<u8> = vec![]; json::write_string(&mut v, &t).unwrap(); return format!("{:?} => {:?}", t, v); }
                let (mut j, mut i) = (0, i);
                while i >= k.pow(j) { i -= k.pow(j); j += 1; }
                let mut d = vec![];
                for _ in 0..j { d.push(al[(i % k) as usize].clone()); i /= k; }
                format!("{:?} => {:?}", d, to_json(&d))
            }))
        }),
    ];
    kinds.into_iter().map(|(name, bound, block, make)| {
        let n = make(thorough).0;
        fam(format!("orders: {}", name), format!("{}: {} calls, each twice in a row, in blocks of {} in a process forward and in another backward: every call gives the same every time", bound, n, block), (n + block - 1) / block, move |u, cx| {
            let (a, b) = (u * block, ((u + 1) * block).min(n));
            cx.add("states", 4 * (b - a)); cx.add("transitions", 4 * (b - a)); cx.add("executions", 4 * (b - a));
            cx.note(|| format!("{} {}..{}", name, a, b));
            let run = |back: bool, stop: Option<u64>| in_child(|| {
                let call = make(thorough).1;
                let once = |i: u64| match guard(BUDGET, || call(i)) { Ok(s) => s, Err(e) => format!("call {}: {}", i, e) };
                let mut v = vec![];
                for k in 0..b - a {
                    let i = if back { b - 1 - k } else { a + k };
                    let (x, y) = (once(i), once(i));
                    if x != y { return format!("!twice in a row:\n{}\n{}", x, y); }
                    if stop == Some(i) { return x; }
                    v.push(hash(&x).to_string());
                }
                if back { v.reverse(); }
                v.join(" ")
            });
            let (f, g) = (run(false, None), run(true, None));
            if f.is_some() && f == g && !f.as_ref().unwrap().starts_with('!') { return; }
            let (f, g) = (f.unwrap_or("!the process died".into()), g.unwrap_or("!the process died".into()));
            for x in [&f, &g] { if x.starts_with('!') { cx.violation(format!("{}: {}", name, x.lines().next().unwrap_or("")), format!("{} {}..{}: {}", name, a, b, x)); return; } }
            let i = a + f.split(' ').zip(g.split(' ')).position(|(x, y)| x != y).unwrap_or(0) as u64;
            let (x, y) = (run(false, Some(i)).unwrap_or_default(), run(true, Some(i)).unwrap_or_default());
            cx.violation(format!("{} {}: {}", name, i, x.split(" => ").next().unwrap_or("").chars().take(200).collect::<String>()), format!("after calls {}..{}:\n{}\nafter calls {}..{} backward:\n{}", a, i, x, b, i, y));
        })
    }).collect()
}

pub fn c18(thorough: bool) -> Prop {
    let k = calls().len();
    let mut fams = vec![];
    // Sequences in processes of their own.
    fams.push(fam("fresh processes", format!("all sequences of up to three calls out of {} ({} of them compiling, the others parsing with shared and different rules and settings, optimizing, formatting, converting), each in a process in which nothing was called before", k, 8), (k * k) as u64, move |u, cx| {
        let cs = calls();
        let (a, b) = (u as usize / k, u as usize % k);
        let want = alone();
        for c in 0..k {
            cx.inc("states"); cx.add("transitions", 3); cx.inc("executions");
            cx.note(|| format!("{}; {}; {}", show(&cs[a]), show(&cs[b]), show(&cs[c])));
            let r = in_child(|| {
                let w = world();
                let mut s = String::new();
                for i in [a, b, c] { s.push_str(&format!("{} ", hash(&perform(&w, &cs[i])))); }
                s.push_str(if unchanged(&w) { "same" } else { "changed" });
                s
            });
            let expect = format!("{} {} {} same", want[a], want[b], want[c]);
            if r.as_ref() != Some(&expect) {
                let f: Vec<String> = r.clone().unwrap_or_default().split(' ').map(|x| x.to_string()).collect();
                let which = [a, b, c].iter().zip(&f).position(|(i, x)| *x != want[*i].to_string());
                let sigt = format!("{}; {}; {}", show(&cs[a]), show(&cs[b]), show(&cs[c]));
                cx.violation(sigt.clone(), match which {
                    Some(p) => format!("in the sequence {}: call {} gives another result than alone\nalone: {:?}\nhere: {:?}", sigt, p + 1,
                        in_child(|| perform(&world(), &cs[[a, b, c][p]])),
                        in_child(|| { let w = world(); let mut s = String::new(); for i in &[a, b, c][..=p] { s = perform(&w, &cs[*i]); } s })),
                    None => format!("in the sequence {}: {:?} (process died, or rules or data changed)", sigt, r) });
                if cx.failed() { return; }
            }
        }
        cx.sample(|| format!("{}; {}; then each of the calls: results as alone", show(&cs[a]), show(&cs[b])));
    }));
    // All windows of n calls within one long history.
    let n = if thorough { 4 } else { 3 };
    let seq = Arc::new(de_bruijn(k, n));
    let block = if thorough { 20000 } else { 2000 };
    let units = (seq.len() + block - 1) / block;
    fams.push(fam("long histories", format!("histories of {} calls in one process each that together contain every sequence of {} calls out of {}", block, n, k), units as u64, move |u, cx| {
        let cs = calls();
        let want = alone();
        let (a, b) = (u as usize * block, ((u as usize + 1) * block + n - 1).min(seq.len()));
        cx.add("states", (b - a) as u64); cx.add("transitions", (b - a) as u64); cx.add("executions", (b - a) as u64);
        cx.note(|| format!("history of calls {}..{}", a, b));
        let r = in_child(|| {
            let w = world();
            for (i, c) in seq[a..b].iter().enumerate() {
                let s = perform(&w, &cs[*c]);
                if hash(&s) != want[*c] { return format!("call {}, {}, after {:?}, gives {}", i, show(&cs[*c]), seq[a..a + i].iter().rev().take(4).rev().map(|c| show(&cs[*c])).collect::<Vec<_>>(), s); }
            }
            if unchanged(&w) { "same".into() } else { "rules or data changed".into() }
        });
        if r.as_deref() != Some("same") { cx.violation(format!("history {}..{}", a, b), r.unwrap_or("the process died".into())); }
    }));
    // Appending.
    let texts = Words::new(&["a", "b"], 3).all();
    let leaves = vec![tagp("a", "p"), tag("b"), nottag("a"), G::Until { any: "b".into(), opt: true, p: Some("u") }, named(tagp("b", "q"))];
    let sp = Space { leaves, un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() };
    let max = if thorough { 5 } else { 4 };
    let c = sp.counts(max);
    let n: u64 = c.iter().sum();
    fams.push(fam("appending", format!("all rule trees up to {} nodes over {} leaves, plain and optimized, on all texts up to 3 characters over a, b: output that already holds 0, 1, 2 or 5 entries (also entries left by a failed parse), the same parse twice into one output", max, sp.leaves.len()), (n + 31) / 32, move |u, cx| {
        let first: Tokens = vec![m(MetaData::StartNode(nm("x"))), m(MetaData::F64(nm("p"), 0.5)), m(MetaData::EndNode(nm("q"))), m(MetaData::Bool(nm("p"), false)), m(MetaData::String(nm("u"), nm("a")))];
        for i in u * 32..((u + 1) * 32).min(n) {
            let (mut kk, mut j) = (1, i);
            while j >= c[kk] { j -= c[kk]; kk += 1 }
            let set = lift(sp.tree(kk, j, &c));
            let raw = set.syntax();
            let o = match load(&set, cx) { None => return, Some((_, o)) => o };
            for syn in [&raw, &o] { for t in &texts {
                let run = |pre: &[Range<MetaData>], cx: &mut Cx| { cx.inc("executions"); cx.inc("transitions"); guard(BUDGET, || { let mut d = pre.to_vec(); let r = parse(syn, t, &mut d); (r, d) }) };
                cx.inc("states");
                cx.note(|| sig(&set, t, DEFAULT));
                let base = match run(&[], cx) { Ok(x) => x, Err(_) => { cx.inc("does not return (C06)"); continue } };
                let ok = base.0.is_ok();
                let mut bad = None;
                for p in [1, 2, 5] {
                    match run(&first[..p], cx) {
                        Err(e) => bad = Some(e),
                        Ok((r, d)) => {
                            let same = r == base.0 && d.len() >= p && d[..p].iter().zip(&first).all(|(a, b)| eq_range(a, b))
                                && (!ok || d.len() - p == base.1.len() && d[p..].iter().zip(&base.1).all(|(a, b)| eq_range(a, b)));
                            if !same { bad = Some(format!("output holding {:?}:\n{:?} {:?}\nempty output:\n{:?} {:?}", &first[..p], r, d, base.0, base.1)); }
                            if p == 5 && bad.is_none() {
                                // Once more into whatever the first parse left.
                                if let Ok((r2, d2)) = run(&d, cx) {
                                    let same = r2 == base.0 && d2.len() >= d.len() && d2[..d.len()].iter().zip(&d).all(|(a, b)| eq_range(a, b)) && (!ok || d2.len() == d.len() + base.1.len());
                                    if !same { bad = Some(format!("second parse into {:?}:\n{:?} {:?}", d, r2, d2)); }
                                }
                            }
                        }
                    }
                }
                cx.inc(if ok { "appended" } else { "failed and kept what was there" });
                if let Some(b) = bad { cx.violation(format!("append {}", sig(&set, t, DEFAULT)), format!("{}{}", describe(&set, t, DEFAULT), b)); if cx.failed() { return; } }
            } }
        }
    }));
    // Large calls between small ones.
    let shapes = crate::p_sizes::shapes();
    let all: Vec<usize> = crate::p_sizes::sizes(thorough);
    let mut cases: Vec<(usize, usize)> = vec![];
    for (i, s) in shapes.iter().enumerate() { for &n in all.iter().filter(|&&n| n <= s.1 && (n <= 4 || n % 10 == 0 || n > 100)) { cases.push((i, n)); } }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    fams.push(fam("large calls", format!("{} rule sets of the growing shapes of the parsing checks (sizes up to 1100, flat ones to 65537) with up to six texts each, plain and optimized, in processes of their own: all small calls, the large parses, all small calls, the large parses again, also into output that already holds the result; each result as the first time and as alone", cases.len()), cases.len() as u64, move |u, cx| {
        let cs = calls();
        let want = alone();
        let (i, n) = cases[u as usize];
        cx.inc("states"); cx.add("transitions", 2 * cs.len() as u64); cx.add("executions", 2 * cs.len() as u64);
        cx.note(|| format!("{} of size {}", shapes[i].0, n));
        let r = in_child(|| {
            let w = world();
            let small = |when: &str| -> Option<String> {
                for (k, c) in cs.iter().enumerate() { let s = perform(&w, c); if hash(&s) != want[k] { return Some(format!("{} the large parses {} gives {}", when, show(c), s)); } }
                None
            };
            let (set, texts) = (shapes[i].2)(n);
            let raw = set.syntax();
            let o = match guard(BUDGET, || raw.clone().optimize()) { Ok(o) => o, Err(_) => return "same".into() };
            if let Some(s) = small("before") { return s; }
            let mut first: Vec<String> = vec![];
            for round in 0..2 {
                let mut j = 0;
                for syn in [&raw, &o] { for t in texts.iter().take(6) {
                    let r = guard(BUDGET * 10, || { let mut d = vec![]; let r = parse(syn, t, &mut d); let ok = r.is_ok(); (format!("{:?} {}", r, if ok { hash(&format!("{:?}", d)) } else { 0 }), ok, d) });
                    let (s, ok, d) = match r { Ok(x) => x, Err(_) => { j += 1; if round == 0 { first.push("?".into()); } continue; } };
                    if round == 0 { first.push(s); } else if first[j] != s { return format!("parse of {} bytes: first {}, later {}", t.len(), first[j], s); }
                    else if ok {
                        let mut e = d.clone();
                        let again = guard(BUDGET * 10, || parse(syn, t, &mut e).is_ok());
                        if again != Ok(true) || e.len() != 2 * d.len() || !e[..d.len()].iter().zip(&d).all(|(a, b)| eq_range(a, b)) || !e[d.len()..].iter().zip(&d).all(|(a, b)| eq_range(a, b)) { return format!("appending to {} entries: {:?}, {} entries", d.len(), again, e.len()); }
                    }
                    j += 1;
                } }
                if let Some(s) = small("after") { return s; }
            }
            if unchanged(&w) { "same".into() } else { "rules or data changed".into() }
        });
        if r.as_deref() != Some("same") { cx.violation(format!("large calls: {} of size {}", shapes[i].0, n), r.unwrap_or("the process died".into())); }
    }));
    for kind in 0..8 { fams.push(near(kind)); }
    fams.extend(orders(thorough));
    fams.insert(0, outsides(thorough));
    fams.insert(0, endless(if thorough { 1_000_000 } else { 70_000 }));
    Prop { id: "C18", level: "model_checking", rule: "a state is a history of calls, a transition the next call; its result is compared with that of the same call in a process of its own in which nothing was called before; for appending, with the same parse into an empty output", assumptions: vec!["entries a failed parse leaves behind the earlier ones are not judged"], families: fams }
}

// ---------------------------------------------------------------- C19

/// Scheduling points at allocations, for threads that ask for them.
pub struct Alloc;
thread_local! {
    static ALLOC_EVERY: Cell<u32> = const { Cell::new(0) };
    static ALLOC_LEFT: Cell<u32> = const { Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { alloc_point(); std::alloc::System.alloc(l) }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { alloc_point(); std::alloc::System.realloc(p, l, n) }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { alloc_point(); std::alloc::System.alloc_zeroed(l) }
}
#[inline(always)]
fn alloc_point() {
    let e = ALLOC_EVERY.with(|e| e.get());
    if e != 0 {
        let l = ALLOC_LEFT.with(|l| l.get());
        if l > 1 { ALLOC_LEFT.with(|x| x.set(l - 1)); } else { ALLOC_LEFT.with(|x| x.set(e)); ALLOC_EVERY.with(|x| x.set(0)); point(); ALLOC_EVERY.with(|x| x.set(e)); }
    }
}

struct Sched { current: usize, steps: u64, done: Vec<bool>, blocked: Vec<bool>, tid: Vec<i32>, plan: Vec<(u64, usize)>, deadlock: bool, switched: u64 }
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();
static PROGRESS: AtomicU64 = AtomicU64::new(0);
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn next_of(s: &Sched) -> Option<usize> {
    let n = s.done.len();
    (1..=n).map(|k| (s.current + k) % n).find(|t| !s.done[*t] && !s.blocked[*t]).or_else(|| (0..n).find(|t| !s.done[*t]))
}

/// A scheduling point of the current thread.
pub fn point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX { return; }
    let mut g = SCHED.lock().unwrap();
    PROGRESS.fetch_add(1, SeqCst);
    // A thread that was taken for blocked continues only with the turn.
    loop {
        let s = g.as_mut().unwrap();
        if s.current == me { break; }
        g = TURN.wait(g).unwrap();
    }
    let s = g.as_mut().unwrap();
    s.steps += 1;
    if let Some(i) = s.plan.iter().position(|p| p.0 == s.steps) {
        let (_, k) = s.plan.remove(i);
        let n = s.done.len();
        let to = (me + k) % n;
        if !s.done[to] && to != me {
            s.current = to;
            s.blocked[to] = false;
            s.switched += 1;
            TURN.notify_all();
            loop {
                g = TURN.wait(g).unwrap();
                if g.as_ref().unwrap().current == me { break; }
            }
        }
    }
    PROGRESS.fetch_add(1, SeqCst);
}

fn sleeping(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok().and_then(|s| s.rsplit(')').next().map(|x| x.trim_start().starts_with('S'))).unwrap_or(false)
}

/// Runs the jobs in threads of this process under one schedule: `first` starts; at step p the turn
/// moves k threads on; a thread that ends or blocks passes the turn on.
/// Returns the results, the number of points, and how many switches were made.
fn schedule(jobs: &[usize], first: usize, plan: &[(u64, usize)], at: Points) -> String {
    let w = Arc::new(world());
    let n = jobs.len();
    *SCHED.lock().unwrap() = Some(Sched { current: usize::MAX, steps: 0, done: vec![false; n], blocked: vec![false; n], tid: vec![0; n], plan: plan.to_vec(), deadlock: false, switched: 0 });
    let results: Arc<Vec<Mutex<String>>> = Arc::new((0..n).map(|_| Mutex::new(String::new())).collect());
    let hs: Vec<_> = jobs.iter().enumerate().map(|(i, j)| {
        let (w, results, j) = (w.clone(), results.clone(), *j);
        std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
            let c = all_jobs().swap_remove(j);
            ME.with(|m| m.set(i));
            {
                let mut g = SCHED.lock().unwrap();
                g.as_mut().unwrap().tid[i] = unsafe { gettid() };
                TURN.notify_all();
                while g.as_ref().unwrap().current != i { g = TURN.wait(g).unwrap(); }
            }
            if at.reads { read_token::hook::set_point(Some(point)); }
            ALLOC_LEFT.with(|l| l.set(at.every)); ALLOC_EVERY.with(|e| e.set(at.every));
            crate::tsan::set_mode(at.memory);
            let r = perform(&w, &c);
            crate::tsan::set_mode(0);
            ALLOC_EVERY.with(|e| e.set(0));
            read_token::hook::set_point(None);
            *results[i].lock().unwrap() = r;
            let mut g = SCHED.lock().unwrap();
            let s = g.as_mut().unwrap();
            s.done[i] = true;
            s.blocked.iter_mut().for_each(|b| *b = false);
            if s.current == i { if let Some(t) = next_of(s) { s.current = t; } }
            PROGRESS.fetch_add(1, SeqCst);
            TURN.notify_all();
        }).unwrap()
    }).collect();
    // Start when all threads wait.
    {
        let mut g = SCHED.lock().unwrap();
        while g.as_ref().unwrap().tid.iter().any(|t| *t == 0) { g = TURN.wait(g).unwrap(); }
        g.as_mut().unwrap().current = first;
        TURN.notify_all();
        // Watch for a thread that has the turn but sleeps elsewhere.
        let mut last = u64::MAX;
        let mut still = 0;
        let (mut rounds, mut at_round) = (0, u64::MAX);
        loop {
            let s = g.as_ref().unwrap();
            if s.done.iter().all(|d| *d) || s.deadlock { break; }
            let (h, t) = TURN.wait_timeout(g, Duration::from_millis(2)).unwrap();
            g = h;
            let p = PROGRESS.load(SeqCst);
            if p != last || !t.timed_out() { last = p; still = 0; continue; }
            let s = g.as_mut().unwrap();
            if s.current < n && !s.done[s.current] && sleeping(s.tid[s.current]) { still += 1 } else { still = 0 }
            if still >= 4 {
                still = 0;
                let c = s.current;
                s.blocked[c] = true;
                if (0..n).all(|t| s.done[t] || s.blocked[t]) {
                    // Only if this stays so for half a second are they taken to wait for each other.
                    if at_round == p { rounds += 1 } else { rounds = 0; at_round = p; }
                    if rounds >= 30 { s.deadlock = true; break; }
                    s.blocked.iter_mut().for_each(|b| *b = false);
                    s.blocked[c] = n > 1;
                }
                s.current = next_of(s).unwrap();
                TURN.notify_all();
            }
        }
    }
    let (dead, steps, sw) = { let g = SCHED.lock().unwrap(); let s = g.as_ref().unwrap(); (s.deadlock, s.steps, s.switched) };
    if dead { return format!("{} {} deadlock", steps, sw); }
    for h in hs { let _ = h.join(); }
    let r: Vec<String> = results.iter().map(|r| hash(&r.lock().unwrap()).to_string()).collect();
    format!("{} {} {} {}", steps, sw, r.join(" "), if unchanged(&w) { "same" } else { "changed" })
}

/// Where threads may be switched: reads of text by the parser, every n-th allocation, accesses to
/// memory (1: to static memory, 2: also atomic operations elsewhere).
#[derive(Clone, Copy)]
struct Points { reads: bool, every: u32, memory: u8 }
const READS: Points = Points { reads: true, every: 0, memory: 1 };
const STATICS: Points = Points { reads: false, every: 0, memory: 1 };
const ATOMICS: Points = Points { reads: false, every: 0, memory: 2 };
fn allocs(every: u32) -> Points { Points { every, ..READS } }

impl Points {
    fn show(&self) -> String {
        let mut v = vec![];
        if self.reads { v.push("reads of text".to_string()); }
        if self.every > 0 { v.push(format!("every {} allocations", self.every)); }
        v.push(if self.memory == 1 { "accesses to static memory" } else { "accesses to static memory and atomic operations" }.to_string());
        v.join(", ")
    }
}

/// At most `cap` schedules per starting thread: with more points the bound goes down, and then
/// switches are considered only at every so many points.
struct Group { jobs: Vec<usize>, at: Points, bound: usize, cap: u64 }

impl Group {
    fn reach(&self, total: u64) -> (usize, u64) {
        let k = self.jobs.len() as u64 - 1;
        let n = |b: usize, t: u64| -> u64 { let mut c = 1u128; for i in 0..b as u128 { c = c * (t as u128).saturating_sub(i) / (i + 1) * k as u128; } c.min(u64::MAX as u128) as u64 };
        for b in (1..=self.bound).rev() { if n(b, total) <= self.cap { return (b, 1); } }
        (1, (n(1, total) + self.cap - 1) / self.cap)
    }
}

/// What each job yields in a process in which nothing else was called.
fn alone_jobs() -> &'static Vec<u64> {
    static R: OnceLock<Vec<u64>> = OnceLock::new();
    R.get_or_init(|| all_jobs().iter().map(|c| in_child(|| hash(&perform(&world(), c)).to_string()).and_then(|s| s.parse().ok()).unwrap_or(0)).collect())
}

fn run_group(jobs: &[usize], first: usize, plan: &[(u64, usize)], at: Points, cx: &mut Cx) -> Option<(u64, usize)> {
    let cs = all_jobs();
    let want = alone_jobs();
    cx.inc("executions");
    let what = || format!("threads [{}], thread {} starts, switches (point, threads on) {:?}, points: {}", jobs.iter().map(|j| show(&cs[*j])).collect::<Vec<_>>().join(" | "), first, plan, at.show());
    cx.note(&what);
    let r = in_child(|| schedule(jobs, first, plan, at));
    let f: Vec<&str> = r.as_deref().unwrap_or("").split(' ').collect();
    let ok = f.len() == jobs.len() + 3 && f[f.len() - 1] == "same" && jobs.iter().zip(&f[2..]).all(|(j, h)| *h == want[*j].to_string());
    if !ok {
        cx.violation(what(), format!("{}\nresults (points, switches, results, rules): {:?}\nalone: {:?}", what(), r, jobs.iter().map(|j| want[*j]).collect::<Vec<_>>()));
        return None;
    }
    let steps: u64 = f[0].parse().unwrap();
    cx.add("transitions", steps);
    cx.inc("states");
    match f[1] { "0" => cx.inc("schedules without switch"), "1" => cx.inc("schedules with 1 switch"), "2" => cx.inc("schedules with 2 switches"), _ => cx.inc("schedules with 3 or more switches") }
    Some((steps, f[1].parse().unwrap()))
}

pub fn c19(thorough: bool) -> Prop {
    // Jobs by number in `calls`: shared rules read by two threads, equal ids with other rules, blocks,
    // failing parses, compiling (first use), formatting, converting, optimizing.
    let small = [0usize, 1, 2, 3, 5, 8, 10, 11, 14];
    let still = [23usize, 25, 27, 28, 30];
    let big = [16usize, 17, 19, 21];
    let (n_calls, n_jobs) = (calls().len(), all_jobs().len());
    assert!(n_calls == MORE);
    let more: Vec<usize> = (MORE..LARGE).collect();
    let large: Vec<usize> = (LARGE..n_jobs).collect();
    let mut groups: Vec<Group> = vec![];
    let all: Vec<usize> = small.iter().chain(&still).chain(&big).chain(&more).cloned().collect();
    let cap = if thorough { 60_000 } else { 6_000 };
    let coarse = if thorough { 256 } else { 24 };
    let deep = |jobs: Vec<usize>, at: Points, quick: usize| Group { jobs, at, bound: if thorough { quick + 1 } else { quick }, cap };
    for (i, a) in small.iter().enumerate() { for b in &small[i..] { groups.push(deep(vec![*a, *b], READS, 2)); } }
    for a in small.iter().chain(&still) { for b in small.iter().chain(&still) { if a <= b { groups.push(deep(vec![*a, *b], allocs(1), 1)); } } }
    for (i, a) in big.iter().enumerate() {
        for b in &big[i..] { groups.push(Group { jobs: vec![*a, *b], at: READS, bound: 1, cap }); groups.push(Group { jobs: vec![*a, *b], at: allocs(if thorough { 4 } else { 128 }), bound: 1, cap }); }
        for b in [0, 5, 14, 23, 28] { groups.push(Group { jobs: vec![*a, b], at: READS, bound: 1, cap }); }
    }
    for t in [[0, 1, 2], [5, 8, 10], [1, 14, 5], [3, 3, 2]] { groups.push(deep(t.to_vec(), READS, 1)); }
    for t in [[16, 17, 0], [16, 16, 16]] { groups.push(Group { jobs: t.to_vec(), at: READS, bound: 1, cap }); }
    // Every kind of rule with data.
    for (i, a) in more.iter().enumerate() { for b in &more[i..] { groups.push(Group { jobs: vec![*a, *b], at: READS, bound: if thorough { 2 } else { 1 }, cap }); groups.push(Group { jobs: vec![*a, *b], at: allocs(1), bound: 1, cap }); groups.push(deep(vec![*a, *b], ATOMICS, 1)); } }
    // Static memory: few places, so all calls and more switches.
    for (i, a) in all.iter().enumerate() { for b in &all[i..] { groups.push(deep(vec![*a, *b], STATICS, 3)); } }
    for t in [[16, 17, 0], [16, 16, 16], [16, 19, 21], [19, 17, 14], [0, 1, 2], [5, 8, 25], [23, 28, 30], [MORE, MORE + 1, MORE + 3], [25, 27, MORE + 8]] { groups.push(deep(t.to_vec(), STATICS, 2)); }
    for a in small.iter().chain(&still) { for b in small.iter().chain(&still) { if a <= b { groups.push(deep(vec![*a, *b], ATOMICS, 1)); } } }
    // Long ones, at evenly spread points.
    for (i, a) in large.iter().enumerate() { for b in &large[i..] { for at in [READS, allocs(1), STATICS] { groups.push(Group { jobs: vec![*a, *b], at, bound: if thorough { 2 } else { 1 }, cap: coarse }); } } }
    for t in [[LARGE + 1, LARGE + 1, LARGE + 2], [LARGE, LARGE + 4, LARGE + 3]] { groups.push(Group { jobs: t.to_vec(), at: READS, bound: 1, cap: coarse }); }
    let n = groups.len();
    // One unit: a group, the thread that starts, and a share of the first switch points.
    const SHARE: u64 = 8;
    let units: u64 = groups.iter().map(|g| g.jobs.len() as u64 * SHARE).sum();
    let bound = format!("{} groups of 2 or 3 threads over {} calls; every schedule with at most as many preemptions as given: pairs of {} parses at reads of text {}; pairs of {} calls at every allocation and at every atomic operation {}; pairs of {} further calls (every kind of rule with data, nested nodes, characters to escape) at reads, every allocation, every atomic operation {}; compiling with itself and others 1 (also at every {}th allocation); pairs of all {} calls at accesses to static memory {}, {} triples {}; pairs of {} long calls (800 nested nodes, 600 items, 5000 characters, 40 nodes compiled, 4400 entries written and converted) at {} evenly spread reads, allocations and accesses to static memory 1", n, n_jobs, small.len(), if thorough { 3 } else { 2 }, small.len() + still.len(), if thorough { 2 } else { 1 }, more.len(), if thorough { 2 } else { 1 }, if thorough { "4" } else { "128" }, all.len(), if thorough { 4 } else { 3 }, 9, if thorough { 3 } else { 2 }, large.len(), coarse);
    let f = fam("schedules", bound, units, move |u, cx| {
        let mut u = u;
        let g = groups.iter().find(|g| { let k = g.jobs.len() as u64 * SHARE; if u < k { true } else { u -= k; false } }).unwrap();
        let (first, share) = ((u / SHARE) as usize, u % SHARE);
        let total = match run_group(&g.jobs, first, &[], g.at, cx) { None => return, Some(t) => t.0 };
        let (most, stride) = g.reach(total);
        if share == 0 && most < g.bound && g.cap == cap { cx.inc("groups and starts with a lower bound"); }
        if share == 0 && stride > 1 { cx.inc(if g.cap == cap { "groups and starts with points left out" } else { "long groups and starts" }); }
        cx.sample(|| format!("threads {:?}: {} points in the schedule without preemption", g.jobs.iter().map(|j| show(&all_jobs()[*j])).collect::<Vec<_>>(), total));
        // All plans of 1..=bound switches at increasing points, the first in this share.
        fn go(g: &Group, first: usize, plan: &mut Vec<(u64, usize)>, from: u64, total: u64, share: Option<u64>, most: usize, stride: u64, cx: &mut Cx) -> bool {
            for p in from..=total {
                if p % stride != stride / 2 { continue; }
                if let Some(s) = share { if (p / stride) % SHARE != s { continue; } }
                if cx.late() { return false; }
                for k in 1..g.jobs.len() {
                    plan.push((p, k));
                    match run_group(&g.jobs, first, plan, g.at, cx) {
                        None => if cx.failed() { return false; },
                        // With two threads, a switch that was not made since the other had ended is not made later either.
                        Some((_, made)) if made < plan.len() => { plan.pop(); if g.jobs.len() == 2 { return true; } continue; }
                        _ => {}
                    }
                    if plan.len() < most && !go(g, first, plan, p + 1, total, None, most, stride, cx) { return false; }
                    plan.pop();
                }
            }
            true
        }
        go(g, first, &mut vec![], 1, total, Some(share), most, stride, cx);
    });
    Prop { id: "C19", level: "model_checking", rule: "a state is a schedule run on the real code in a process of its own, transitions are its scheduling points; each thread's result is compared with that of the same call alone in a process of its own",
        assumptions: vec!["threads switch only at reads of text, at accesses of the library to static memory (seen through compiler instrumentation) and, in some groups, at allocations and atomic operations; atomic operations are sequentially consistent; the code under test has no unsafe blocks", "a thread that sleeps for 8 ms with the turn is taken for blocked and the turn passes on"], families: vec![f] }
}

// ---------------------------------------------------------------- C23

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-c23-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Clone, PartialEq)]
enum File { Bytes(Vec<u8>), Missing, Directory }

fn place(dir: &Scratch, name: &str, f: &File) -> std::path::PathBuf {
    let p = dir.0.join(name);
    let _ = std::fs::remove_file(&p); let _ = std::fs::remove_dir(&p);
    match f { File::Bytes(b) => std::fs::write(&p, b).unwrap(), File::Missing => {}, File::Directory => std::fs::create_dir(&p).unwrap() }
    p
}

fn text_of(f: &File) -> Option<&str> { match f { File::Bytes(b) => std::str::from_utf8(b).ok(), _ => None } }

/// `compiled` is the syntax of the first file, if it compiles.
fn load_case(dir: &Scratch, sf: &File, df: &File, sp: &std::path::Path, compiled: Option<&Syntax>, cx: &mut Cx) -> bool {
    let dp = place(dir, "data", df);
    let want: Option<Tokens> = compiled.and_then(|s| text_of(df).and_then(|t| { let mut d = vec![]; match guard(budget(t.len()), || parse(s, t, &mut d)) { Ok(Ok(())) => Some(d), _ => None } }));
    cx.inc("states"); cx.inc("transitions"); cx.inc("executions");
    let d = |f: &File| match f { File::Missing => "missing".to_string(), File::Directory => "a directory".into(), File::Bytes(b) if b.len() < 400 => format!("{:?}", String::from_utf8_lossy(b)), File::Bytes(b) => format!("{} bytes, {:016x}", b.len(), hash(&String::from_utf8_lossy(b))) };
    cx.note(|| format!("syntax {} data {}", d(sf), d(df)));
    let size = |f: &File| if let File::Bytes(b) = f { b.len() } else { 0 };
    let got = guard(budget(size(sf)) + budget(size(df)), || load_syntax_data(sp, &dp));
    let ok = match (&got, &want) {
        (Ok(g), Some(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| eq_range(a, b)),
        (Err(_), None) => true,
        _ => false,
    };
    cx.inc(if want.is_some() { "loads" } else { "panics as documented" });
    if !ok { cx.violation(format!("syntax {} data {}", d(sf), d(df)), format!("expected: {}\nlibrary: {:?}", match want { Some(w) => format!("{:?}", w), None => "a panic".into() }, got)); return !cx.failed(); }
    // Reading leaves the files alone.
    if let File::Bytes(b) = df { if std::fs::read(&dp).ok().as_ref() != Some(b) { cx.violation(format!("data file changed: {}", d(df)), "the data file was changed".to_string()); return !cx.failed(); } }
    true
}

extern "C" { fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32; fn ioctl(fd: i32, request: std::os::raw::c_ulong, ...) -> i32; }

/// A pipe in the file system, and a thread that writes the pieces, each after the one before was taken.
fn piped(dir: &Scratch, name: &str, pieces: Vec<Vec<u8>>) -> (std::path::PathBuf, std::thread::JoinHandle<()>) {
    use std::os::unix::io::AsRawFd;
    let p = dir.0.join(name);
    let _ = std::fs::remove_file(&p);
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    assert!(unsafe { mkfifo(c.as_ptr(), 0o600) } == 0);
    let q = p.clone();
    let h = std::thread::spawn(move || {
        let mut f = match std::fs::OpenOptions::new().write(true).open(&q) { Ok(f) => f, Err(_) => return };
        for b in pieces {
            if std::io::Write::write_all(&mut f, &b).is_err() { return; }
            for _ in 0..20_000 {
                let mut left = 0i32;
                if unsafe { ioctl(f.as_raw_fd(), 0x541B, &mut left as *mut i32) } != 0 || left == 0 { break; }
                std::thread::sleep(Duration::from_micros(20));
            }
        }
    });
    (p, h)
}

/// Lets a writer go on whose pipe was never opened.
fn release(p: &std::path::Path) {
    use std::os::unix::fs::OpenOptionsExt;
    let _ = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(p);
}

pub fn c23(thorough: bool) -> Prop {
    let b = |s: &str| File::Bytes(s.as_bytes().to_vec());
    let mut fams = vec![];
    // Every kind of file on both sides.
    let long = format!("1 d = .r?({{\"a\":\"x\" \"é\":\"y\"}})\n{}", "// é comment\n".repeat(8000));
    let syntaxes: Vec<File> = vec![
        b("1 d = \"a\":\"x\"\n"), b("1 d = .r?({\"a\":\"x\" \"é\":\"y\"})"), b("_s: \"a\"\n1 n = _s:\"x\"\n2 d = .l(n:\"n\")\n"), b("1 d = ...\"\"?:\"all\""), b("1 d = [\"a\":\"x\" .w? ?\"b\":\"y\"]"),
        b("1 d = [\"a\""), b("1 d = _undefined"), b(""), b("\n"), b("// only a comment\n"), b("\u{feff}1 d = \"a\""), b("1 d = \"a\":\"x\"\r\n"), b("1 d = missing"), b("1 d = \"\u{fffd}\":\"x\""),
        File::Bytes(b"1 d = \"\xff\"".to_vec()), File::Bytes(b"1 d = \"a\"\n// \xe2\x82".to_vec()), File::Bytes(b"1 d = \"\xed\xa0\x80\"".to_vec()), File::Bytes(vec![]), File::Missing, File::Directory,
        b(&long), File::Bytes([long.as_bytes(), b"\xc3"].concat()), b("1 d = \"a\":\"x\"\0"), b("18446744073709552 d = \"a\""),
    ];
    let big = "é".repeat(70001);
    let datas: Vec<File> = vec![
        b("a"), b("aé"), b("a\na"), b("b"), b(""), b("a "), b("ab"), b("a b"), b("\u{feff}a"), b("a\r\n"), b("\u{fffd}"), b("a\0"),
        File::Bytes(b"a\xff".to_vec()), File::Bytes(b"\xff".to_vec()), File::Bytes(b"a\xc3".to_vec()), File::Bytes(b"\xed\xa0\x80".to_vec()), File::Missing, File::Directory,
        b(&big), b(&format!("a{}", big)), b(&format!("{}x", big)), File::Bytes([big.as_bytes(), b"\xc3"].concat()), b(&"a".repeat(200_000)), b(&"a\n".repeat(5000)),
    ];
    let n = syntaxes.len() as u64;
    fams.push(fam("kinds of files", format!("all pairs of {} syntax and {} data files: good, wrong, empty, with byte order mark, not UTF-8 in various ways, missing, a directory, longer than any buffer", n, datas.len()), n, move |u, cx| {
        let dir = Scratch::new();
        let sf = &syntaxes[u as usize];
        let sp = place(&dir, "syntax", sf);
        let compiled = text_of(sf).and_then(|t| guard(BUDGET * 10, || syntax(t)).ok()).and_then(|r| r.ok());
        for df in &datas { if !load_case(&dir, sf, df, &sp, compiled.as_ref(), cx) { return; } }
        // The same file as syntax and data.
        let want: Option<Tokens> = compiled.as_ref().and_then(|s| { let mut d = vec![]; parse(s, text_of(sf).unwrap(), &mut d).ok().map(|_| d) });
        cx.inc("executions");
        let got = guard(BUDGET * 10, || load_syntax_data(&sp, &sp));
        if got.as_ref().ok() != want.as_ref() { cx.violation("one file as both", format!("syntax file {} used as data: expected {:?}, library {:?}", u, want, got)); }
    }));
    // Small rules x small texts.
    let sp = Space { leaves: vec![tagp("a", "p"), tag("é"), num("f"), G::Until { any: "a".into(), opt: true, p: Some("u") }, w0()], un: vec![opt, not, o_rep1, o_lines, named], bi: vec![o_seq, o_sel, o_sep01] };
    let max = if thorough { 4 } else { 3 };
    let c = sp.counts(max);
    let n: u64 = c.iter().sum();
    let texts = Words::new(&["a", "é", "\n", "1"], if thorough { 4 } else { 3 }).all();
    let nt = texts.len();
    fams.push(fam("rules and texts", format!("all rule trees up to {} nodes over {} leaves, written to a file, with all {} texts up to {} characters as data files", max, sp.leaves.len(), nt, if thorough { 4 } else { 3 }), (n + 7) / 8, move |u, cx| {
        let dir = Scratch::new();
        for i in u * 8..((u + 1) * 8).min(n) {
            let (mut k, mut j) = (1, i);
            while j >= c[k] { j -= c[k]; k += 1 }
            let set = lift(sp.tree(k, j, &c));
            let sf = b(&set.text());
            let p = place(&dir, "syntax", &sf);
            let compiled = guard(BUDGET * 100, || syntax(&set.text())).ok().and_then(|r| r.ok());
            if compiled.is_none() { cx.inc("syntax refused"); }
            for t in &texts { if !load_case(&dir, &sf, &b(t), &p, compiled.as_ref(), cx) { return; } }
        }
    }));
    // All small byte strings as data.
    let bytes: Vec<u8> = vec![b'a', b'\n', 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9d, 0xff, 0x00, 0xed];
    let w = if thorough { 4 } else { 3 };
    let total: u64 = (0..=w as u32).map(|n| (bytes.len() as u64).pow(n)).sum();
    fams.push(fam("bytes", format!("all files up to {} bytes over {:02x?} as data for rules that read anything, and as syntax", w, bytes), (total + 127) / 128, move |u, cx| {
        let dir = Scratch::new();
        let sf = b("1 d = ...\"\"?:\"all\"");
        let sp = place(&dir, "syntax", &sf);
        let compiled = syntax("1 d = ...\"\"?:\"all\"").ok();
        for i in u * 128..((u + 1) * 128).min(total) {
            let mut j = i;
            let mut l = 0u32;
            while j >= (bytes.len() as u64).pow(l) { j -= (bytes.len() as u64).pow(l); l += 1 }
            let v: Vec<u8> = (0..l).map(|_| { let x = bytes[(j % bytes.len() as u64) as usize]; j /= bytes.len() as u64; x }).collect();
            let f = File::Bytes(v.clone());
            if !load_case(&dir, &sf, &f, &sp, compiled.as_ref(), cx) { return; }
            let f = File::Bytes([b"1 d = \"".as_slice(), &v, b"\":\"x\""].concat());
            let p = place(&dir, "syntax2", &f);
            let c2 = text_of(&f).and_then(|t| guard(budget(t.len()), || syntax(t)).ok()).and_then(|r| r.ok());
            if !load_case(&dir, &f, &File::Bytes(v), &p, c2.as_ref(), cx) { return; }
        }
    }));
    // Growing files.
    let shapes = crate::p_sizes::shapes();
    let all: Vec<usize> = crate::p_sizes::sizes(thorough);
    let mut cases: Vec<(usize, usize)> = vec![];
    for (i, s) in shapes.iter().enumerate() { for &n in all.iter().filter(|&&n| n <= s.1) { cases.push((i, n)); } }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    fams.push(fam("sizes", format!("{} rule sets of the growing shapes of the parsing checks, written to a file, with their texts as data files (whole, and with a byte of the last, middle or first character changed to one that is not UTF-8)", cases.len()), cases.len() as u64, move |u, cx| {
        let (i, n) = cases[u as usize];
        let (set, texts) = (shapes[i].2)(n);
        if !set.0.iter().all(|x| expressible(&x.2)) { cx.inc("not expressible"); return; }
        let dir = Scratch::new();
        let t = set.text();
        let sf = b(&t);
        let p = place(&dir, "syntax", &sf);
        let compiled = guard(budget(t.len()), || syntax(&t)).ok().and_then(|r| r.ok());
        for (k, t) in texts.iter().enumerate().take(if n > 1100 { 3 } else { 8 }) {
            if !load_case(&dir, &sf, &b(t), &p, compiled.as_ref(), cx) { return; }
            if k == 0 && !t.is_empty() { for at in [0, t.len() / 2, t.len() - 1] { let mut v = t.as_bytes().to_vec(); v[at] = 0xff; if !load_case(&dir, &sf, &File::Bytes(v), &p, compiled.as_ref(), cx) { return; } } }
        }
        // The rules cut off in a character, and with one that is not UTF-8.
        let mut v = t.as_bytes().to_vec(); let k = v.len() / 2; v[k] = 0xc0;
        let f = File::Bytes(v);
        let p = place(&dir, "syntax", &f);
        let c2 = text_of(&f).and_then(|t| guard(budget(t.len()), || syntax(t)).ok()).and_then(|r| r.ok());
        load_case(&dir, &f, &b(&texts[0]), &p, c2.as_ref(), cx);
    }));
    let top = if thorough { 27 } else { 25 };
    let lens: Vec<usize> = (16..=top).rev().flat_map(|k| [(1 << k) + 1, 1 << k, (1usize << k) - 1]).chain([100_000, 1_000_000, 10_000_000]).collect();
    fams.push(fam("large files", format!("data files of {} sizes up to {} bytes, of one-byte and of three-byte characters, whole and with the last byte missing or wrong; syntax files with a comment of up to 4 MiB and the node behind it", lens.len(), lens[0]), lens.len() as u64, move |u, cx| {
        let n = lens[u as usize];
        let dir = Scratch::new();
        let t = "1 d = [...\"#\"?:\"t\" ?\"#\":\"end\"]";
        let sf = b(t);
        let p = place(&dir, "syntax", &sf);
        let compiled = syntax(t).ok();
        let s = "x".repeat(n - 1) + "#";
        if !load_case(&dir, &sf, &b(&s), &p, compiled.as_ref(), cx) { return; }
        if !load_case(&dir, &sf, &b(&("€".repeat(n / 3) + &"x".repeat(n % 3))), &p, compiled.as_ref(), cx) { return; }
        if !load_case(&dir, &sf, &b(&(s.clone() + "y")), &p, compiled.as_ref(), cx) { return; }
        for bad in [0xe2u8, 0xff] { let mut v = s.as_bytes().to_vec(); v[n - 1] = bad; if !load_case(&dir, &sf, &File::Bytes(v), &p, compiled.as_ref(), cx) { return; } }
        if n <= (4 << 20) + 1 {
            for end in ["\n1 d = \"x\":\"p\"", ""] {
                let t = format!("//{}{}", "x".repeat(n.saturating_sub(18)), end);
                let sf = b(&t);
                let p = place(&dir, "syntax", &sf);
                let compiled = guard(budget(t.len()), || syntax(&t)).ok().and_then(|r| r.ok());
                if !load_case(&dir, &sf, &b("x"), &p, compiled.as_ref(), cx) { return; }
            }
        }
    }));
    let chars = crate::p_sizes::char_list(thorough);
    let n = (chars.len() as u64 + 63) / 64;
    fams.push(fam("characters", format!("{}, in the rules and in the data, and their encodings cut by a byte", crate::p_sizes::char_bound(thorough)), n, move |u, cx| {
        let dir = Scratch::new();
        for c in &chars[(u * 64) as usize..((u + 1) * 64).min(chars.len() as u64) as usize] {
            let t = format!("1 d = [...\"{}\"?:\"u\" ?\"{}\":\"p\" ...\"\"?:\"v\"]", if matches!(c, '"' | '\\') { ';' } else { *c }, if matches!(c, '"' | '\\') { ';' } else { *c });
            let sf = b(&t);
            let p = place(&dir, "syntax", &sf);
            let compiled = guard(budget(t.len()), || syntax(&t)).ok().and_then(|r| r.ok());
            let s = format!("a{}b", c);
            let e = c.to_string();
            for f in [b(&s), b(&e), b(&format!("{}{}", c, c)), File::Bytes([b"a", &e.as_bytes()[..e.len() - 1]].concat()), File::Bytes([&e.as_bytes()[..e.len() - 1], b"a"].concat()), File::Bytes(e.as_bytes()[1..].to_vec())] {
                if !load_case(&dir, &sf, &f, &p, compiled.as_ref(), cx) { return; }
            }
        }
    }));
    // The same bytes, delivered in other ways.
    let pairs: Vec<(&'static [u8], &'static [u8])> = vec![
        (b"1 d = .r?({\"a\":\"x\" \"\xc3\xa9\":\"y\"})", b"aa\xc3\xa9a\xc3\xa9"), (b"1 d = ...\"\"?:\"all\"", b"\xef\xbb\xbfa\xf0\x9d\x84\x9e\n"), (b"1 d = ...\"\"?:\"all\"", b"a\xe2\x82b"), (b"_s: \"a\"\n1 n = _s:\"x\"\n2 d = .l(n:\"n\")\n", b"a\r\na\n"),
        (b"1 d = [\"a\"", b"a"), (b"1 d = \"\xff\"", b"a"), (b"1 d = \"a\"", b""), (b"", b""), (b"1 d = \"a\":\"x\" // \xe2\x82\xac", b"ab"),
    ];
    fams.push(fam("delivery", format!("{} pairs of files given as pipes: every way to cut the rules, and every way to cut the data, into two pieces that arrive one after the other, the data also byte by byte; and as links, by relative, unusual and unfinished paths, with the path as every type", pairs.len()), pairs.len() as u64, move |u, cx| {
        let (st, dt) = pairs[u as usize];
        let dir = Scratch::new();
        let compiled = std::str::from_utf8(st).ok().and_then(|t| guard(budget(t.len()), || syntax(t)).ok()).and_then(|r| r.ok());
        let want: Option<Tokens> = compiled.as_ref().and_then(|s| std::str::from_utf8(dt).ok().and_then(|t| { let mut d = vec![]; match guard(BUDGET, || parse(s, t, &mut d)) { Ok(Ok(())) => Some(d), _ => None } }));
        let mut judge = |how: String, got: Result<Tokens, String>, cx: &mut Cx| -> bool {
            cx.inc("states"); cx.inc("transitions"); cx.inc("executions");
            let ok = match (&got, &want) { (Ok(g), Some(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| eq_range(a, b)), (Err(_), None) => true, _ => false };
            if !ok { cx.violation(format!("pair {} {}", u, how), format!("syntax {:?} data {:?}, {}\nexpected: {:?}\nlibrary: {:?}", String::from_utf8_lossy(st), String::from_utf8_lossy(dt), how, want, got)); }
            ok || !cx.failed()
        };
        let cut = |t: &[u8], k: usize| vec![t[..k].to_vec(), t[k..].to_vec()];
        let mut plans: Vec<(String, Vec<Vec<u8>>, Vec<Vec<u8>>)> = vec![];
        for k in 0..=st.len() { plans.push((format!("rules cut at {}", k), cut(st, k), vec![dt.to_vec()])); }
        for k in 0..=dt.len() { plans.push((format!("data cut at {}", k), vec![st.to_vec()], cut(dt, k))); }
        plans.push(("data byte by byte".into(), vec![st.to_vec()], dt.iter().map(|b| vec![*b]).collect()));
        plans.push(("rules byte by byte".into(), st.iter().map(|b| vec![*b]).collect(), vec![dt.to_vec()]));
        for (how, s, d) in plans {
            cx.note(|| format!("pair {} {}", u, how));
            let (sp, h1) = piped(&dir, "syntax", s);
            let (dp, h2) = piped(&dir, "data", d);
            let got = guard(BUDGET, || load_syntax_data(&sp, &dp));
            for (p, h) in [(&sp, h1), (&dp, h2)] { while !h.is_finished() { release(p); std::thread::sleep(Duration::from_micros(20)); } let _ = h.join(); }
            if !judge(how, got, cx) { return; }
        }
        // Ordinary files by every kind of path.
        let at = |n: &str| dir.0.join(n);
        let real = at("real é dir");
        std::fs::create_dir_all(&real).unwrap();
        let _ = std::fs::remove_file(at("syntax")); let _ = std::fs::remove_file(at("data"));
        std::fs::write(real.join("s y.n"), st).unwrap();
        std::fs::write(real.join("-d\u{1f600}"), dt).unwrap();
        std::os::unix::fs::symlink(&real, at("link")).unwrap();
        std::os::unix::fs::symlink("link/s y.n", at("syntax")).unwrap();
        std::fs::hard_link(real.join("-d\u{1f600}"), at("data")).unwrap();
        let (s1, d1) = (real.join("s y.n"), real.join("-d\u{1f600}"));
        let odd = |p: &std::path::Path| -> std::path::PathBuf { p.parent().unwrap().join(".").join("..").join(p.parent().unwrap().file_name().unwrap()).join(p.file_name().unwrap()) };
        let back: String = std::env::current_dir().unwrap().components().skip(1).map(|_| "../").collect::<String>();
        let rel = |p: &std::path::Path| std::path::PathBuf::from(format!("{}{}", back, &p.to_str().unwrap()[1..]));
        for (how, got) in [
            ("plain", guard(BUDGET, || load_syntax_data(&s1, &d1))), ("links", guard(BUDGET, || load_syntax_data(at("syntax"), at("data")))), ("through a linked directory", guard(BUDGET, || load_syntax_data(at("link").join("s y.n"), at("link").join("-d\u{1f600}")))),
            ("with dots", guard(BUDGET, || load_syntax_data(odd(&s1), odd(&d1)))), ("relative", guard(BUDGET, || load_syntax_data(rel(&s1), rel(&d1)))),
            ("strings", guard(BUDGET, || load_syntax_data(s1.to_str().unwrap(), d1.to_str().unwrap().to_string()))), ("os strings", guard(BUDGET, || load_syntax_data(s1.as_os_str(), d1.clone().into_os_string()))),
        ] { if !judge(how.to_string(), got, cx) { return; } }
        let mut w = std::fs::OpenOptions::new().write(true).open(&d1); if let Ok(f) = &mut w { let _ = f.set_len(dt.len() as u64); }
        // A file that cannot be found at a path that runs through a file, or through a link to itself.
        std::os::unix::fs::symlink("self", at("self")).unwrap();
        for p in [s1.join("x"), at("self"), std::path::PathBuf::from(""), real.clone(), at("s\0y")] {
            for both in [guard(BUDGET, || load_syntax_data(&p, &d1)), guard(BUDGET, || load_syntax_data(&s1, &p))] {
                cx.inc("executions");
                if both.is_ok() { cx.violation(format!("no file {:?}", p), format!("{:?} is no file: library {:?}", p, both)); if cx.failed() { return; } }
            }
        }
    }));
    Prop { id: "C23", level: "model_checking", rule: "a state is a pair of files in a scratch directory, a transition one call on them; compared with compiling and parsing their text, where a panic is expected exactly if that is not possible", assumptions: vec!["rule sets without left recursion"], families: fams }
}
