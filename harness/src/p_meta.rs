//! C10–C12: the meta language.

use crate::engine::*;
use crate::gram::*;
use crate::metalang;
use crate::p_parse::*;
use piston_meta::{bootstrap, parse, syntax, ParseError, Range, Rule, Syntax};
use std::path::PathBuf;
use std::sync::{Arc, OnceLock};

pub fn raw_rules() -> &'static Syntax { static R: OnceLock<Syntax> = OnceLock::new(); R.get_or_init(bootstrap::rules) }

/// Text to rules with the library's meta rules and converter, without optimizing.
pub fn raw(t: &str) -> Result<Result<(Syntax, Vec<Range>), String>, String> {
    guard(budget(t.len()), || {
        let mut tokens = vec![];
        if let Err(e) = parse(raw_rules(), t, &mut tokens) { return Err(format!("{:?}", e)); }
        let mut ignored = vec![];
        match bootstrap::convert(&tokens, &mut ignored) { Ok(s) => Ok((s, ignored)), Err(()) => Err("not converted".into()) }
    })
}

pub fn syn_eq(a: &Syntax, b: &Syntax) -> bool {
    a.names == b.names && a.rules.len() == b.rules.len() && a.rules.iter().zip(&b.rules).all(|(a, b)| rule_eq(a, b))
}

fn located(t: &str, e: &Range<ParseError>) -> Result<(), String> {
    if e.next_offset() > t.len() || !t.is_char_boundary(e.offset) { Err(format!("the error lies outside the text: {:?}", e)) } else { Ok(()) }
}

/// A text must compile to exactly these rules, or be refused (None).
fn compiles(t: &str, want: Option<&Syntax>, cx: &mut Cx) -> bool {
    cx.inc("states"); cx.add("transitions", t.len() as u64);
    cx.note(|| format!("{:?}", t));
    cx.inc("executions");
    let got = guard(budget(t.len()), || syntax(t));
    let bad = match (&got, want) {
        (Err(e), _) => Some(format!("syntax {}", e)),
        (Ok(Ok(s)), None) => Some(format!("expected: refused\nlibrary: {:?}", s)),
        (Ok(Err(e)), Some(w)) => Some(format!("expected: {:?}\nlibrary refuses it: {:?}", w, e)),
        (Ok(Err(e)), None) => { cx.inc("refused"); located(t, e).err() }
        (Ok(Ok(s)), Some(w)) => {
            cx.inc("compiled");
            match guard(BUDGET, || w.clone().optimize()) {
                Err(e) => Some(format!("optimize {}", e)),
                Ok(o) => if !syn_eq(s, &o) { Some(format!("expected: {:?}\nlibrary: {:?}", o, s)) } else {
                    cx.inc("executions");
                    match raw(t) {
                        Ok(Ok((s, ig))) if ig.is_empty() && syn_eq(&s, w) => None,
                        x => Some(format!("expected: {:?}\nparse and convert: {:?}", w, x)),
                    }
                }
            }
        }
    };
    cx.sample(|| format!("{:?} {}", t, if want.is_some() { "compiles to the rules written" } else { "is refused" }));
    match bad { None => true, Some(b) => { cx.violation(format!("{:?}", t), format!("text:\n{}\n{}", t, b)); false } }
}

/// Any text against the hand-written reader.
fn any(t: &str, cx: &mut Cx) -> bool {
    let w = metalang::parse(t);
    compiles(t, w.as_ref(), cx) || !cx.failed()
}

// ---------------------------------------------------------------- writing rule sets

#[derive(Clone, Debug)]
enum Pc { L(String), O, W, S { v: String, empty: bool }, Line, First, Last }

fn pieces(g: &G, o: &mut Vec<Pc>) {
    fn l(o: &mut Vec<Pc>, s: &str) { o.push(Pc::L(s.to_string())) }
    fn st(o: &mut Vec<Pc>, s: &str, empty: bool) { o.push(Pc::S { v: s.to_string(), empty }) }
    fn prop(o: &mut Vec<Pc>, p: &P, inv: bool) { if let Some(p) = p { l(o, if inv { ":!" } else { ":" }); st(o, p, false) } }
    fn om(b: bool) -> &'static str { if b { "?" } else { "!" } }
    match g {
        G::Ws(b) => l(o, &format!(".w{}", om(*b))),
        G::Tag { t, not, inv, p } => { if *not { l(o, "!") } st(o, t, false); prop(o, p, *inv) }
        G::UntilWs { any, opt, p } => { l(o, ".."); st(o, any, true); l(o, om(*opt)); prop(o, p, false) }
        G::Until { any, opt, p } => { l(o, "..."); st(o, any, true); l(o, om(*opt)); prop(o, p, false) }
        G::Text { empty, p } => { l(o, &format!(".t{}", om(*empty))); prop(o, p, false) }
        G::Num { us, p } => { l(o, if *us { ".$_" } else { ".$" }); prop(o, p, false) }
        G::Ref { name, p } => { l(o, name); prop(o, p, false) }
        G::Seq(v) | G::Sel(v) => {
            let (a, b) = if let G::Seq(_) = g { ("[", "]") } else { ("{", "}") };
            l(o, a); o.push(Pc::O);
            for (i, x) in v.iter().enumerate() { if i > 0 { o.push(Pc::W) } pieces(x, o) }
            o.push(Pc::O); l(o, b)
        }
        G::Opt(g) => { l(o, "?"); pieces(g, o) }
        G::Not(g) => { l(o, "!"); pieces(g, o) }
        G::Rep { opt, r } => { l(o, &format!(".r{}(", om(*opt))); pieces(r, o); l(o, ")") }
        G::Sep { opt, trail, by, r } => {
            l(o, &format!(".s{}{}(", om(*opt), if *trail { "." } else { "" })); o.push(Pc::O);
            pieces(by, o); o.push(Pc::W); pieces(r, o); o.push(Pc::O); l(o, ")")
        }
        G::Lines { indent, r } => { l(o, if *indent { ".l+(" } else { ".l(" }); o.push(Pc::O); pieces(r, o); o.push(Pc::O); l(o, ")") }
    }
}

fn document(set: &Set) -> Vec<Pc> {
    let mut o = vec![Pc::First];
    for (i, (n, name, g)) in set.0.iter().enumerate() {
        if i > 0 { o.push(Pc::Line) }
        o.push(Pc::L(n.to_string())); o.push(Pc::W); o.push(Pc::L(name.clone())); o.push(Pc::W);
        o.push(Pc::L("=".into())); o.push(Pc::O);
        pieces(g, &mut o);
    }
    o.push(Pc::Last);
    o
}

const OPT: [&str; 7] = ["", " ", "\n", "\t", "\u{3000}", "\r\n\n  ", "   "];
const REQ: [&str; 6] = [" ", "\n", "\t", "\u{3000}", "\r\n\n  ", "   "];
const LINE: [&str; 11] = ["\n", "\n\n", "\r\n", "\n\t ", "\n// a \"c\" [\n", "\n/* /* x */ * / \n */\n", "\n//\n//\n", "\n  /**/\n", "\n/* _x: \"y\" 1 a = b\n*/\n\u{3000}\n", "\n/*/ /* / */ */\n", "\u{3000}\n\n // é\n"];
const FIRST: [&str; 9] = ["", "\n", "  ", "// c\n", "/* a\n b */\n\n", "\t// \"\n/* */\n", "\r\n", "/***/\n \u{3000}\n", "_unused: \"x\"\n// c\n"];
const LAST: [&str; 9] = ["", "\n", " ", "\n\n  \t", "\n// end", "\n/* end */", "\n/* end */ \n// e\n", "\u{3000}", "\r\n"];
const STR: [&str; 3] = ["literal", "escaped", "constant"];

fn alternatives(p: &Pc) -> usize {
    match p { Pc::L(_) => 1, Pc::O => OPT.len(), Pc::W => REQ.len(), Pc::Line => LINE.len(), Pc::First => FIRST.len(), Pc::Last => LAST.len(), Pc::S { .. } => STR.len() }
}

fn escaped(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { let c = c as u32; if c < 0x10000 { o.push_str(&format!("\\u{:04x}", c)) } else { o.push(char::from_u32(c).unwrap()) } }
    o.push('"');
    o
}

/// Text of the pieces, with alternative `pick(i)` at piece i. Constants are defined first, in order of use.
fn render(ps: &[Pc], pick: impl Fn(usize) -> usize) -> String {
    let mut consts: Vec<&str> = vec![];
    let mut body = String::new();
    let mut first = "";
    for (i, p) in ps.iter().enumerate() {
        let k = pick(i) % alternatives(p);
        match p {
            Pc::L(s) => body.push_str(s),
            Pc::O => body.push_str(OPT[k]), Pc::W => body.push_str(REQ[k]), Pc::Line => body.push_str(LINE[k]),
            Pc::First => first = FIRST[k], Pc::Last => body.push_str(LAST[k]),
            Pc::S { v, empty } => {
                let constant = k == 2 || (v.is_empty() && !*empty);
                if constant {
                    let n = match consts.iter().position(|c| c == v) { Some(n) => n, None => { consts.push(v); consts.len() - 1 } };
                    body.push_str(&format!("_c{}", n));
                } else if k == 1 { body.push_str(&escaped(v)) } else { body.push_str(&quote(v)) }
            }
        }
    }
    let mut t = String::from(first);
    for (n, c) in consts.iter().enumerate() { t.push_str(&format!("_c{}:{}{}\n", n, ["", " ", "\n\t"][n % 3], if n % 2 == 0 { quote(c) } else { escaped(c) })); }
    t + &body
}

/// One written rule set: the library's rules must be those of the set; so must the hand-written reader's.
fn written(set: &Set, t: &str, cx: &mut Cx) -> bool {
    let want = set.syntax();
    match metalang::parse(t) { Some(s) if syn_eq(&s, &want) => {} x => panic!("harness reader disagrees on {:?}: {:?}\nwant {:?}", t, x, want) }
    compiles(t, Some(&want), cx) || !cx.failed()
}

fn all_leaves() -> Vec<G> {
    let p: [P; 2] = [None, Some("p")];
    let mut v = vec![w0(), w1()];
    for p in p {
        for o in [false, true] {
            v.push(G::UntilWs { any: "]".into(), opt: o, p });
            v.push(G::Until { any: "\"".into(), opt: o, p });
            v.push(G::Text { empty: o, p });
            v.push(G::Num { us: o, p });
            v.push(G::Tag { t: "a".into(), not: o, inv: false, p });
            if p.is_some() { v.push(G::Tag { t: "b\n".into(), not: o, inv: true, p }); }
        }
        v.push(G::Ref { name: "x".into(), p });
        v.push(G::Ref { name: "d".into(), p });
        v.push(G::Ref { name: "gone".into(), p });
    }
    v.push(G::UntilWs { any: "".into(), opt: true, p: Some("") });
    v.push(G::Tag { t: "".into(), not: false, inv: false, p: None });
    v
}

fn few_leaves() -> Vec<G> { vec![w0(), tagp("a", "p"), nottag("b"), rfp("x", "n"), rf("d"), G::Num { us: true, p: None }, G::Text { empty: false, p: Some("p") }, G::Until { any: "c".into(), opt: true, p: None }] }

fn one(a: G) -> G { seq(vec![a]) }
fn one_sel(a: G) -> G { sel(vec![a]) }
fn three(a: G, b: G) -> G { seq(vec![a.clone(), b, a]) }
fn three_sel(a: G, b: G) -> G { sel(vec![b.clone(), a, b]) }
const UN: [Un; 8] = [opt, not, o_rep0, o_rep1, o_lines, o_linesi, one, one_sel];
const BI: [Bi; 8] = [o_seq, o_sel, o_sep00, o_sep01, o_sep10, o_sep11, three, three_sel];

fn around(g: G) -> Set {
    // Two nodes named x: references mean the first.
    Set(vec![(5, "x".into(), sel(vec![rf("d"), tag("q")])), (1000, "x".into(), w1()), (0, "d".into(), g), (7, "e".into(), seq(vec![rfp("e", "n"), rf("x"), rf("d")]))])
}

fn unlink(r: &mut Rule) {
    match r {
        Rule::Node(n) => n.index = None,
        Rule::Select(s) => s.args.iter_mut().for_each(unlink),
        Rule::Sequence(s) => s.args.iter_mut().for_each(unlink),
        Rule::SeparateBy(s) => { unlink(&mut s.rule); unlink(&mut s.by); }
        Rule::Repeat(x) => unlink(&mut x.rule),
        Rule::Lines(x) => unlink(&mut x.rule),
        Rule::Optional(x) => unlink(&mut x.rule),
        Rule::Not(x) => unlink(&mut x.rule),
        _ => {}
    }
}

/// Rules put together with `push` and linked: every reference means the first node of its name.
fn linked(set: &Set, cx: &mut Cx) -> bool {
    let want = set.syntax();
    cx.inc("executions");
    cx.note(|| format!("update_refs {}", set.text()));
    let got = guard(BUDGET, || {
        let mut s = Syntax::new();
        for (r, n) in want.rules.iter().zip(&want.names) { let mut r = r.clone(); unlink(&mut r); s.push(n.clone(), r); }
        piston_meta::meta_rules::update_refs(&mut s);
        let once = s.clone();
        piston_meta::meta_rules::update_refs(&mut s);
        let mut single = once.clone();
        for r in &mut single.rules { unlink(r); r.update_refs(&want.names); }
        (once, s, single)
    });
    let ok = match &got { Ok((a, b, c)) => [a, b, c].iter().all(|x| syn_eq(x, &want)), Err(_) => false };
    if !ok { cx.violation(format!("update_refs {}", set.text()), format!("rules:\n{}expected: {:?}\nlinked once, twice, rule by rule: {:?}", set.text(), want, got)); }
    ok || !cx.failed()
}

fn trees(name: &'static str, leaves: Vec<G>, min: usize, max: usize) -> Family {
    let sp = Space { leaves, un: UN.to_vec(), bi: BI.to_vec() };
    let c = sp.counts(max);
    let n: u64 = c[min..=max].iter().sum();
    fam(name, format!("every rule of {}..{} tree nodes over {} leaf rules with all their flags, 8 unary and 8 binary ways to combine, in a set with forward, backward, repeated and missing node names; put together by hand and linked with update_refs; written plainly, in a wide layout with constants, and in a third layout: {} rule sets", min, max, sp.leaves.len(), n), (n + 63) / 64, move |u, cx| {
        for mut i in u * 64..((u + 1) * 64).min(n) {
            let at = i as usize;
            let mut k = min;
            while i >= c[k] { i -= c[k]; k += 1; }
            let set = around(sp.tree(k, i, &c));
            if !linked(&set, cx) { return; }
            if !expressible_c(&set.0[2].2) { cx.inc("not expressible"); continue; }
            cx.inc("rule sets");
            let ps = document(&set);
            for style in 0..3 {
                let t = render(&ps, |j| match style { 0 => 0, 1 => 2, _ => 1 + (j * 7 + at) % 5 });
                if !written(&set, &t, cx) { return; }
            }
        }
    })
}

fn neighbouring() -> Family {
    let (bound, n, gen) = neighbours();
    fam("neighbours", bound, (n + 63) / 64, move |u, cx| {
        for i in u * 64..((u + 1) * 64).min(n) {
            let set = gen(i);
            if !linked(&set, cx) { return; }
            if !expressible_c(&set.0[2].2) { cx.inc("not expressible"); continue; }
            cx.inc("rule sets");
            let ps = document(&set);
            for style in 0..2 {
                let t = render(&ps, |j| match style { 0 => 0, _ => 1 + (j * 7 + i as usize) % 5 });
                if !written(&set, &t, cx) { return; }
            }
        }
    })
}

/// As `expressible`, but empty strings may be constants.
fn expressible_c(g: &G) -> bool {
    match g {
        G::Tag { inv, p, .. } => p.is_some() || !inv,
        G::Seq(v) | G::Sel(v) => !v.is_empty() && v.iter().all(expressible_c),
        G::Not(g) => expressible_c(g) && !matches!(**g, G::Tag { not: false, .. }),
        G::Opt(g) => expressible_c(g),
        G::Rep { r, .. } | G::Lines { r, .. } => expressible_c(r),
        G::Sep { by, r, .. } => expressible_c(by) && expressible_c(r),
        _ => true,
    }
}

fn layout_sets() -> Vec<Set> {
    let mut v: Vec<Set> = vec![];
    let a = || tagp("a", "p");
    for g in [a(), seq(vec![a(), w0(), rf("x")]), sel(vec![a(), not(rf("x"))]), sep(true, true, tag(","), seq(vec![w0(), num("n")])), lines(true, seq(vec![a()])), lines(false, sel(vec![a(), tag("b")])),
        rep(true, seq(vec![a(), opt(tag("?"))])), G::Until { any: "".into(), opt: false, p: Some("u") }, seq(vec![seq(vec![a()]), sel(vec![sep(false, false, a(), a())])])] {
        v.push(Set::one(g.clone()));
        v.push(Set(vec![(3, "x".into(), tag("x")), (4, "d".into(), g)]));
    }
    v.push(Set(vec![(1, "x".into(), tag("x")), (2, "y".into(), rf("x")), (3, "z".into(), seq(vec![rfp("y", "q"), tag("x")]))]));
    v.push(Set(vec![]));
    v
}

fn layouts(pairs: bool) -> Family {
    let sets = layout_sets();
    let n = sets.len() as u64;
    fam("layouts", format!("{} rule sets: every place where whitespace, comments or another way to write a string may stand, with every alternative ({} optional, {} required, {} between lines, {} at the start, {} at the end, 3 for strings), one at a time{}", n, OPT.len(), REQ.len(), LINE.len(), FIRST.len(), LAST.len(), if pairs { " and every pair" } else { " and every neighbouring pair" }), n, move |u, cx| {
        let set = &sets[u as usize];
        let ps = if set.0.is_empty() { vec![Pc::First, Pc::Last] } else { document(set) };
        let alt: Vec<usize> = ps.iter().map(alternatives).collect();
        let slots: Vec<usize> = (0..ps.len()).filter(|&i| alt[i] > 1).collect();
        for (k, &i) in slots.iter().enumerate() {
            for a in 0..alt[i] {
                let t = render(&ps, |j| if j == i { a } else { 0 });
                if !written(set, &t, cx) { return; }
                for &h in slots[..k].iter().filter(|&&h| pairs || k > 0 && h == slots[k - 1] || alt[h] > 8) {
                    for b in 1..alt[h] {
                        let t = render(&ps, |j| if j == i { a } else if j == h { b } else { 0 });
                        if !written(set, &t, cx) { return; }
                    }
                }
            }
        }
        for a in 0..12 { let t = render(&ps, |_| a); if !written(set, &t, cx) { return; } }
    })
}

fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

fn strings(max: usize) -> Family {
    let w = Words::new(&["a", "\"", "\\", "\n", "\t", "\r", "/", "u", "_", " ", "é", "€", "😀", "\u{0}", "\u{7f}", "\u{8}", "\u{c}", "\u{3000}", "]", ":"], max);
    let n = w.count();
    fam("strings", format!("every string up to {} characters over {:?} as token, token name, stop characters and text name; written literally, escaped and as a constant", max, w.sym), (n + 31) / 32, move |u, cx| {
        for i in u * 32..((u + 1) * 32).min(n) {
            let s = w.word(i);
            let st = leak(s.clone());
            let set = Set::one(seq(vec![tagp(&s, st), nottag(&s), G::Until { any: s.clone(), opt: true, p: Some(st) }, G::UntilWs { any: s.clone(), opt: false, p: None }, G::Text { empty: true, p: Some(st) }, G::Num { us: false, p: Some(st) }, G::Tag { t: s.clone(), not: false, inv: true, p: Some(st) }]));
            let ps = document(&set);
            for style in 0..3 {
                let t = render(&ps, |j| if let Pc::S { .. } = ps[j] { style } else { 0 });
                if !written(&set, &t, cx) { return; }
            }
        }
    })
}

/// Every character in every kind of string and in names.
fn all_strings(thorough: bool) -> Family {
    let chars = crate::p_sizes::char_list(thorough);
    let per = 32;
    fam("characters", format!("{}, alone, doubled and between letters in every kind of string, written literally, escaped and as a constant, and in node names where it may stand there", crate::p_sizes::char_bound(thorough)), (chars.len() as u64 + per - 1) / per, move |u, cx| {
        for c in &chars[(u * per) as usize..((u + 1) * per).min(chars.len() as u64) as usize] {
            for s in [format!("{}", c), format!("{}{}", c, c), format!("a{}b", c)] {
                let st = leak(s.clone());
                let set = Set::one(seq(vec![tagp(&s, st), nottag(&s), G::Until { any: s.clone(), opt: true, p: Some(st) }, G::UntilWs { any: s.clone(), opt: false, p: Some(st) }, num(st), rfp("d", st)]));
                let ps = document(&set);
                for style in 0..3 { if !written(&set, &render(&ps, |j| if let Pc::S { .. } = ps[j] { style } else { 0 }), cx) { return; } }
                if !s.contains(|c: char| c.is_whitespace() || "[]{}():.!?\"".contains(c)) && !s.starts_with('_') {
                    let set = Set(vec![(1, s.clone(), tag("a")), (2, "d".into(), seq(vec![rfp(&s, "n"), rf(&s)]))]);
                    if !written(&set, &render(&document(&set), |_| 0), cx) { return; }
                }
            }
        }
    })
}

fn names(max: usize) -> Family {
    let w = Words::new(&["a", "_", "=", "/", "*", "$", "+", "-", "0", "é", "😀", ",", ";", "\\", "<", "'", "#", "\u{0}", "\u{200b}"], max);
    let n = w.count();
    fam("names", format!("every node name up to {} characters over {:?} (not starting with an underscore) defined, referred to alone, with a name, in a list", max, w.sym), (n + 63) / 64, move |u, cx| {
        for i in (u * 64).max(1)..((u + 1) * 64).min(n) {
            let s = w.word(i);
            if s.starts_with('_') { continue; }
            let set = Set(vec![(1, "x".into(), rf(&s)), (2, s.clone(), tag("a")), (3, "d".into(), seq(vec![rfp(&s, "n"), rf(&s), rep(true, rf(&s)), not(rf(&s))]))]);
            let ps = document(&set);
            if !written(&set, &render(&ps, |_| 0), cx) { return; }
        }
    })
}

fn ids() -> Family {
    fam("ids", "node numbers in every spelling: digits, leading zeros, fractions of zero, exponents, signs, around the largest number whose debug ids fit; expected debug id is the number times 1000", 1, |_, cx| {
        let mut v: Vec<(String, Option<usize>)> = vec![];
        for n in [0usize, 1, 7, 10, 42, 999, 1000, 65535, 1 << 32, 1 << 53, 9_000_000_000_000_000] {
            v.push((format!("{}", n), Some(n))); v.push((format!("00{}", n), Some(n))); v.push((format!("{}.0", n), Some(n)));
            v.push((format!("+{}", n), Some(n))); v.push((format!("{}e0", n), Some(n))); v.push((format!("{}.", n), Some(n)));
        }
        for (s, n) in [("1e2", 100), ("12e3", 12000), ("1.5e1", 15), ("1E+2", 100), ("500e-2", 5)] { v.push((s.into(), Some(n))); }
        // The debug ids of these do not fit, or they are no numbers.
        for s in ["9223372036854776", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e17", "1e19", "1e20", "1e308", "1e309", "1e999", "-", "+", "1e", "1e+", ".", "1..", "e1", "--1", "1_0", "0x1", "１", "1e99999999999999999999"] { v.push((s.into(), None)); }
        for (s, n) in v {
            let t = format!("{} d = [\"a\" .w? ?[\"b\"]]\n", s);
            let want = n.map(|n| Set(vec![(n, "d".into(), seq(vec![tag("a"), w0(), opt(seq(vec![tag("b")]))]))]).syntax());
            if !compiles(&t, want.as_ref(), cx) && cx.failed() { return; }
        }
    })
}

/// Shapes of rule sets of growing size, each kind with its largest size.
fn grown() -> Vec<(&'static str, usize, fn(usize) -> Set)> {
    let v: Vec<(&'static str, usize, fn(usize) -> Set)> = vec![
        ("constants", 400, |n| Set::one(seq((0..n.max(1)).map(|i| G::Tag { t: format!("t{}", i / 2), not: i % 3 == 0, inv: false, p: Some(leak(format!("p{}", i))) }).collect()))),
        ("length of node names", 70_000, |n| { let s = "é".repeat(n) + "x"; Set(vec![(1, s.clone(), tag("a")), (2, "d".into(), seq(vec![rfp(&s, "n"), rf(&s), rf(&(s.clone() + "y")), rf(&(s.clone() + "x"))]))]) }),
        ("nodes defined twice", 1100, |n| Set((0..n.max(1)).map(|i| (i + 1, format!("k{}", i % 7), if i == 0 { tag("a") } else { seq(vec![rf(&format!("k{}", (i * 3) % 7)), rf("other")]) })).collect())),
        ("lists in lists", 300, |n| Set::one((0..n).fold(rf("d"), |g, i| if i % 2 == 0 { seq(vec![g]) } else { sel(vec![g, tag("c")]) }))),
        ("lines in lists", 300, |n| Set::one((0..n).fold(rf("d"), |g, i| match i % 4 { 0 => lines(true, g), 1 => sep(false, true, g, rf("x")), 2 => rep(false, g), _ => sep(true, false, rf("x"), g) }))),
        ("optional and not", 300, |n| Set::one((0..n).fold(rf("d"), |g, i| if i % 2 == 0 { opt(g) } else { not(g) }))),
    ];
    v
}

fn judged_sizes(name: &'static str, thorough: bool, what: &str, f: impl Fn(&Set, usize, &mut Cx) -> bool + Send + Sync + 'static) -> Family {
    let shapes = crate::p_sizes::shapes();
    let more = grown();
    let sizes = crate::p_sizes::sizes(thorough);
    let mut cases: Vec<(usize, usize)> = vec![];
    for (i, max) in shapes.iter().map(|s| s.1).chain(more.iter().map(|s| s.1)).enumerate() { for &n in &sizes { if n <= max { cases.push((i, n)); } } }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    let names: Vec<&str> = shapes.iter().map(|s| s.0).chain(more.iter().map(|s| s.0)).collect();
    fam(name, format!("{} shapes of rule sets ({}), each with every size 0..{} and sizes around powers of two and ten (up to 1025, flat ones 65537): {} rule sets; {}", names.len(), names.join(", "), if thorough { 300 } else { 40 }, cases.len(), what), cases.len() as u64, move |u, cx| {
        let (i, n) = cases[u as usize];
        let set = if i < shapes.len() { (shapes[i].2)(n).0 } else { (more[i - shapes.len()].2)(n) };
        if !set.0.iter().all(|x| expressible_c(&x.2)) { cx.inc("not expressible"); return; }
        cx.inc("rule sets");
        f(&set, n, cx);
    })
}

/// Documents of growing size around two nodes: the number of what stands between them grows.
fn long_documents(name: &'static str, thorough: bool, f: impl Fn(&str, Option<&Syntax>, &mut Cx) -> bool + Send + Sync + 'static) -> Family {
    let sizes = crate::p_sizes::sizes(thorough);
    type Doc = (usize, fn(usize) -> String, bool);
    let docs: Vec<Doc> = vec![
        (70_000, |n| format!("1 a = \"x\"{}\n2 d = a\n", " ".repeat(n)), true), (70_000, |n| format!("1 a = \"x\"\n{}2 d = a", "\n".repeat(n)), true), (70_000, |n| format!("1 a = \"x\"\n2{}d\t=\u{3000}a", "\u{3000} ".repeat(n / 2 + 1)), true),
        (70_000, |n| format!("//{}\n1 a = \"x\"\n2 d = a", "é".repeat(n)), true), (1100, |n| format!("1 a = \"x\"\n{}2 d = a", "// c\n".repeat(n)), true), (1100, |n| format!("1 a = \"x\"\n{}2 d = a", "/* c */\n".repeat(n)), true),
        (70_000, |n| format!("/*{}*/\n1 a = \"x\"\n2 d = a", "é\n".repeat(n / 2)), true), (70_000, |n| format!("/*{}*/\n1 a = \"x\"\n2 d = a", "*".repeat(n)), true), (300, |n| format!("{}{}\n1 a = \"x\"\n2 d = a", "/* ".repeat(n.max(1)), "*/".repeat(n.max(1))), true),
        (1100, |n| format!("{}1 a = \"x\"\n2 d = a", (0..n).map(|i| format!("_k{}: \"{}\"\n", i, i)).collect::<String>()), true), (1100, |n| format!("{}_k: \"x\"\n1 a = _k\n2 d = a", (0..n).map(|i| format!("_k{}: \"x{}\"\n", i, i)).collect::<String>()), true),
        (70_000, |n| format!("_{}: \"x\"\n1 a = _{}\n2 d = a", "k".repeat(n + 1), "k".repeat(n + 1)), true), (70_000, |n| format!("_{}: \"x\"\n1 a = _{}\n2 d = a", "k".repeat(n + 1), "k".repeat(n + 2)), false),
        (70_000, |n| format!("1 a = \"x\"\n2 d = a{}", " \n".repeat(n / 2)), true), (70_000, |n| format!("1 a = \"x\"{}2 d = a", " ".repeat(n)), false), (70_000, |n| format!("1 a = \"x\"\n2 d = a{}]", "\n".repeat(n)), false),
        (300, |n| format!("/*{}\n1 a = \"x\"\n2 d = a", " *".repeat(n)), false), (300, |n| format!("1 a = \"x\"\n2 d = [a{}", " a".repeat(n)), false), (12, |n| format!("1 a = \"x\"\n2 d = {}a{}", "[".repeat(n), "]".repeat(n + 1)), false),
        (300, |n| format!("{} a = \"x\"\n2 d = a", "0".repeat(n) + "1"), true), (300, |n| format!("1.{} a = \"x\"\n2 d = a", "0".repeat(n)), true), (300, |n| format!("1e{} a = \"x\"\n2 d = a", "0".repeat(n + 1)), true),
    ];
    let mut cases = vec![];
    for (i, d) in docs.iter().enumerate() { for &n in &sizes { if n <= d.0 { cases.push((i, n)); } } }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    fam(name, format!("{} kinds of documents of two nodes with whitespace, comments, nested comments, constants, names and numbers of every size 0..{} and around powers of two and ten up to 1025 or 65537: {} documents", docs.len(), if thorough { 300 } else { 40 }, cases.len()), cases.len() as u64, move |u, cx| {
        let (i, n) = cases[u as usize];
        let t = (docs[i].1)(n);
        let want = Set(vec![(1, "a".into(), tag("x")), (2, "d".into(), rf("a"))]).syntax();
        f(&t, if docs[i].2 { Some(&want) } else { None }, cx);
    })
}

/// Names one edit apart, one defined and the other used, or both.
fn near_names(thorough: bool, f: impl Fn(&str, &mut Cx) -> bool + Send + Sync + 'static) -> Family {
    const DOCS: [&str; 12] = ["_@: \"x\"\n1 d = _#", "_@: \"x\"\n_#: \"y\"\n1 d = [_# _@]", "_#: \"y\"\n_@: \"x\"\n1 d = [_@ _#]", "_@: \"x\"\n1 d = [\"t\":_# ..\"\"?:_@]", "_@: \"x\"\n1 d = [.._#? ..._@!]",
        "1 @ = \"x\"\n2 # = \"y\"\n3 d = [# @]", "1 @ = \"x\"\n2 d = #", "1 d = [@ #]\n2 # = \"x\"\n3 @ = \"y\"", "_@: \"x\"\n1 # = _@\n2 d = [# @]", "_@: \"x\"\n1 @ = _@\n2 d = @:_#", "_@: \"#\"\n1 d = [_@ \"@\" #]", "1 @ = [@ #]\n1 # = [# @]\n1 @ = #"];
    let chars: Vec<char> = if thorough { crate::p_sizes::char_list(false) } else { ('!'..='~').chain("éÉŞşſ\u{301}\u{200b}\u{feff}\u{a0}\u{3000}\u{85}ⅷ²１ﬁßẞ😀\u{10ffff}\u{0}".chars()).collect() };
    let bases = ["a", "ab", "x1", "é", "a'b", "a_b", "a-b", "Ab", "abcabc", "ﬁ"];
    let n = chars.len() as u64;
    fam("near names", format!("{} names {:?} and every name made by adding one of {} characters in front, behind or inside, or putting it in place of the first or last, or by taking one away, doubling, changing case or reversing; each pair in {} documents {:?}, both ways", bases.len(), bases, n, DOCS.len(), DOCS), n + 1, move |u, cx| {
        for b in bases {
            let c: Vec<char> = b.chars().collect();
            let near: Vec<String> = if u == n {
                (0..c.len()).map(|i| c[..i].iter().chain(&c[i + 1..]).collect()).chain([format!("{}{}", b, b), b.to_uppercase(), b.to_lowercase(), c.iter().rev().collect(), b.to_string(), format!("{}{}", b, c[c.len() - 1])]).collect()
            } else {
                let x = chars[u as usize];
                let mut v: Vec<String> = (0..=c.len()).map(|i| c[..i].iter().chain([&x]).chain(&c[i..]).collect()).collect();
                v.push([x].iter().chain(&c[1..]).collect());
                v.push(c[..c.len() - 1].iter().chain([&x]).collect());
                v
            };
            for m in near { for d in DOCS { for (x, y) in [(b, m.as_str()), (m.as_str(), b)] {
                if !f(&d.replace('@', "\u{1}").replace('#', y).replace('\u{1}', x), cx) { return; }
            } } }
        }
    })
}

/// Long names and strings that differ in one place.
fn near_long(thorough: bool, f: impl Fn(&str, &mut Cx) -> bool + Send + Sync + 'static) -> Family {
    const DOCS: [&str; 7] = ["1 @ = \"x\"\n2 # = \"y\"\n3 d = [# @ #]", "1 d = [@ #]\n2 # = \"x\"", "_@: \"x\"\n_#: \"y\"\n1 d = [_# _@]", "_@: \"x\"\n1 d = _#", "1 d = [\"@\":\"#\" \"#\":\"@\" \"@\":\"@\"]", "_a: \"@\"\n_b: \"#\"\n_c: \"@\"\n1 d = [_a _b _c ..\"#\"?:\"@\"]", "1 d = [@:\"#\" #:\"@\"]\n2 @ = \"#\"\n3 # = \"@\"\n4 e = {@ # \"@\" \"#\"}"];
    let all: Vec<(String, String)> = long_near(thorough).into_iter().flat_map(|(a, v)| v.into_iter().map(move |b| (a.clone(), b))).collect();
    let n = all.len() as u64;
    fam("near long", format!("{} pairs of strings of 7 to {} characters that differ in one place, as names of nodes and constants, as tokens and names of values, in {} documents {:?}, both ways", n, all.iter().map(|p| p.1.len()).max().unwrap(), DOCS.len(), DOCS), (n + 15) / 16, move |u, cx| {
        for (a, b) in &all[(u * 16) as usize..((u + 1) * 16).min(n) as usize] {
            for d in DOCS { for (x, y) in [(a, b), (b, a)] { if !f(&d.replace('@', x).replace('#', y), cx) { return; } } }
        }
    })
}

/// Places where a character may stand in a rule text.
const PLACES: [&str; 41] = ["@", "@1 a = b", "1@a = b", "1 @a = b", "1 a@= b", "1 a@ = b", "1 a = @b", "1 a =@b", "1 a = b@", "1 a = b@\n", "1 a = b\n@", "1 a = b@2 c = d", "1 a = b\n@2 c = d", "1 a = @", "1 @ = b", "1 a = [b@c]", "1 a = [@b]", "1 a = [b @]", "1 a = {@ b}",
    "1 a = \"@\"", "1 a = \"x@y\"", "1 a = \"\\@\"", "1 a = \"x\"@", "1 a = ..\"@\"?", "1 a = ...@!", "1 a = .@", "1 a = .w@", "1 a = .$@", "1 a = b:@", "1 a = b:\"@\"", "1 a = _@", "_@: \"x\"\n1 a = _@", "_s@ \"x\"\n1 a = _s", "_s:@\"x\"\n1 a = _s", "_s: \"x\"@1 a = _s",
    "//@\n1 a = b", "/*@*/\n1 a = b", "/@\n1 a = b", "1 a = .s?(@b c)", "1 a = .s?(b@c)", "1 a = .l(@b@)"];

fn placed(name: &'static str, thorough: bool, f: impl Fn(&str, &mut Cx) -> bool + Send + Sync + 'static) -> Family {
    let chars = crate::p_sizes::char_list(thorough);
    let per = 32;
    fam(name, format!("{}, each in place of @ in {:?}", crate::p_sizes::char_bound(thorough), PLACES), (chars.len() as u64 + per - 1) / per, move |u, cx| {
        for c in &chars[(u * per) as usize..((u + 1) * per).min(chars.len() as u64) as usize] {
            for p in PLACES { if !f(&p.replace('@', &c.to_string()), cx) { return; } }
        }
    })
}

/// A text cut, continued and damaged near its ends and in the middle.
fn damaged(t: &str) -> Vec<String> {
    let c: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
    let k = c.len() - 1;
    let mut v = vec![];
    // Comments left open in comments: family "nesting".
    if k == 0 || t.starts_with("/* /* /* ") { return v; }
    let mut at = vec![0, 1, k / 3, k / 2, k / 2 + 1, k - 1, k];
    at.extend([2, 3, k.saturating_sub(2), k.saturating_sub(3)]);
    at.retain(|&i| i <= k);
    at.sort(); at.dedup();
    for &i in &at {
        v.push(t[..c[i]].to_string());
        for x in ["\"", "]", ".", " ", "\n", "!"] { v.push(format!("{}{}{}", &t[..c[i]], x, &t[c[i]..])); }
        if i < k { v.push(format!("{}{}", &t[..c[i]], &t[c[i + 1]..])); }
    }
    v
}

const RULE10: &str = "a state is a rule text, a transition one of its bytes; an execution compiles the text with the library (syntax, and parse plus convert without optimizing) and compares the rules with those written";

pub fn c10(thorough: bool) -> Prop {
    let mut f = vec![
        trees("trees", all_leaves(), 1, 3),
        trees("trees4", few_leaves(), if thorough { 1 } else { 3 }, if thorough { 4 } else { 3 }),
        layouts(thorough),
        neighbouring(),
        strings(if thorough { 3 } else { 2 }),
        names(if thorough { 3 } else { 2 }),
        ids(),
        judged_sizes("sizes", thorough, "written plainly, escaped in a wide layout, and (up to 1025) with constants", |set, n, cx| {
            let ps = document(set);
            for style in 0..3 {
                if style > 0 && n > 1100 && n % 2 != style - 1 { continue; }
                // The library looks through all constants at every name.
                if style == 2 && n > 1100 { continue; }
                let t = render(&ps, |j| match style { 0 => 0, 1 => 1, _ => 2 + j % 3 * 3 });
                if !written(set, &t, cx) { return false; }
            }
            true
        }),
        long_documents("long documents", thorough, |t, want, cx| compiles(t, want, cx) || !cx.failed()),
        all_strings(thorough),
        near_names(thorough, any),
        near_long(thorough, any),
    ];
    if thorough { f.push(trees("trees5", vec![w0(), rfp("x", "n"), nottag("b")], 5, 5)); }
    Prop { id: "C10", level: "model_checking", rule: RULE10, families: f, assumptions: vec![
        "the expected optimized form is computed by the library's own optimize (decided by C04)", "node numbers that are negative or fractional are outside the property"] }
}

// ---------------------------------------------------------------- C11

fn seqs(name: &'static str, pre: &'static str, post: &'static str, w: Words) -> Family {
    let n = w.count();
    let per = 2048;
    fam(name, format!("{:?} + every sequence of up to {} of {:?} + {:?}", pre, w.max, w.sym, post), (n + per - 1) / per, move |u, cx| {
        for i in u * per..((u + 1) * per).min(n) {
            let t = format!("{}{}{}", pre, w.word(i), post);
            if !any(&t, cx) { return; }
        }
    })
}

pub fn repo() -> PathBuf { PathBuf::from("/repo") }
pub fn asset(n: &str) -> String { std::fs::read_to_string(repo().join("assets").join(n)).unwrap_or_else(|e| { eprintln!("ENGINE ERROR: {}: {}", n, e); std::process::exit(2) }) }

pub fn corpus() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for set in layout_sets() { if !set.0.is_empty() { v.push(render(&document(&set), |_| 0)); v.push(render(&document(&set), |j| j)); } }
    v.push("_p: \"name\"\n_e: \"\"\n// c\n1 a = [_p:_p .._e?:_p ...\"x\"!:\"y\" .$_:_p .t!:_p]\n/* x /* y */ z */\n2 b = {.s?.(.w! a:_p) .s!(a a) .r!(a) .l+( a ) ?a !a !\"t\":!\"u\"}\n".into());
    v.push("1 say_hi = [\"hi\" .w? {\"James\":\"james\" \"Peter\":\"peter\"} \"!\"]\n2 document = say_hi".into());
    v
}

fn edits(name: &'static str, texts: Vec<String>, sym: Vec<String>, two: bool) -> Family {
    let n: u64 = texts.iter().map(|t| t.chars().count() as u64 + 1).sum();
    fam(name, format!("{} rule texts: at every place a character deleted, doubled, swapped with the next, the text cut off there, and each of {} pieces {:?} inserted or put in place of the character{}", texts.len(), sym.len(), sym, if two { ", and every second deletion after each" } else { "" }), n, move |u, cx| {
        let (mut i, mut k) = (u as usize, 0);
        loop { let c = texts[k].chars().count() + 1; if i < c { break; } i -= c; k += 1; }
        let c: Vec<char> = texts[k].chars().collect();
        let s = |v: &[char]| -> String { v.iter().collect() };
        let (a, b) = (s(&c[..i]), s(&c[i..]));
        let mut v = vec![a.clone(), b.clone()];
        for x in &sym { v.push(format!("{}{}{}", a, x, b)); }
        if i < c.len() {
            let rest = s(&c[i + 1..]);
            v.push(format!("{}{}", a, rest));
            v.push(format!("{}{}{}", a, c[i], b));
            for x in &sym { v.push(format!("{}{}{}", a, x, rest)); }
            if i + 1 < c.len() { v.push(format!("{}{}{}{}", a, c[i + 1], c[i], s(&c[i + 2..]))); }
        }
        for t in &v {
            if !any(t, cx) { return; }
            if two {
                let d: Vec<char> = t.chars().collect();
                for j in i..d.len() { if !any(&format!("{}{}", s(&d[..j]), s(&d[j + 1..])), cx) { return; } }
            }
        }
    })
}

fn lex() -> Vec<&'static str> {
    vec!["[", "]", "{", "}", "(", ")", ".", "?", "!", ":", "+", "_", "$", "\"a\"", "_s", "_u", "a", "\"\"", ".w", ".t", ".$", ".s", ".r", ".l", "..", "...", " ", "\n", "\"", "=", "/*"]
}

/// Nested rules, and comments opened in comments.
fn nesting() -> Family {
    fam("nesting", "every bracketed or prefixed rule nested 1 to 3000 deep, closed and one closing short; comments nested 1 to 3000 deep, closed; comments opened 1..16 times and never closed: reading steps stay below 2000 per character", 13, |u, cx| {
        let (open, mid, close) = [("[", "a", "]"), ("{", "a", "}"), ("?", "a", ""), ("!", "a", ""), (".r?(", "a", ")"), (".l(", "a", ")"), (".l+( ", "a", " )"), (".s?(a ", "a", ")"), (".s!.(", "a", " a)"), ("[{ ", "a", " } a]"), ("!!?", "\"x\"", ""), ("/* ", "x", " */"), ("/* ", "", "")][u as usize];
        for k in (1..=16).chain([17, 30, 100, 300, 1000, 3000].into_iter().filter(|_| u < 12)) {
            for short in [0usize, 1] {
                let inner = format!("{}{}{}", open.repeat(k), mid, close.repeat(k.saturating_sub(short)));
                let t = if u >= 11 { format!("{}\n1 a = \"x\"\n", inner) } else { format!("1 a = {}\n", inner) };
                cx.inc("states"); cx.add("transitions", t.len() as u64); cx.inc("executions");
                cx.note(|| format!("{:?}", t));
                let budget = 2000 * t.len() as u64;
                let got = guard(budget, || syntax(&t));
                let slow = matches!(&got, Err(e) if e.contains("budget"));
                let sig = if u == 12 && k >= 10 && slow { "comments opened in comments and never closed take time doubling with each".to_string() } else { format!("nesting {:?}", t) };
                match got {
                    Err(e) => { cx.violation(sig, format!("{} nested {} deep: syntax {} (allowed {} reading steps)", open, k, e, budget)); if cx.failed() { return; } }
                    Ok(r) => {
                        let want = if u == 12 { None } else { metalang::parse(&t) };
                        if r.is_ok() != want.is_some() { cx.violation(sig, format!("{:?}: expected {}, library: {:?}", t, acc(want.is_some()), r)); if cx.failed() { return; } }
                    }
                }
            }
        }
    })
}

pub fn c11(thorough: bool) -> Prop {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let chars: Vec<String> = "[]{}().?!:+_$\"aw1=/*\\ \n\té".chars().map(|c| c.to_string()).collect();
    let cs: Vec<&str> = chars.iter().map(|s| s.as_str()).collect();
    let f = vec![
        seqs("rule", "_s: \"x\"\n1 a = ", "", Words::new(&lex(), q(4, 5))),
        seqs("in-list", "1 a = [", "]", Words::new(&["a", "[", "]", "{", "}", "\"b\"", ":", "!", "?", ".", " ", "_", ".w?", ".s?(", ".r!(", ".l(", ")", "\n"], q(4, 5))),
        seqs("after-colon", "_s: \"\"\n1 d = ", "\n", Words::new(&["a", "\"t\"", "..", "...", ".$", ".t?", ":", "!", "?", "_s", "_t", "\"p\"", "_", " "], q(5, 6))),
        seqs("until", "1 d = ", ":\"p\"", Words::new(&[".", "\"", "x", "_", "?", "!", "\\", ":"], q(7, 8))),
        seqs("lines", "", "", Words::new(&["_s: \"x\"", "_s:", "1 a = \"b\"", "2 c = _s", "\n", "/*", "*/", "//", " ", "x", "_t:\"\"", "*", "/"], q(5, 6))),
        seqs("comments", "", "\n1 a = b", Words::new(&["/", "*", "\n", "x", " "], q(9, 11))),
        seqs("characters", "", "", Words::new(&cs, q(4, 5))),
        seqs("node", "1", "\"b\"", Words::new(&[" ", "a", "=", "_", ".", "\n", "!", "e", "9", "\"", ":"], q(6, 7))),
        seqs("string", "_s", "\n1 a = _s", Words::new(&[":", " ", "\"", "a", "_", "\\", "\n", "u0041", "\u{3000}", "!"], q(6, 7))),
        ids(),
        edits("edits", corpus(), chars.clone(), false),
        edits("edits-self", vec![asset("self-syntax.txt"), asset("old-syntax.txt")], if thorough { chars.clone() } else { vec!["\"".into(), " ".into(), "]".into(), "\n".into(), "_".into(), ".".into()] }, false),
        edits("edits-two", corpus().into_iter().filter(|t| thorough || t.len() < 60).collect(), if thorough { chars } else { vec!["\"".into(), ":".into(), " ".into()] }, true),
        nesting(),
        near_names(thorough, any),
        near_long(thorough, any),
        placed("places", thorough, any),
        judged_sizes("sizes", thorough, "cut, continued and damaged near the ends and in the middle", |set, n, cx| {
            if n > 1100 { return true; }
            let t = render(&document(set), |j| if n % 2 == 0 { 0 } else { j % 3 });
            for t in damaged(&t) { if !any(&t, cx) { return false; } }
            true
        }),
        long_documents("long documents", thorough, |t, _, cx| any(t, cx) && (t.len() > 3000 || damaged(t).iter().all(|t| any(t, cx)))),
    ];
    Prop { id: "C11", level: "model_checking", rule: "a state is a rule text, a transition one of its bytes; an execution compiles the text with the library and compares the outcome with a hand-written reader of the meta language", families: f, assumptions: vec![
        "nesting of rules up to 3000 levels (deeper nesting is limited by the stack)"] }
}

// ---------------------------------------------------------------- C12

pub fn unnumbered(r: &Rule) -> Rule {
    use piston_meta::Rule::*;
    let mut r = r.clone();
    match &mut r {
        Whitespace(x) => x.debug_id = 0, Tag(x) => x.debug_id = 0, UntilAny(x) => x.debug_id = 0, UntilAnyOrWhitespace(x) => x.debug_id = 0,
        Text(x) => x.debug_id = 0, Number(x) => x.debug_id = 0, Node(x) => x.debug_id = 0,
        Sequence(x) => { x.debug_id = 0; x.args = x.args.iter().map(unnumbered).collect() }
        Select(x) => { x.debug_id = 0; x.args = x.args.iter().map(unnumbered).collect() }
        FastSelect(x) => { x.debug_id = 0; x.args = x.args.iter().map(unnumbered).collect() }
        SeparateBy(x) => { x.debug_id = 0; x.by = unnumbered(&x.by); x.rule = unnumbered(&x.rule) }
        Repeat(x) => { x.debug_id = 0; x.rule = unnumbered(&x.rule) }
        Lines(x) => { x.debug_id = 0; x.rule = unnumbered(&x.rule) }
        Optional(x) => { x.debug_id = 0; x.rule = unnumbered(&x.rule) }
        Not(x) => { x.debug_id = 0; x.rule = unnumbered(&x.rule) }
    }
    r
}
fn unnumbered_syn(s: &Syntax) -> Syntax { Syntax { names: s.names.clone(), rules: s.rules.iter().map(unnumbered).collect() } }

fn with(rules: &Syntax, t: &str) -> Result<Syntax, String> {
    let mut tokens = vec![];
    match guard(10 * budget(t.len()), || parse(rules, t, &mut tokens)) { Err(e) => return Err(e), Ok(Err(e)) => return Err(format!("{:?}", e)), Ok(Ok(())) => {} }
    let mut ig = vec![];
    match guard(BUDGET, || bootstrap::convert(&tokens, &mut ig)) {
        Ok(Ok(s)) if ig.is_empty() => Ok(s),
        x => Err(format!("convert: {:?}, ignored {:?}", x.map(|x| x.is_ok()), ig)),
    }
}

struct Pair { name: &'static str, a: Syntax, b: Syntax }

/// Both rule sets on one text: same acceptance, same meta data, same place of the error.
fn agree(p: &Pair, t: &str, cx: &mut Cx) -> bool {
    cx.inc("states"); cx.add("transitions", t.len() as u64); cx.add("executions", 2);
    cx.note(|| format!("{:?}", t));
    let run = |s: &Syntax| guard(budget(t.len()), || { let mut v = vec![]; let r = parse(s, t, &mut v); (r, v) });
    let (x, y) = (run(&p.a), run(&p.b));
    let same = match (&x, &y) {
        (Ok((Ok(()), v)), Ok((Ok(()), w))) => { cx.inc("accepted"); v.len() == w.len() && v.iter().zip(w).all(|(v, w)| eq_range(v, w)) }
        (Ok((Err(e), _)), Ok((Err(f), _))) => { cx.inc("rejected"); e.offset == f.offset && e.length == f.length }
        _ => false,
    };
    cx.sample(|| format!("{} agree on {:?}", p.name, t));
    if !same { cx.violation(format!("{} {:?}", p.name, t), format!("text:\n{}\n{}:\n{:?}\n{:?}", t, p.name, x.map(|x| x.0), y.map(|y| y.0))); }
    same || !cx.failed()
}

fn pair(k: usize) -> Pair {
    let a = raw_rules().clone();
    let die = |e| { eprintln!("ENGINE ERROR: self syntax: {}", e); std::process::exit(2) };
    match k {
        0 => Pair { name: "built-in and self-described rules", b: with(&a, &asset("self-syntax.txt")).unwrap_or_else(die), a },
        1 => Pair { name: "built-in and optimized self-described rules", b: with(&a, &asset("self-syntax.txt")).unwrap_or_else(die).optimize(), a },
        _ => { let old = with(&a, &asset("old-syntax.txt")).unwrap_or_else(die); let b = with(&old, &asset("old-self-syntax.txt")).unwrap_or_else(die); Pair { name: "old syntax in new and in old", a: old, b } }
    }
}

fn agreement(name: &'static str, k: usize, pre: &'static str, post: &'static str, w: Words) -> Family {
    let n = w.count();
    let per = 2048;
    let cell: Arc<OnceLock<Option<Pair>>> = Arc::new(OnceLock::new());
    fam(name, format!("pair {} of rule sets on {:?} + every sequence of up to {} of {:?} + {:?}", k, pre, w.max, w.sym, post), (n + per - 1) / per, move |u, cx| {
        let p = match cell.get_or_init(|| if fixed_point_holds() { Some(pair(k)) } else { None }) { Some(p) => p, None => return };
        for i in u * per..((u + 1) * per).min(n) {
            if !agree(p, &format!("{}{}{}", pre, w.word(i), post), cx) { return; }
        }
    })
}

/// Whether the described rules can be loaded at all (reported by the family "files").
fn fixed_point_holds() -> bool {
    static R: OnceLock<bool> = OnceLock::new();
    *R.get_or_init(|| with(raw_rules(), &asset("self-syntax.txt")).is_ok()
        && with(raw_rules(), &asset("old-syntax.txt")).map(|o| with(&o, &asset("old-self-syntax.txt")).is_ok()).unwrap_or(false))
}

fn files() -> Family {
    fam("files", "the shipped syntax files: self-syntax with the built-in rules, read again with itself (three rounds, optimized and not), the older syntax files, the old syntax in itself", 1, |_, cx| {
        let mut check = |what: &str, r: Result<bool, String>, cx: &mut Cx| {
            cx.inc("states"); cx.inc("transitions"); cx.inc("executions");
            match r { Ok(true) => {} Ok(false) => cx.violation(what, format!("{}: not equal", what)), Err(e) => cx.violation(what, format!("{}: {}", what, e)) }
        };
        let b = raw_rules().clone();
        let text = asset("self-syntax.txt");
        let s1 = with(&b, &text);
        check("self-syntax describes the built-in rules", s1.clone().map(|s| syn_eq(&unnumbered_syn(&s), &unnumbered_syn(&b))), cx);
        if let Ok(s1) = &s1 {
            let mut s = s1.clone();
            for i in 0..3 {
                let with_rules = if i % 2 == 0 { s.clone() } else { s.clone().optimize() };
                match with(&with_rules, &text) { Ok(n) => { check("fixed point", Ok(syn_eq(&n, s1)), cx); s = n; } Err(e) => check("fixed point", Err(e), cx) }
            }
            check("optimized alike", Ok(syn_eq(&unnumbered_syn(&s1.clone().optimize()), &unnumbered_syn(&b.clone().optimize()))), cx);
        }
        for f in ["self-syntax-1.0.txt", "new-self-syntax.txt", "old-syntax.txt"] {
            check(&format!("{} loads", f), match guard(BUDGET * 10, || syntax(&asset(f))) { Ok(Ok(_)) => Ok(true), Ok(Err(e)) => Err(format!("{:?}", e)), Err(e) => Err(e) }, cx);
        }
        for f in ["self-syntax-1.0.txt", "new-self-syntax.txt"] {
            // Earlier self descriptions can read themselves.
            let t = asset(f);
            check(&format!("{} in itself", f), with(&b, &t).and_then(|s| with(&s, &t).map(|n| syn_eq(&n, &s))), cx);
        }
        let old = with(&b, &asset("old-syntax.txt"));
        check("old-self-syntax read with old-syntax equals old-syntax", old.and_then(|o| with(&o, &asset("old-self-syntax.txt")).map(|n| syn_eq(&unnumbered_syn(&n), &unnumbered_syn(&o)))), cx);
        check("files can be compared on texts", Ok(fixed_point_holds()), cx);
        cx.sample(|| "self-syntax.txt with the built-in rules".into());
    })
}

fn corpus_edits(k: usize, name: &'static str, texts: Vec<String>, sym: Vec<String>) -> Family {
    let n: u64 = texts.iter().map(|t| t.chars().count() as u64 + 1).sum();
    let cell: Arc<OnceLock<Option<Pair>>> = Arc::new(OnceLock::new());
    fam(name, format!("pair {} of rule sets on {} texts with every character deleted, and each of {:?} inserted everywhere, and cut off everywhere", k, texts.len(), sym), n, move |u, cx| {
        let p = match cell.get_or_init(|| if fixed_point_holds() { Some(pair(k)) } else { None }) { Some(p) => p, None => return };
        let (mut i, mut k) = (u as usize, 0);
        loop { let c = texts[k].chars().count() + 1; if i < c { break; } i -= c; k += 1; }
        let c: Vec<char> = texts[k].chars().collect();
        let s = |v: &[char]| -> String { v.iter().collect() };
        let (a, b) = (s(&c[..i]), s(&c[i..]));
        let mut v = vec![a.clone()];
        if i < c.len() { v.push(format!("{}{}", a, s(&c[i + 1..]))); }
        for x in &sym { v.push(format!("{}{}{}", a, x, b)); }
        for t in &v { if !agree(p, t, cx) { return; } }
    })
}

/// The spaces of C11 for the pair of built-in and self-described rules.
fn both(name: &'static str, thorough: bool, k: usize) -> Family {
    let cell: Arc<OnceLock<Option<Pair>>> = Arc::new(OnceLock::new());
    let check = move |t: &str, cx: &mut Cx| match cell.get_or_init(|| if fixed_point_holds() { Some(pair(0)) } else { None }) { Some(p) => agree(p, t, cx), None => true };
    match k {
        0 => placed(name, thorough, check),
        3 => near_names(thorough, check),
        4 => near_long(thorough, check),
        1 => judged_sizes(name, thorough, "as written, cut, continued and damaged near the ends and in the middle", move |set, n, cx| {
            if n > 1100 { return true; }
            let t = render(&document(set), |j| if n % 2 == 0 { 0 } else { j % 3 });
            check(&t, cx) && (t.len() > 3000 || damaged(&t).iter().all(|t| check(t, cx)))
        }),
        _ => long_documents(name, thorough, move |t, _, cx| check(t, cx) && (t.len() > 3000 || damaged(t).iter().all(|t| check(t, cx)))),
    }
}

pub fn c12(thorough: bool) -> Prop {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let f = vec![
        files(),
        agreement("rule", 0, "1 a = ", "", Words::new(&lex(), q(4, 5))),
        agreement("rule-optimized", 1, "1 a = [", "]", Words::new(&lex(), q(3, 4))),
        agreement("lines", 0, "", "", Words::new(&["_s: \"x\"", "_s:", "1 a = \"b\"", "2 c = _s", "\n", "/*", "*/", "//", " ", "x", "*", "/"], q(5, 6))),
        agreement("after-colon", 0, "1 d = ", "\n", Words::new(&["a", "\"t\"", "..", "...", ".$", ".t?", ":", "!", "?", "_s", "\"p\"", "_", " "], q(4, 5))),
        agreement("old", 2, "1 \"a\" ", "", Words::new(&["[", "]", "{", "}", "(", ")", ".", "?", "!", ":", "w", "s", "t", "$", "l", "r", "\"a\"", "a", " ", "@", "_", "\"b\""], q(4, 5))),
        corpus_edits(0, "edits", corpus(), vec!["\"".into(), ":".into(), "]".into(), "_".into(), "/*".into(), ".".into(), "!".into()]),
        corpus_edits(0, "edits-self", vec![asset("self-syntax.txt")], vec!["\"".into(), " ".into()]),
        both("places", thorough, 0), both("sizes", thorough, 1), both("long documents", thorough, 2), both("near names", thorough, 3), both("near long", thorough, 4),
        corpus_edits(2, "edits-old", vec![asset("old-self-syntax.txt")], vec!["\"".into(), " ".into(), ":".into(), "]".into()]),
    ];
    Prop { id: "C12", level: "model_checking", rule: "a state is a text, a transition one of its bytes; an execution parses the text with one of two rule sets that must agree", families: f, assumptions: vec![] }
}
