//! C08, C09: line lists and indented blocks.

use crate::engine::*;
use crate::gram::*;
use crate::interp::*;
use crate::p_parse::*;
use piston_meta::{parse, MetaData};

fn grid(indents: &[u32], tabs: &[u8]) -> Vec<Settings> {
    let mut v = vec![];
    for &indent in indents { for align in [true, false] { for &tab in tabs { v.push(Settings { indent, align, tab }); } } }
    v
}

/// A fixed list of rule sets on all texts.
fn list(name: &'static str, what: &str, sets: Vec<Set>, texts: Words, settings: Vec<Settings>) -> Family {
    let n = texts.count();
    let per = 512;
    fam(name, format!("{}: {} rule sets; all {} texts up to {} symbols over {:?}; {} settings", what, sets.len(), n, texts.max, texts.sym, settings.len()),
        (n + per - 1) / per, move |u, cx| {
        let prepared: Vec<_> = sets.iter().map(|s| (s, Model::new(s), s.syntax(), s.syntax().optimize())).collect();
        for i in u * per..((u + 1) * per).min(n) {
            let t = texts.word(i);
            for (s, m, syn, o) in &prepared {
                for st in &settings {
                    if !case(What::Full, s, m, syn, Some(o), &t, *st, cx) && cx.failed() { return; }
                }
            }
        }
    })
}

/// Every character in front of, inside, behind and between lines.
fn characters(thorough: bool, sets: fn() -> Vec<Set>, texts: &'static [&'static str], settings: Vec<Settings>) -> Family {
    let chars = crate::p_sizes::char_list(thorough);
    let per = 32;
    let k = sets().len();
    fam("characters", format!("{}, each in place of @ in {:?}; {} rule sets, {} settings", crate::p_sizes::char_bound(thorough), texts, k, settings.len()), (chars.len() as u64 + per - 1) / per, move |u, cx| {
        let prepared: Vec<_> = sets().into_iter().map(|s| { let m = Model::new(&s); let r = s.syntax(); let o = r.clone().optimize(); (s, m, r, o) }).collect();
        for c in &chars[(u * per) as usize..((u + 1) * per).min(chars.len() as u64) as usize] {
            for t in texts {
                let t = t.replace('@', &c.to_string());
                for (s, m, r, o) in &prepared { for st in &settings { if !case(What::Full, s, m, r, Some(o), &t, *st, cx) && cx.failed() { return; } } }
            }
        }
    })
}

fn sized(thorough: bool) -> Family { crate::p_sizes::of(What::Full, thorough, |n| n.contains("line") || n.contains("indent") || n.contains("block")) }

fn a() -> G { tagp("a", "p") }
fn b() -> G { tagp("b", "q") }
fn lin(g: G) -> G { lines(true, g) }
fn two(n: G, d: G) -> Set { Set(vec![(1, "n".into(), n), (2, "d".into(), d)]) }

pub fn programs() -> Vec<Set> {
    let nest = |inner: G| seq(vec![a(), inner]);
    vec![
        // Blocks in blocks of one kind, directly and through a node.
        two(seq(vec![a(), lin(rfp("n", "kid"))]), lin(rfp("n", "top"))),
        two(sel(vec![nest(seq(vec![tag(":"), lin(rfp("n", "kid"))])), b()]), lin(rfp("n", "top"))),
        Set::one(lin(nest(opt(lin(b()))))),
        Set::one(lin(seq(vec![a(), lin(b()), opt(tagp("a", "again"))]))),
        // An indented block given up for another reading of the same lines.
        Set::one(sel(vec![seq(vec![lin(a()), tag("b")]), lin(sel(vec![a(), b()])), seq(vec![lin(a()), lin(b())])])),
        Set::one(seq(vec![opt(seq(vec![a(), lin(b()), tag("!")])), lin(sel(vec![a(), b()]))])),
        Set::one(lin(seq(vec![not(seq(vec![a(), lin(b()), tag("!")])), a(), lin(b())]))),
        Set::one(lin(seq(vec![opt(seq(vec![a(), lin(a()), tag(":")])), a(), lin(b())]))),
        // Blocks after blocks, blocks in lists and repetitions, plain lines around and inside.
        Set::one(seq(vec![lin(a()), lin(b())])),
        Set::one(seq(vec![a(), lin(b()), lin(a())])),
        Set::one(lin(seq(vec![a(), sep(true, true, tag(","), lin(b()))]))),
        Set::one(lin(seq(vec![a(), rep(true, seq(vec![tag(":"), lin(b())]))]))),
        Set::one(lines(false, seq(vec![w0(), a(), lin(b())]))),
        Set::one(lin(seq(vec![a(), lines(false, seq(vec![w0(), b()]))]))),
        Set::one(lin(seq(vec![a(), lin(lin(b()))]))),
        Set::one(lin(seq(vec![opt(tag("\n")), a()]))),
        Set::one(lin(seq(vec![w0(), a()]))),
    ]
}

/// Two readings of the same lines by blocks, the first given up or kept, in every kind of surrounding.
fn abandoned(thorough: bool) -> Pf {
    let first = vec![lin(a()), lin(b()), lin(seq(vec![a(), lin(b())])), lin(sel(vec![a(), b()])), seq(vec![a(), lin(b())]), seq(vec![w0(), a(), lin(b())]), lines(false, seq(vec![w0(), a()])), lin(seq(vec![a(), tag(" "), b()])),
        seq(vec![lin(a()), tag("!")]), seq(vec![a(), lin(b()), tag("!")]), lin(seq(vec![a(), opt(seq(vec![lin(b()), tag("!")]))])), lin(seq(vec![a(), not(lin(b()))])), lin(lin(a()))];
    let second = vec![lin(a()), lin(b()), lin(sel(vec![a(), b()])), lin(seq(vec![a(), lin(b())])), seq(vec![a(), lin(b())]), seq(vec![w0(), a(), lin(b())]), seq(vec![w0(), tag("a a"), lin(b())]), seq(vec![w0(), a(), w0(), a(), lin(a())]), lin(seq(vec![a(), tag(" "), a()])),
        seq(vec![G::Until { any: "\n".into(), opt: true, p: Some("u") }, lin(a())]), lines(false, seq(vec![w0(), a(), opt(lin(b()))]))];
    let around: Vec<fn(G, G) -> G> = vec![|x, y| sel(vec![x, y]), |x, y| seq(vec![opt(x), y]), |x, y| seq(vec![rep(true, x), y]), |x, y| seq(vec![not(x), y]), |x, y| seq(vec![not(not(x)), y]), |x, y| seq(vec![sep(true, false, tag("b"), x), opt(tag("\n")), y]),
        |x, y| lin(sel(vec![x, y])), |x, y| lin(seq(vec![opt(tag("b")), opt(x), y])), |x, y| lines(false, sel(vec![x, y])), |x, y| rep(false, sel(vec![x, y])), |x, y| seq(vec![named(sel(vec![x, seq(vec![])])), y]), |x, y| seq(vec![opt(tag("b")), lin(sel(vec![seq(vec![x, tag("?")]), y]))])];
    let (f, c, w) = (first.len() as u64, second.len() as u64, around.len() as u64);
    let texts = Words::new(&["a", "b", " ", "\n"], if thorough { 8 } else { 6 });
    let bound = format!("two readings of lines ({} kinds of the first, which may fail or be given up, {} of the second) tried at the same place, in {} surroundings; all texts up to {} symbols over {:?} and blocks of two and three lines of up to two words, each indented by 0 to 3", f, c, w, texts.max, texts.sym);
    let mut texts = texts.all();
    let words = ["a", "b", "a a", "a b"];
    let pad = ["", " ", "  ", "   "];
    for (w1, w2) in words.iter().flat_map(|x| words.iter().map(move |y| (x, y))) { for p1 in pad { for p2 in pad {
        texts.push(format!("{}{}\n{}{}", p1, w1, p2, w2));
        for p3 in pad { for w3 in &words[..if thorough { 4 } else { 2 }] { texts.push(format!("{}{}\n{}{}\n{}{}", p1, w1, p2, w2, p3, w3)); } }
    } } }
    let n = f * c * w;
    Pf { name: "abandoned", bound, n, per_unit: 8, texts: std::sync::Arc::new(texts), settings: grid(&[0, 1], &[4]), gen: std::sync::Arc::new(move |i| {
        lift(around[(i % w) as usize](first[(i / w % f) as usize].clone(), second[(i / w / f) as usize].clone()))
    }) }
}

// ---------------------------------------------------------------- outlines

/// Reads an outline of (column, name) lines by columns alone: a list of lines of one column, each
/// followed by the lines of larger column that belong to it. Returns the index after the block.
fn outline(l: &[(u32, char)], mut i: usize, least: u32, align: bool, out: &mut Vec<(char, usize)>, depth: usize) -> usize {
    let column = if align { l.get(i).map(|x| x.0).unwrap_or(0) } else { least };
    if column < least { return i; }
    while i < l.len() && l[i].0 == column {
        out.push((l[i].1, depth));
        i = outline(l, i + 1, column + 1, align, out, depth + 1);
    }
    i
}

fn outlines(max: usize, cols: u64) -> Family {
    let set = two(seq(vec![G::UntilWs { any: "".into(), opt: false, p: Some("name") }, lin(rfp("n", "kid"))]), lin(rfp("n", "kid")));
    let per: u64 = cols * 3;
    let total: u64 = (0..=max).map(|n| per.pow(n as u32)).sum();
    let chunk = 1024;
    fam("outline", format!("outlines of up to {} lines, each indented by 0..{} spaces and preceded by no blank line, an empty one or one of two spaces and a carriage return; expected tree computed from the columns alone; indentation 0, 1, 2 required, alignment on and off: {} texts", max, cols - 1, total), (total + chunk - 1) / chunk, move |u, cx| {
        let syn = set.syntax();
        for k in u * chunk..((u + 1) * chunk).min(total) {
            let (mut n, mut i) = (0u32, k);
            while i >= per.pow(n) { i -= per.pow(n); n += 1; }
            let mut l = vec![];
            let mut text = String::new();
            for j in 0..n {
                let x = i % per; i /= per;
                let (col, blank) = ((x % cols) as u32, x / cols);
                let name = (b'a' + j as u8) as char;
                l.push((col, name));
                if j > 0 { text.push('\n'); }
                match blank { 1 => text.push('\n'), 2 => text.push_str("  \r\n"), _ => {} }
                for _ in 0..col { text.push(' '); }
                text.push(name);
            }
            cx.inc("states");
            for s in grid(&[0, 1, 2], &[4]) {
                cx.inc("transitions"); cx.inc("executions");
                let mut want = vec![];
                let end = outline(&l, 0, s.indent, s.align, &mut want, 0);
                let got = run_impl(&syn, &text, s);
                let bad = match got {
                    Err(e) => Some(e),
                    Ok((Err(e), _)) => if end == l.len() { Some(format!("refused with {:?}", e)) } else { None },
                    Ok((Ok(()), t)) => {
                        let mut depth = 0usize;
                        let mut g = vec![];
                        for x in &t[1..] { match &x.data {
                            MetaData::StartNode(_) => depth += 1,
                            MetaData::EndNode(_) => depth -= 1,
                            MetaData::String(_, v) => g.push((v.chars().next().unwrap(), depth - 1)),
                            _ => {}
                        } }
                        if end != l.len() || g != want { Some(format!("accepted as {:?}", g)) } else { None }
                    }
                };
                if end == l.len() { cx.inc("accepted"); } else { cx.inc("rejected"); }
                if let Some(b) = bad {
                    cx.violation(sig(&set, &text, s), format!("{}outline by columns: {} lines read of {}, {:?}\nlibrary: {}", describe(&set, &text, s), end, l.len(), want, b));
                    if cx.failed() { return; }
                }
            }
            cx.sample(|| format!("outline {:?}", text));
        }
    })
}

/// Tabs and spaces in front of the lines of one flat block.
fn flat_tabs(max: usize) -> Family {
    let w = Words::new(&[" ", "\t"], max);
    let all = w.all();
    let n = all.len() as u64;
    fam("tabs", format!("blocks of two lines, each indented by every mix of up to {} spaces and tabs; required indentation 0..5, tab width 0, 1, 2, 4, 8, alignment on and off", max), n, move |u, cx| {
        let set = Set::one(lin(a()));
        let m = Model::new(&set);
        let syn = set.syntax();
        for second in &all {
            let t = format!("{}a\n{}a", all[u as usize], second);
            for s in grid(&[0, 1, 2, 3, 4, 5], &[0, 1, 2, 4, 8]) {
                if !case(What::Full, &set, &m, &syn, None, &t, s, cx) && cx.failed() { return; }
            }
        }
    })
}

/// `parse` is `parse_with_indent` with indentation 0, alignment on and tabs of 4.
fn defaults(max: usize) -> Family {
    let w = Words::new(&["a", "b", " ", "\n", "\t"], max);
    let n = w.count();
    fam("parse", format!("parse against parse_with_indent with the documented default settings; {} rule sets, all texts up to {} symbols over {:?}", programs().len(), max, w.sym), (n + 255) / 256, move |u, cx| {
        let sets: Vec<_> = programs().into_iter().map(|s| { let y = s.syntax(); (s, y) }).collect();
        for i in u * 256..((u + 1) * 256).min(n) {
            let t = w.word(i);
            cx.inc("states");
            for (s, y) in &sets {
                cx.inc("transitions"); cx.add("executions", 2);
                let x = guard(budget(t.len()), || { let mut t2 = vec![]; let r = parse(y, &t, &mut t2); (r, t2) });
                let z = run_impl(y, &t, DEFAULT);
                let same = match (&x, &z) {
                    (Ok((Ok(()), p)), Ok((Ok(()), q))) => p.len() + 1 == q.len() && p.iter().zip(&q[1..]).all(|(p, q)| eq_range(p, q)),
                    (Ok((Err(p), _)), Ok((Err(q), _))) => p == q,
                    _ => false,
                };
                if !same {
                    cx.violation(sig(s, &t, DEFAULT), format!("{}parse: {:?}\nparse_with_indent: {:?}", describe(s, &t, DEFAULT), x, z));
                    if cx.failed() { return; }
                }
            }
        }
    })
}

const RULE: &str = "a state is a (rule, position, indentation) point of the reference model or a text of the outline model, a transition one rule application; an execution is one parse by the library compared with the model (acceptance, all meta data with ranges, error)";

pub fn c08(thorough: bool) -> Prop {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let blocks = Space { leaves: vec![a(), b(), w0(), tag(":"), G::Until { any: "\n".into(), opt: true, p: Some("u") }, tag("\n")],
        un: vec![o_linesi, o_lines, opt, not, o_rep0, named], bi: vec![o_seq, o_sel, o_sep01] };
    let mut f = vec![
        outlines(q(4, 5), 4),
        flat_tabs(q(5, 7)),
        list("programs", "nested, repeated and abandoned blocks", programs(), Words::new(&["a", "b", " ", "\n", "\t", ":"], q(6, 8)), grid(&[0, 1], &[2])),
        list("programs-long", "nested, repeated and abandoned blocks", programs(), Words::new(&["a", "b", " ", "\n"], q(8, 10)), grid(&[0], &[4])),
        list("steps", "whole lines", programs(), Words::new(&["a\n", " a\n", "  a\n", "\ta\n", " b\n", "  b\n", "   b\n", "\n", "  \n", "b\n", "a:\n", "\tb\n"], q(4, 6)), grid(&[0, 2], &[1, 4])),
        defaults(q(5, 6)),
        list("spaces", "nested, repeated and abandoned blocks", programs(), Words::new(&["a", "b\n", "\u{3000}", "\u{85}", "\u{c}", "\r", "\u{200b}", " ", "\t", "\n"], q(5, 6)), vec![DEFAULT]),
        characters(thorough, || { let mut v = programs(); v.push(Set::one(lin(seq(vec![G::UntilWs { any: "".into(), opt: true, p: Some("w") }, lin(G::UntilWs { any: "".into(), opt: false, p: Some("v") })])))); v.push(Set::one(lin(G::Until { any: "".into(), opt: true, p: Some("u") }))); v },
            &["@a", "@ a\n a", " @a\n  @a", "a\n@b", "a\n @b", "a\n@ b\n @b", "a\n\t@b", "a@\n b", "a\n @\n b", "a\n@\nb", "a@b", "a\n b@", "a\n b\n@", "@", "@\na", "@\n a\n a", "a\n b\n@a"], grid(&[0, 1], &[4])),
        sized(thorough),
        entry_points(What::Full, thorough, programs()),
    ];
    let settings = grid(&[0, 1, 3], &[0, 2]);
    f.extend(families(What::Full, vec![
        abandoned(thorough),
        space("blocks", blocks.clone(), 1, 3, Words::new(&["a", "b", " ", "\n", "\t"], q(5, 6)), settings.clone(), 2),
        space("blocks4", blocks.clone(), 4, 4, Words::new(&["a", "b", " ", "\n"], q(4, 5)), grid(&[0, 1], &[4]), 8),
    ]));
    if thorough { f.extend(families(What::Full, vec![space("blocks5", blocks, 5, 5, Words::new(&["a", " ", "\n"], 4), grid(&[0], &[4]), 64)])); }
    Prop { id: "C08", level: "model_checking", rule: RULE, families: f, assumptions: vec![
        "a line indented deeper by tabs alone is handed to the item rule (documented asymmetry of the code, kept as it is)"] }
}

/// Line lists whose accepted texts can be told from the lines of the text.
fn by_lines(max: usize) -> Family {
    type Ok = fn(&str) -> bool;
    let w = Words::new(&["1", "a", " ", "\n", "\r", "\u{3000}", "\u{85}", "\u{2028}", ","], max);
    let n = w.count();
    let rules: Vec<(G, Ok)> = vec![
        (lines(false, tagp("1", "v")), |l| l.trim_end() == "1"),
        (lines(false, num("v")), |l| !l.trim_end().is_empty() && l.trim_end().chars().all(|c| c == '1')),
        (lines(false, seq(vec![w0(), tagp("1", "v")])), |l| l.trim() == "1"),
        (lines(false, sel(vec![tagp("1", "v"), tagp("a", "v")])), |l| l.trim_end() == "1" || l.trim_end() == "a"),
        (lines(false, G::UntilWs { any: ",".into(), opt: false, p: Some("v") }), |l| !l.starts_with(char::is_whitespace) && !l.trim_end().contains(|c: char| c.is_whitespace() || c == ',')),
        (lines(false, G::Until { any: "\n".into(), opt: false, p: Some("v") }), |_| true),
        (lines(false, sep(false, false, tag(","), tagp("1", "v"))), |l| l.trim_end().split(',').all(|x| x == "1")),
    ];
    fam("by-lines", format!("{} line lists whose items lie on one line, on all {} texts up to {} symbols over {:?}: accepted exactly if every line that is not blank is an item, with one value per item in order", rules.len(), n, max, w.sym), (n + 1023) / 1024, move |u, cx| {
        let prepared: Vec<_> = rules.iter().map(|(g, ok)| { let s = Set::one(g.clone()); let y = s.syntax(); (s, y, ok) }).collect();
        for i in u * 1024..((u + 1) * 1024).min(n) {
            let t = w.word(i);
            cx.inc("states");
            let kept: Vec<&str> = t.split('\n').filter(|l| !l.trim().is_empty()).collect();
            for (k, (s, y, ok)) in prepared.iter().enumerate() {
                cx.inc("executions"); cx.inc("transitions");
                // The first line is not skipped when the item can read whitespace up to the end of line.
                let want = kept.iter().all(|l| ok(l));
                let got = run_impl(y, &t, DEFAULT);
                if want { cx.inc("accepted"); } else { cx.inc("rejected"); }
                let bad = match &got {
                    Ok((Ok(()), m)) => !want || (k != 6 && m.len() - 1 != kept.len()),
                    Ok((Err(_), _)) => want,
                    Err(_) => true,
                };
                if bad {
                    cx.violation(sig(s, &t, DEFAULT), format!("{}lines that are not blank: {:?}\nexpected: {}\nlibrary: {:?}", describe(s, &t, DEFAULT), kept, acc(want), got));
                    if cx.failed() { return; }
                }
            }
        }
    })
}

pub fn c09(thorough: bool) -> Prop {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let l = |g| lines(false, g);
    let items = || -> Vec<G> { vec![
        num("v"), tagp("1", "v"), seq(vec![w0(), num("v"), w0()]), seq(vec![num("v"), w0()]), seq(vec![num("v"), w1()]), G::Text { empty: true, p: Some("t") },
        seq(vec![num("v"), tag("\n")]), seq(vec![tagp("1", "v"), opt(tag("\n"))]), G::Until { any: "\n".into(), opt: false, p: Some("u") }, G::Until { any: ",".into(), opt: false, p: Some("u") },
        G::Until { any: ",".into(), opt: true, p: Some("u") }, G::UntilWs { any: ",".into(), opt: false, p: Some("u") }, opt(tagp("1", "v")), sep(false, false, tag(","), num("v")),
        sep(false, true, seq(vec![w0(), tag(","), w0()]), num("v")), seq(vec![tag("1"), l(tagp(",", "c"))]), seq(vec![tag("1"), w0(), tagp(",", "c")]), rep(false, seq(vec![num("v"), opt(tag(" "))])),
        seq(vec![tag("1"), tag("\r"), tag("\n")]), seq(vec![not(tag(",")), w0(), tagp("1", "v")]), l(tagp("1", "v")), nottag(","),
    ] };
    let mut sets = vec![];
    for g in items() {
        sets.push(Set::one(l(g.clone())));
        sets.push(Set::one(seq(vec![l(g.clone()), opt(tag(","))])));
        sets.push(Set::one(sel(vec![seq(vec![l(g.clone()), tag(";")]), l(sel(vec![seq(vec![g.clone(), tag(",")]), g]))])));
    }
    let mut f = vec![
        by_lines(q(6, 7)),
        list("items", "line lists of 22 items (with and without own line breaks, spanning lines, nested), alone, before a token and given up for another reading", sets.clone(),
            Words::new(&["1", " ", "\n", "\r", ",", "\u{3000}", "\""], q(5, 7)), vec![DEFAULT]),
        list("spaces", "the same", sets.clone(), Words::new(&["1", "1,", "\n", "\u{3000}", "\u{85}", "\u{c}", "\r", "\u{200b}", "\t"], q(5, 6)), vec![DEFAULT]),
        characters(thorough, || { let mut v: Vec<Set> = vec![]; for g in [num("v"), tagp("1", "v"), seq(vec![w0(), num("v")]), G::UntilWs { any: "".into(), opt: false, p: Some("u") }, G::Until { any: "\n".into(), opt: false, p: Some("u") }, G::Text { empty: true, p: Some("t") },
            sep(false, true, seq(vec![w0(), tag(","), w0()]), num("v"))] { v.push(Set::one(lines(false, g.clone()))); v.push(Set::one(seq(vec![lines(false, g.clone()), opt(tag(",")), w0()]))); } v },
            &["1@", "@1", "1@\n1", "1\n@1", "1\n@\n1", "1@1", "1\n@", "@", "@\n1", "1 @\n1", "1\r@1", "\"@\"\n1", "1,@1", "1\n1@@", "1@\n@\n"], vec![DEFAULT]),
        sized(thorough),
        list("breaks", "the same", sets, Words::new(&["1", " ", "\n", ","], q(7, 9)), vec![DEFAULT]),
    ];
    let sp = Space { leaves: vec![tagp("1", "v"), num("n"), w0(), tag("\n"), tag(","), G::Until { any: "\n".into(), opt: true, p: Some("u") }],
        un: vec![o_lines, opt, not, o_rep0, o_rep1, named], bi: vec![o_seq, o_sel, o_sep00, o_sep01] };
    f.extend(families(What::Full, vec![
        space("trees", sp.clone(), 1, 3, Words::new(&["1", " ", "\n", ",", "\u{3000}"], q(5, 7)), vec![DEFAULT], 4),
        space("trees4", sp.clone(), 4, 4, Words::new(&["1", " ", "\n", ","], q(4, 5)), vec![DEFAULT], 16),
    ]));
    if thorough { f.extend(families(What::Full, vec![space("trees5", sp, 5, 5, Words::new(&["1", "\n", " "], 4), vec![DEFAULT], 64)])); }
    Prop { id: "C09", level: "model_checking", rule: RULE, families: f, assumptions: vec![] }
}
