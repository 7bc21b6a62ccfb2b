//! Rule sets and texts of every size: one shape per construct, its size counted up from 0. The
//! small spaces of `p_parse` find what goes wrong in combination; these find what goes wrong
//! with the number of items, the depth, the length of a piece or the distance from the start.

use crate::engine::*;
use crate::gram::*;
use crate::interp::*;
use crate::p_parse::*;

fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn chr(i: usize) -> char { char::from_u32(0x100 + (i as u32 % 0x2000)).unwrap() }
fn wide(n: usize) -> String { (0..n).map(chr).collect() }
fn ap() -> G { tagp("a", "p") }
fn any(stop: &str, p: &'static str) -> G { G::Until { any: stop.into(), opt: true, p: Some(p) } }

/// The text itself, cut, continued, and damaged in the middle.
fn vary(t: String) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![t.clone(), format!("{}x", t), format!("{}a", t)];
    if !c.is_empty() {
        v.push(c[..c.len() - 1].iter().collect());
        v.push(c[1..].iter().collect());
        let mut d = c.clone(); d[c.len() / 2] = 'x'; v.push(d.iter().collect());
        let mut d = c.clone(); d.remove(c.len() / 2); v.push(d.into_iter().collect());
        let mut d = c.clone(); let k = c.len() - 1; d[k] = '!'; v.push(d.into_iter().collect());
    }
    v
}

pub type Shape = (&'static str, usize, fn(usize) -> (Set, Vec<String>));

/// (what grows, largest size, rule set and texts)
pub fn shapes() -> Vec<Shape> {
    const FLAT: usize = 70_000;
    const LIST: usize = 1100;
    const WIDE: usize = 5000;
    const DEEP: usize = 2500;
    vec![
        ("repeated tokens", FLAT, |n| (Set::one(rep(true, ap())), vary("a".repeat(n)))),
        ("repeated tokens, at least one", FLAT, |n| (Set::one(seq(vec![rep(false, tagp("a", "p")), opt(tag("b"))])), vary("a".repeat(n)))),
        ("length of a node", FLAT, |n| (Set(vec![(1, "x".into(), any(";", "u")), (2, "y".into(), rep(true, tag("a"))), (3, "d".into(), seq(vec![rfp("x", "n"), tag(";"), rfp("y", "m"), opt(rfp("x", "k"))]))]), vary(format!("{};{}", "é".repeat(n), "a".repeat(n))))),
        ("repeated pairs", FLAT, |n| (Set::one(rep(true, seq(vec![ap(), tagp("b", "q")]))), vary("ab".repeat(n)))),
        ("repeated numbers", WIDE, |n| (Set::one(rep(true, seq(vec![num("f"), w0()]))), vary("17 ".repeat(n)))),
        ("arguments of a sequence", FLAT, |n| (Set::one(seq((0..n.max(1)).map(|i| tagp(&chr(i).to_string(), "p")).collect())), vary(wide(n.max(1))))),
        ("alternatives", FLAT, |n| {
            let set = Set::one(sel((0..n.max(1)).map(|i| tagp(&format!("{}{}", chr(i / 7), i), leak(format!("p{}", i)))).collect()));
            let mut t = vec![];
            for i in [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] { t.push(format!("{}{}", chr(i / 7), i)); t.push(format!("{}x", chr(i / 7))); }
            (set, t) }),
        ("alternatives with one start", WIDE, |n| {
            let set = Set::one(sel((0..n.max(1)).map(|i| seq(vec![tagp("a", "p"), tagp(&format!("{};", i), "q")])).collect()));
            let mut t = vec![];
            for i in [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] { t.push(format!("a{};", i)); t.push(format!("a{}", i)); }
            (set, t) }),
        ("alternatives failing later and later", LIST, |n| {
            let n = n.max(1);
            (Set::one(seq(vec![w0(), sel((0..n).map(|i| seq(vec![tag(&"a".repeat((i * 7) % n)), tag("!")])).collect())])), vary("a".repeat(n / 2)))}),
        ("list without trailing separator", FLAT, |n| (Set::one(sep(true, false, tag(","), ap())), vary(vec!["a"; n].join(",")))),
        ("list with trailing separator", FLAT, |n| (Set::one(sep(true, true, tagp(",", "c"), ap())), vary("a,".repeat(n)))),
        ("list of at least one", FLAT, |n| (Set::one(seq(vec![sep(false, false, tagp(",", "c"), ap()), opt(tag(",!"))])), vary(format!("{},!", vec!["a"; n].join(","))))),
        ("list of at least one, trailing", FLAT, |n| (Set::one(sep(false, true, tag(","), ap())), vary("a,".repeat(n)))),
        ("list of lists", WIDE, |n| (Set::one(sep(true, true, tag(";"), sep(true, false, tag(","), ap()))), vary(["a,a;", "a;"].concat().repeat(n)))),
        ("nested nodes without data", DEEP, |n| (
            Set(vec![(1, "x".into(), sel(vec![seq(vec![tag("("), rf("x"), tag(")")]), tagp("a", "p")])), (2, "d".into(), rfp("x", "m"))]), vary("(".repeat(n) + "a" + &")".repeat(n)))),
        ("nested nodes", LIST, |n| (
            Set(vec![(1, "x".into(), seq(vec![tag("("), opt(rfp("x", "n")), tagp(")", "p")])), (2, "d".into(), rfp("x", "m"))]), vary("(".repeat(n) + &")".repeat(n)))),
        ("nested nodes tried twice", 260, |n| (
            Set(vec![(1, "x".into(), seq(vec![opt(seq(vec![tag("("), rfp("x", "n"), tag(")")])), opt(ap())])), (2, "d".into(), sel(vec![seq(vec![rfp("x", "m"), tag("!")]), rfp("x", "k")]))]),
            vary("(".repeat(n) + "a" + &")".repeat(n)))),
        ("nodes one after the other", FLAT, |n| (Set(vec![(1, "x".into(), ap()), (2, "d".into(), rep(true, rfp("x", "n")))]), vary("a".repeat(n)))),
        ("nodes of a rule set", DEEP, |n| {
            let mut v: Vec<(usize, String, G)> = vec![(1, "k0".into(), ap())];
            for i in 1..=n { v.push((i + 1, format!("k{}", i), if i % 3 == 0 { seq(vec![tag("b"), rfp(&format!("k{}", i - 1), "n")]) } else { rf(&format!("k{}", i - 1)) })); }
            (Set(v), vary("b".repeat(n / 3) + "a")) }),
        ("nodes of a rule set read forwards", WIDE, |n| {
            let mut v: Vec<(usize, String, G)> = (0..n).map(|i| (i + 1, format!("k{}", i), tagp(&chr(i).to_string(), "p"))).collect();
            v.push((n + 1, "d".into(), seq((0..n).map(|i| rfp(&format!("k{}", i), "n")).chain([opt(tag("a"))]).collect())));
            (Set(v), vary(wide(n))) }),
        ("nodes of a rule set, few used", FLAT, |n| {
            let mut v: Vec<(usize, String, G)> = (0..n).map(|i| (i + 1, format!("k{}", i), tagp(&chr(i).to_string(), "p"))).collect();
            let at = [0, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
            v.push((n + 1, "d".into(), seq(at.iter().map(|i| rfp(&format!("k{}", i), "n")).chain([opt(tag("a"))]).collect())));
            (Set(v), if n == 0 { vec!["a".into(), "".into()] } else { vary(at.iter().map(|i| chr(*i)).collect()) }) }),
        ("length of a token", FLAT, |n| (Set::one(seq(vec![w0(), tagp(&format!("{}é", "a".repeat(n)), "p"), opt(tag("b"))])), vary("a".repeat(n) + "é"))),
        ("length of an unwanted token", FLAT, |n| (Set::one(seq(vec![G::Tag { t: "a".repeat(n) + "b", not: true, inv: false, p: Some("p") }, any("b", "u")])), vary("a".repeat(n + 1)))),
        ("length of an unwanted text", FLAT, |n| (Set::one(seq(vec![not(seq(vec![any(";", "z"), tag("!")])), not(seq(vec![rep(true, tagp("a", "z")), tag(";")])), any("", "u")])), vec!["a".repeat(n), "a".repeat(n) + ";", "a".repeat(n) + "!", "a".repeat(n) + ";!", "b".repeat(n) + ";", "b".repeat(n) + ";!"])),
        ("length of an unwanted rest", FLAT, |n| (Set::one(seq(vec![opt(tag(";")), not(any(";", "z")), any("", "u")])), vary("a".repeat(n)))),
        ("length of a string", FLAT, |n| (Set::one(G::Text { empty: true, p: Some("t") }), vary(format!("\"{}\"", "aé".repeat(n / 2) + &"b".repeat(n % 2))))),
        ("escapes in a string", WIDE, |n| (Set::one(G::Text { empty: false, p: Some("t") }), vary(format!("\"{}\"", "\\n\\\"\\u00e9".repeat(n))))),
        ("length of a bare piece", FLAT, |n| (Set::one(seq(vec![any(";", "u"), tag(";"), G::UntilWs { any: ",".into(), opt: true, p: Some("w") }, w0()])), vary(format!("{};{} ", "é".repeat(n), "b".repeat(n))))),
        ("number of stop characters", WIDE, |n| (Set::one(seq(vec![any(&wide(n), "u"), any("", "v")])), vec!["ab".into(), format!("ab{}", chr(0)), format!("ab{}", chr(n / 2)), format!("ab{}", chr(n.saturating_sub(1))), format!("ab{}c", chr(n)), wide(3)])),
        ("digits of a number", WIDE, |n| (Set::one(seq(vec![num("f"), opt(tag("x"))])), { let mut v = vary("1".repeat(n)); v.push(format!("0.{}1", "0".repeat(n))); v.push(format!("1.{}", "3".repeat(n))); v.push(format!("1{}", "_1".repeat(n))); v })),
        ("digits with underscores", WIDE, |n| (Set::one(G::Num { us: true, p: Some("f") }), vary("1_".repeat(n) + "1"))),
        ("whitespace", FLAT, |n| (Set::one(seq(vec![ap(), w0(), ap(), w1(), any("", "u")])), vary(format!("a{}a{}", " ".repeat(n), "\u{3000}\n".repeat(n))))),
        ("optional in optional", DEEP, |n| (Set::one((0..n).fold(ap(), |g, _| opt(g))), vary("a".into()))),
        ("not in not", DEEP, |n| (Set::one(seq(vec![(0..n).fold(tag("a"), |g, _| not(g)), any("", "u")])), vary("ab".into()))),
        ("sequence in sequence", DEEP, |n| (Set::one((0..n).fold(ap(), |g, i| if i % 2 == 0 { seq(vec![g, opt(tag("b"))]) } else { sel(vec![seq(vec![g, tag("c")]), tag("z")]) })), vary("a".to_string() + &"bc".repeat(n / 2)))),
        ("repetition in repetition", 12, |n| (Set::one((0..n).fold(ap(), |g, _| seq(vec![rep(true, g), opt(tag(","))]))), vary("aa,a,,a,,,".into()))),
        ("look-ahead", FLAT, |n| (Set::one(seq(vec![not(seq(vec![rep(true, tagp("a", "z")), tag("b")])), rep(true, ap()), opt(tag("b"))])), vary("a".repeat(n) + "b"))),
        ("length of a failing piece", FLAT, |n| (Set::one(sel(vec![seq(vec![tag("a"), tag("x")]), not(rep(false, ap())), seq(vec![opt(tag("a")), tag("y")])])), vary("a".repeat(n)))),
        ("length of a piece that failed before", FLAT, |n| (Set::one(seq(vec![sel(vec![not(rep(false, ap())), tag("x"), opt(seq(vec![tag("a"), tag("a"), tag("z")]))]), opt(not(seq(vec![any("", "z"), opt(tag("b"))]))), tag("!")])), vary("a".repeat(n)))),
        ("length of a refused number", WIDE, |n| (Set::one(sel(vec![seq(vec![tag("9"), tag("x")]), num("f"), seq(vec![opt(tag("9")), tag("y")])])), vec!["9".repeat(n), "9".repeat(n) + "e", "9".repeat(n) + "_", "-".to_string() + &"9".repeat(n) + ".", "9".repeat(n) + "e999", "9".repeat(n) + "x"])),
        ("length of a refused string", FLAT, |n| (Set::one(sel(vec![seq(vec![tag("\""), tag("x")]), G::Text { empty: false, p: Some("t") }, seq(vec![opt(tag("\"")), tag("y")])])), vec![format!("\"{}\\q\"", "a".repeat(n)), format!("\"\\q{}\"", "a".repeat(n)), format!("\"{}", "é".repeat(n)), format!("\"{}\\u00g0{}\"", "é".repeat(n / 2), "a".repeat(n))])),
        ("abandoned data", FLAT, |n| (Set::one(sel(vec![seq(vec![rep(true, tagp("a", "wrong")), tag("!")]), seq(vec![opt(seq(vec![rep(true, tagp("a", "bad")), tag("?")])), rep(true, ap())])])), vary("a".repeat(n)))),
        ("abandoned rounds", 260, |n| (Set::one(rep(true, sel(vec![seq(vec![rep(false, tagp("a", "wrong")), tag("!")]), ap()]))), vary("a".repeat(n)))),
        ("data before an abandoned alternative", FLAT, |n| (Set::one(seq(vec![rep(true, ap()), sel(vec![seq(vec![tagp("b", "wrong"), tagp("b", "wrong"), tag("!")]), tagp("b", "q")]), opt(tagp("b", "r")), sep(true, false, tag(","), tagp("c", "s"))])), vary("a".repeat(n) + "bbc,c"))),
        ("distance from the start", FLAT, |n| (Set::one(seq(vec![any(";", "u"), tag(";"), num("f"), tag(","), G::Text { empty: false, p: Some("t") }, tag(","), sel(vec![seq(vec![tagp("q", "p"), tag("!")]), tagp("q", "r")])])), vary("€".repeat(n) + ";17,\"\\té\",q"))),
        ("names of values", WIDE, |n| { let p = leak("é".repeat(n)); (Set(vec![(1, "x".into(), seq(vec![tagp("a", p), num(p)])), (2, "d".into(), rep(true, rfp("x", p)))]), vary("a1a2".into())) }),
        ("lines", FLAT, |n| (Set::one(lines(false, num("f"))), vary("12\n".repeat(n)))),
        ("blank lines", WIDE, |n| (Set::one(lines(false, ap())), vary(format!("a{}a{}", "\n".repeat(n + 1), " \r\n".repeat(n))))),
        ("indented lines", FLAT, |n| (Set::one(lines(true, ap())), vary("  a\n".repeat(n)))),
        ("spaces of indentation", LIST, |n| (Set::one(lines(true, seq(vec![ap(), lines(true, tagp("b", "q"))]))), {
            let s = " ".repeat(n); let mut v = vary(format!("{}a\n{} b\n{} b\n{}a\n{} b", s, s, s, s, s)); v.push(format!("{}a\n{}b", s, s)); v.push(format!("{}a\n {}b\n{}b", s, s, s)); v })),
        ("tabs of indentation", LIST, |n| (Set::one(lines(true, seq(vec![ap(), lines(true, tagp("b", "q"))]))), {
            let s = "\t".repeat(n); let z = "    ".repeat(n); let mut v = vary(format!("{}a\n{}\tb\n{}a", s, s, s)); v.push(format!("{}a\n{} b\n{}a", z, s, s)); v.push(format!("{}a\n{}b\n{}a", s, z, z)); v.push(format!("{}a\n{}  b\n{}  b", s, z, s)); v })),
        ("blocks in blocks", 260, |n| (Set(vec![(1, "x".into(), seq(vec![ap(), lines(true, rfp("x", "n"))])), (2, "d".into(), lines(true, rfp("x", "m")))]), {
            let mut s = String::new(); for i in 0..n { s += &" ".repeat(i); s += "a\n"; } let mut v = vary(s.clone()); v.push(format!("{}a", s)); v.push(format!("{}{}a", s, " ".repeat(n / 2))); v })),
    ]
}

pub fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 300 } else { 40 }).chain([50, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]).collect();
    v.extend([2047, 2048, 4095, 4096, 4097, 8192, 10_000, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537]);
    if thorough { v.extend((310..1100).step_by(10)); v.extend([5000, 20_000, 50_000, 70_000]); }
    v.sort(); v.dedup();
    v
}

/// Every shape at every size, judged as the property asks.
pub fn family(what: What, thorough: bool) -> Family { of(what, thorough, |_| true) }

pub fn of(what: What, thorough: bool, pick: fn(&str) -> bool) -> Family {
    let sh: Vec<Shape> = shapes().into_iter().filter(|s| pick(s.0)).collect();
    let mut cases = vec![];
    for (i, s) in sh.iter().enumerate() { for n in sizes(thorough) { if n <= s.1 { cases.push((i, n)); } } }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    let names: Vec<&str> = sh.iter().map(|s| s.0).collect();
    fam("sizes", format!("{} shapes of rule sets and texts ({}), each with every size 0..{} and sizes around powers of two and ten up to 1025 (flat ones up to 65537); the text itself, cut at both ends, continued and damaged: {} rule sets",
        sh.len(), names.join(", "), if thorough { 300 } else { 40 }, cases.len()), cases.len() as u64, move |u, cx| {
        let (i, n) = cases[u as usize];
        let (set0, texts0) = (sh[i].2)(n);
        // As written, then with letters of two, three and four bytes; the longest in turn.
        for alpha in 0..3 {
            if n > 1100 && alpha != n % 3 { continue; }
            let (set, texts) = if alpha == 0 { (set0.clone(), texts0.clone()) } else {
                (Set(set0.0.iter().map(|(k, m, g)| (*k, m.clone(), other(g, alpha))).collect()), texts0.iter().map(|t| letters(t, alpha)).collect()) };
            cx.inc("rule sets");
            let m = Model::new(&set);
            let (raw, o) = match load(&set, cx) { None => return, Some(x) => x };
            // The longest texts: only the damage at the ends and in the middle.
            let all = if n > 1100 { 6 } else { texts.len() };
            for t in texts.iter().take(all) { if !case(what, &set, &m, &raw, Some(&o), t, DEFAULT, cx) && cx.failed() { return; } }
        }
    })
}

/// Other letters for the same shape.
fn letters(t: &str, alpha: usize) -> String {
    // Escapes stay as they are.
    if t.contains('\\') { return t.to_string(); }
    t.chars().map(|c| match (c, alpha) { ('a', 1) => 'é', ('b', 1) => '€', ('a', 2) => '😀', ('b', 2) => 'é', ('c', 2) => '€', (c, _) => c }).collect()
}

fn other(g: &G, a: usize) -> G {
    match g {
        G::Tag { t, not, inv, p } => G::Tag { t: letters(t, a), not: *not, inv: *inv, p: *p },
        G::UntilWs { any, opt, p } => G::UntilWs { any: letters(any, a), opt: *opt, p: *p },
        G::Until { any, opt, p } => G::Until { any: letters(any, a), opt: *opt, p: *p },
        G::Seq(v) => seq(v.iter().map(|g| other(g, a)).collect()),
        G::Sel(v) => sel(v.iter().map(|g| other(g, a)).collect()),
        G::Opt(g) => opt(other(g, a)),
        G::Not(g) => not(other(g, a)),
        G::Rep { opt, r } => rep(*opt, other(r, a)),
        G::Sep { opt, trail, by, r } => sep(*opt, *trail, other(by, a), other(r, a)),
        G::Lines { indent, r } => lines(*indent, other(r, a)),
        g => g.clone(),
    }
}

pub fn char_list(thorough: bool) -> Vec<char> {
    (0..0x110000u32).filter(|&c| thorough || c < 0x3100 || c % 256 == 0xff || c % 256 == 0 || (0xff00..0xff20).contains(&c) || (0xfeff..0xff00).contains(&c)).filter_map(char::from_u32).collect()
}
pub fn char_bound(thorough: bool) -> String { format!("{} characters ({})", char_list(thorough).len(), if thorough { "all there are" } else { "all below U+3100, the first and last of every block of 256 above" }) }

/// Every character, in every place where characters are read.
pub fn characters(what: What, thorough: bool) -> Family {
    let chars = char_list(thorough);
    let per = 32;
    fam("characters", format!("{} characters ({}), each alone and among others in 21 texts; 15 rule sets that read text of every kind and 7 made with the character", chars.len(), if thorough { "all there are" } else { "all below U+3100, the first and last of every block of 256 above" }), (chars.len() as u64 + per - 1) / per, move |u, cx| {
        let uw = |s: &str| G::UntilWs { any: s.into(), opt: false, p: Some("w") };
        let fixed: Vec<Set> = vec![
            seq(vec![any(";", "u"), opt(tag(";")), any("", "v")]), seq(vec![w0(), opt(uw(";")), w0(), any("", "u")]), G::Text { empty: true, p: Some("t") },
            rep(true, sel(vec![w1(), uw("")])), seq(vec![opt(num("f")), any("", "u")]), sep(true, true, tag(","), G::Num { us: true, p: Some("f") }),
            lines(false, uw("")), lines(false, seq(vec![w0(), uw("")])), lines(true, seq(vec![uw(""), lines(true, uw(""))])), seq(vec![G::Tag { t: "a".into(), not: true, inv: false, p: Some("no") }, any("", "u")]),
            seq(vec![not(seq(vec![any(";", "z"), tag(";")])), any("", "u")]), rep(true, sel(vec![tag("a"), tag("é"), tagp("€", "e"), tag(";")])), sel(vec![seq(vec![tag("a"), any("\n", "u")]), seq(vec![tag("1"), w1(), any("", "u")])]),
            sep(true, false, w1(), uw("")), seq(vec![any("1", "u"), opt(num("f")), w0()])].into_iter().map(Set::one).collect();
        let fixed: Vec<(Set, Model, piston_meta::Syntax, piston_meta::Syntax)> = fixed.into_iter().map(|s| { let m = Model::new(&s); let r = s.syntax(); let o = r.clone().optimize(); (s, m, r, o) }).collect();
        for c in &chars[(u * per) as usize..((u + 1) * per).min(chars.len() as u64) as usize] {
            let c = c.to_string();
            let next = char::from_u32(c.chars().next().unwrap() as u32 + 1).unwrap_or('a').to_string();
            let texts: Vec<String> = vec![c.clone(), format!("a{}", c), format!("{}a", c), format!("a{}a", c), format!("{};", c), format!("a{};", c), format!("\"{}\"", c), format!("\"a{}b\"", c), format!("\"\\{}\"", c),
                format!("1{}", c), format!("{}1", c), format!("1{}2", c), format!("{}\n", c), format!("a\n{}", c), format!("a\n {}", c), format!("a {} a", c), format!("{}{}", c, c), format!("a;{}", c), format!("{}{}", c, next), format!("a{}\na", c), format!("a\n{}a", c)];
            for (s, m, r, o) in &fixed {
                for t in &texts { if !case(what, s, m, r, Some(o), t, DEFAULT, cx) && cx.failed() { return; } }
            }
            for g in [tagp(&c, "p"), seq(vec![any(&c, "u"), opt(tagp(&c, "p")), any("", "v")]), seq(vec![G::UntilWs { any: c.clone(), opt: true, p: Some("w") }, any("", "v")]),
                rep(true, sel(vec![tagp(&c, "p"), tagp(&next, "q"), tag("a"), tag("1")])), seq(vec![tag("a"), tagp(&c, "p"), opt(tag(&next))]), seq(vec![G::Tag { t: c.clone(), not: true, inv: true, p: Some("no") }, any("", "u")]), sep(true, true, tag(&c), tagp("a", "p"))] {
                let set = Set::one(g);
                let m = Model::new(&set);
                let (raw, o) = match load(&set, cx) { None => return, Some(x) => x };
                for t in &texts { if !case(what, &set, &m, &raw, Some(&o), t, DEFAULT, cx) && cx.failed() { return; } }
            }
        }
    })
}
