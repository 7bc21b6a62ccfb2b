//! Whole languages: rule sets as people write them, on documents as people write them, with
//! every edit of those documents, and on every short sequence of the language's pieces. The
//! small spaces of `p_parse` combine few rules; here many rules work together.

use crate::engine::*;
use crate::gram::*;
use crate::interp::*;
use crate::p_parse::*;
use piston_meta::{Rule, Syntax};

pub struct Lang { pub name: &'static str, pub rules: &'static str, pub docs: &'static [&'static str], pub pieces: &'static [&'static str] }

pub const LANGS: &[Lang] = &[
    Lang { name: "values", rules: r###"_k: "key"
1 string = .t?:"string"
2 array = ["[" .w? .s?([.w? "," .w?] value:"item") .w? "]"]
3 member = [.t?:_k .w? ":" .w? value:"value"]
4 object = ["{" .w? .s?([.w? "," .w?] member:"member") .w? "}"]
5 value = {object:"object" array:"array" string .$:"number" "true":"bool" "false":!"bool" "null":"null"}
6 document = [.w? value:"doc" .w?]"###,
        docs: &["{\"a\": [1, -2.5e3], \"é\" :{}}", "[[],[{\"\":null}],true, false]", " {\"a\\n\":\"b\"}\n", "[1,[2,[3,[]]]]"],
        pieces: &["{", "}", "[", "]", ",", ":", "\"a\"", "1", "true", "null", " ", "-"] },
    Lang { name: "arithmetic", rules: r###"1 atom = {.$:"num" ["(" .w? sum:"sum" .w? ")"] ["-" atom:"neg"] call:"call" [!"-" .."+-*/^() ,"!:"var"]}
2 call = [.."+-*/^() ,"!:"fn" "(" .w? .s?([.w? "," .w?] sum:"arg") .w? ")"]
3 power = [atom:"base" ?[.w? "^" .w? power:"exp"]]
4 product = .s!([.w? {"*":"mul" "/":!"mul"} .w?] power:"factor")
5 sum = .s!([.w? {"+":"add" "-":!"add"} .w?] product:"term")
6 document = [.w? sum:"sum" .w?]"###,
        docs: &["1+2*x", "f(a, -1)^2 - (3 / y)", "-(a)--1", "2^3^é*sin(x)"],
        pieces: &["1", "x", "+", "-", "*", "^", "(", ")", ",", " ", "f(", "2.5"] },
    Lang { name: "settings", rules: r###"0 document = .l({
  [.w? "#" ..."\n"?]
  [.w? .."="!:"key" .w? "=" .w? {
    .$_:"number"
    {"true":"bool" "false":!"bool"}
    .t?:"string"
    ..""!:"value"
  } .w?]
})"###,
        docs: &["a = 1_0\n# c\n\nb=true", "  x = \"y\"\r\nz = w\n", "k=1x\nl = é"],
        pieces: &["a", "=", " ", "\n", "#", "1", "true", "\"s\"", "_", "\t"] },
    Lang { name: "outline", rules: r###"2 node = [.$:"num" .l+(node:"node")]
1 document = [.w? node:"node" .w?]"###,
        docs: &["1\n 2\n  3\n  4\n 5\n  6", "1\n\t2\n\t\t3\n\n\t4", "1\n    2\n\t3\n     4"],
        pieces: &["1", "\n", " ", "\t", "2\n", "\n  3", "    "] },
    Lang { name: "statements", rules: r###"1 name = [!"if " .." \n:=()"!:"name"]
2 expr = {.$:"num" [name:"call" "(" .s?([.w? "," .w?] expr:"arg") ")"] name:"var"}
3 if = ["if " .w? expr:"cond" .w? ":" {[.w? stmt:"then"] .l+(stmt:"then")} ]
4 assign = [name:"to" .w? "=" .w? expr:"value"]
5 stmt = {if:"if" assign:"assign" expr:"expr" ["#" ..."\n"?:"comment"]}
6 document = .l+(stmt:"stmt")"###,
        docs: &["a=1\nif a:\n  b = f(a, 2)\n  if b:\n    c()\n  d = 3\nif f(): e=1", "if 1:\n\ta=2\n\n# x\nb", "if x: if y: z = 1\nw"],
        pieces: &["a", "=1", "if ", ":", "\n", " ", "  ", "f(", ")", ",", "#"] },
    Lang { name: "markup", rules: r###"1 attr = [.." =<>/\""!:"name" ?["=" .t?:"value"]]
2 comment = ["<!--" .r?([!"-->" ..."-"? ?[!"-->" "-"]]) "-->"]
3 open = ["<" .." =<>/\"!"!:"tag" .r?([.w! attr:"attr"]) .w?]
4 element = [open:"open" {"/>":"empty" [">" .r?(content) "</" .." <>/"!:"close" .w? ">"]}]
5 content = {comment element:"element" ..."<"!:"text"}
6 document = [.w? .r?(comment) element:"element" .w?]"###,
        docs: &["<a b=\"c\" d>t<e/>u</a>", "<!--x--y--><a><b></b><!-- é --></a>\n", "<p  q = \"1\" />", "<a>\n  <b>é</b>\n</a >"],
        pieces: &["<a", ">", "/>", "</", "a", " ", "=", "\"v\"", "<!--", "-->", "-", "é"] },
    Lang { name: "lists", rules: r###"1 comment = [";" ..."\n"?]
2 w = .r?({.w! comment})
3 atom = {.$:"number" .t?:"string" [!";" .." ()'\"\n;"!:"symbol"]}
4 list = ["(" w .r?([expr w]) ")"]
5 expr = {["'" expr:"quote"] list:"list" atom}
6 document = [w .r?([expr w])]"###,
        docs: &["(def f (x) '(+ x 1)) ; c\n(f 2)", "''()\n(a . \"b\")", "1 -2 - +3 x1"],
        pieces: &["(", ")", "'", "a", "1", " ", ";", "\n", "\"", "-"] },
    Lang { name: "functions", rules: r###"_seps: "(){},.:;=-><!\"\n\t "
1 block = ["{" .w? .s?.({[.w? ";" .w?] .w!} statement) .w? "}"]
2 arg = [.._seps!:"name" ?[.w? ":" .w? type:"type"]]
3 type = {[ "[" .w? ?type:"item" .w? "]"] ["f64":"f64"] ["opt[" type:"opt" "]"] "any":"any"}
4 fn = ["fn" .w! .._seps!:"name" .w? "(" .w? .s?.([.w? "," .w?] arg:"arg") .w? ")" ?[.w? "->" .w? type:"returns"] .w? block:"block"]
5 item = [.._seps!:"name" .r?(["." .._seps!:"id"])]
6 call = [.._seps!:"name" "(" .w? .s?.([.w? "," .w?] expr:"call_arg") .w? ")"]
7 expr = {.$_:"num" .t?:"text" call:"call" [!{"return" "fn"} item:"item"]}
8 statement = {["return":"return" ?[.w! expr:"value"]] [item:"left" .w? {":=":"declare" "=":!"declare"} .w? expr:"right"] call:"call"}
9 document = [.w? .s?.(.w! fn:"fn") .w?]"###,
        docs: &["fn f(a: f64, b) -> opt[any] { x := 1_0; return g(x, a.b) }", "fn a(){}\nfn b(x:[f64],){f()\ng() ;}", "fn z() -> [] { return }"],
        pieces: &["fn f(", "a", ":", "f64", ")", "{", "}", ";", "=", "return", " ", ",", "g()", "."] },
    Lang { name: "tables", rules: r###"1 quoted = ["\"" .r?({["\"\"":"quote"] ..."\""!:"part"}) "\""]
2 field = {quoted:"quoted" ...",\n\""?:"plain"}
3 row = .s!("," field:"field")
4 document = .s!.(["\n"] row:"row")"###,
        docs: &["a,b\n\"c,\"\"d\n\",\n", ",,\n,\"\"", "é,\"\"\"\"\nx"],
        pieces: &["a", ",", "\n", "\"", "\"\"", "é"] },
    Lang { name: "sections", rules: r###"1 line = [!"[" .."=]\n"!:"key" .w? "=" .w? {[.t!:"text" !{"x"}] .$:"num" ..."\n;"?:"raw"} ?[";" ..."\n"?]]
2 section = ["[" .s!("." ..".]\n"!:"part") "]" .l({line:"line" [";" ..."\n"?]})]
3 document = [.l(line:"line") .r?(section:"section") .w?]"###,
        docs: &["a=1\n[b.c]\nd = \"e\" ; f\n\n[g]\n", "[x]\n;c\ny=z w\n[x]", "k=\"v\"x\n"],
        pieces: &["[", "]", "a", "=", "1", "\n", ";", ".", "\"s\"", " "] },
    Lang { name: "rules", rules: r###"_opt: "optional"
_inv: "inverted"
_prop: "property"
_any: "any_characters"
_seps: "[]{}():.!?\""
0 multi_line_comment = ["/*" ..."*/"? .r?({
    [!"*/" "*" ..."*/"?]
    [multi_line_comment ..."*/"?]
    ["/" ..."*/"?]
}) "*/"]
1 comment = {multi_line_comment ["//" ..."\n"?]}
2 string = ["_" .._seps!:"name" ":" .w? .t?:"text"]
3 node = [.$:"id" .w! !"_" !"." .._seps!:"name" .w? "=" .w? rule:"rule"]
4 set = {.t!:"value" ["_" .._seps!:"ref"]}
5 set_opt = {.t?:"value" ["_" .._seps!:"ref"]}
6 opt = {"?":_opt "!":!_opt}
7 number = [".$" ?"_":"underscore" ?[":" set:_prop]]
8 text = [".t" {"?":"allow_empty" "!":!"allow_empty"} ?[":" set:_prop]]
9 reference = [!"_" !"." .._seps!:"name" ?[":" set:_prop]]
10 sequence = ["[" .w? .s!.(.w! rule:"rule") "]"]
11 select = ["{" .w? .s!.(.w! rule:"rule") "}"]
12 separated_by = [".s" opt ?".":"allow_trail"
  "(" .w? rule:"by" .w! rule:"rule" .w? ")"]
13 tag = [?"!":"not" set:"text" ?[":" ?"!":_inv set:_prop]]
14 optional = ["?" rule:"rule"]
15 not = ["!" rule:"rule"]
16 whitespace = [".w" opt]
17 until_any_or_whitespace = [".." set_opt:_any opt ?[":" set:_prop]]
18 until_any = ["..." set_opt:_any opt ?[":" set:_prop]]
19 repeat = [".r" opt "(" rule:"rule" ")"]
20 lines = [".l" ?"+":"indent" "(" .w? rule:"rule" .w? ")"]
21 rule = {
  whitespace:"whitespace"
  until_any_or_whitespace:"until_any_or_whitespace"
  until_any:"until_any"
  lines:"lines"
  repeat:"repeat"
  number:"number"
  text:"text"
  reference:"reference"
  sequence:"sequence"
  select:"select"
  separated_by:"separated_by"
  tag:"tag"
  optional:"optional"
  not:"not"
}
22 document = [
    .l([.w? {string:"string" comment}])
    .l([.w? {node:"node" comment}])
    .w?
]"###,
        docs: &["_s: \"a\"\n1 x = [\"b\":!_s .w? ?x]\n", "// c\n2 d = {.s?.(.w! .$_:\"n\") ..\"x\"! .l+(!d)}", "/* a /* b */ c */ 1 é = .r!(.t?:\"t\")"],
        pieces: &["1 a = ", "\"s\"", ":", "!", "?", "[", "]", ".w", ".s", "(", ")", " ", "\n", "_c", "a"] },
];

fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }

fn tree(r: &Rule) -> G {
    let p = |p: &Option<std::sync::Arc<String>>| -> P { p.as_ref().map(|s| leak(s)) };
    let bx = |r: &Rule| Box::new(tree(r));
    match r {
        Rule::Whitespace(x) => G::Ws(x.optional),
        Rule::Tag(x) => G::Tag { t: x.text.to_string(), not: x.not, inv: x.inverted, p: p(&x.property) },
        Rule::UntilAnyOrWhitespace(x) => G::UntilWs { any: x.any_characters.to_string(), opt: x.optional, p: p(&x.property) },
        Rule::UntilAny(x) => G::Until { any: x.any_characters.to_string(), opt: x.optional, p: p(&x.property) },
        Rule::Text(x) => G::Text { empty: x.allow_empty, p: p(&x.property) },
        Rule::Number(x) => G::Num { us: x.allow_underscore, p: p(&x.property) },
        Rule::Node(x) => G::Ref { name: x.name.to_string(), p: p(&x.property) },
        Rule::Sequence(x) => G::Seq(x.args.iter().map(tree).collect()),
        Rule::Select(x) => G::Sel(x.args.iter().map(tree).collect()),
        Rule::Optional(x) => G::Opt(bx(&x.rule)),
        Rule::Not(x) => G::Not(bx(&x.rule)),
        Rule::Repeat(x) => G::Rep { opt: x.optional, r: bx(&x.rule) },
        Rule::SeparateBy(x) => G::Sep { opt: x.optional, trail: x.allow_trail, by: bx(&x.by), r: bx(&x.rule) },
        Rule::Lines(x) => G::Lines { indent: x.indent, r: bx(&x.rule) },
        Rule::FastSelect(_) => unreachable!(),
    }
}

pub fn set_of(rules: &str) -> Set {
    let s: Syntax = crate::metalang::parse(rules).unwrap_or_else(|| { eprintln!("ENGINE ERROR: a language of the harness does not read:\n{}", rules); std::process::exit(2) });
    // Node numbers as written, recovered from the first debug id in reading order.
    let ids: Vec<usize> = rules.lines().filter_map(|l| { let k = l.find(' ')?; let n: usize = l[..k].parse().ok()?; l[k..].contains(" = ").then_some(n) }).collect();
    assert_eq!(ids.len(), s.names.len());
    let set = Set(s.names.iter().zip(&s.rules).zip(ids).map(|((n, r), id)| (id, n.to_string(), tree(r))).collect());
    assert!(set.syntax().rules.iter().zip(&s.rules).all(|(a, b)| crate::p_parse::rule_eq(a, b)));
    set
}

struct Ready { set: Set, m: Model, raw: Syntax, opt: Syntax }
fn ready(l: &Lang, cx: &mut Cx) -> Option<Ready> {
    let set = set_of(l.rules);
    let m = Model::new(&set);
    let (raw, opt) = load(&set, cx)?;
    cx.inc("rule sets");
    Some(Ready { set, m, raw, opt })
}

/// All texts one edit away, and the text itself.
pub fn edits(c: &[char], pieces: &[&str], from: usize) -> Vec<String> {
    let s = |v: &[char]| -> String { v.iter().collect() };
    let mut v = vec![];
    for i in from..=c.len() {
        let a = s(&c[..i]);
        for x in pieces { v.push(format!("{}{}{}", a, x, s(&c[i..]))); }
        if i < c.len() {
            let rest = s(&c[i + 1..]);
            v.push(a.clone());
            v.push(format!("{}{}", a, rest));
            v.push(format!("{}{}{}", a, c[i], s(&c[i..])));
            for x in pieces { v.push(format!("{}{}{}", a, x, rest)); }
            if i + 1 < c.len() { v.push(format!("{}{}{}{}", a, c[i + 1], c[i], s(&c[i + 2..]))); }
        }
    }
    v
}

pub fn families(what: What, thorough: bool) -> Vec<Family> {
    let mut fams = vec![];
    // Every edit of every document, and every second edit further on.
    let mut cases = vec![];
    for (k, l) in LANGS.iter().enumerate() { for (d, t) in l.docs.iter().enumerate() { for i in 0..=t.chars().count() { cases.push((k, d, i)); } } }
    let names: Vec<&str> = LANGS.iter().map(|l| l.name).collect();
    let short = if thorough { 40 } else { 16 };
    let n = cases.len() as u64;
    fams.push(fam("edits of documents", format!("{} languages ({}), {} documents: at every place a character deleted, doubled, swapped with the next, the text cut off, each piece of the language inserted or put in place of the character; after each edit every second one at the same place or up to {} characters on{}",
        LANGS.len(), names.join(", "), LANGS.iter().map(|l| l.docs.len()).sum::<usize>(), if thorough { 12 } else { 2 }, if thorough { "" } else { " (deletions, doublings and cuts only further on)" }), n, move |u, cx| {
        let (k, d, i) = cases[u as usize];
        let l = &LANGS[k];
        let r = match ready(l, cx) { None => return, Some(r) => r };
        let c: Vec<char> = l.docs[d].chars().collect();
        let at = |c: &[char], i: usize, pieces: &[&str]| -> Vec<String> { let e = edits(&c[..(i + 1).min(c.len())], pieces, i); let rest: String = c[(i + 1).min(c.len())..].iter().collect(); e.into_iter().map(|t| t + &rest).collect() };
        let s = |v: &[char]| -> String { v.iter().collect() };
        let mut first = at(&c, i, l.pieces);
        first.push(s(&c[..i]));
        if i + 1 < c.len() { let mut x = c.clone(); x.swap(i, i + 1); first.push(s(&x)); }
        if i == 0 { first.push(s(&c)); }
        for t in &first {
            if !case(what, &r.set, &r.m, &r.raw, Some(&r.opt), t, DEFAULT, cx) && cx.failed() { return; }
            let x: Vec<char> = t.chars().collect();
            let reach = if thorough { 12 } else { 2 };
            for j in i..x.len().min(i + reach + 1) {
                for t in at(&x, j, l.pieces) { if !case(what, &r.set, &r.m, &r.raw, Some(&r.opt), &t, DEFAULT, cx) && cx.failed() { return; } }
            }
            if x.len() > short && !thorough {
                for j in i + reach..x.len() { for t in at(&x, j, &[]) { if !case(what, &r.set, &r.m, &r.raw, Some(&r.opt), &t, DEFAULT, cx) && cx.failed() { return; } } }
            }
        }
    }));
    // Every sequence of pieces.
    let total: u64 = if thorough { 3_000_000 } else { 120_000 };
    let mut spaces = vec![];
    for l in LANGS {
        let mut w = Words::new(l.pieces, 1);
        while w.count() * l.pieces.len() as u64 <= total { w.max += 1; }
        spaces.push(w);
    }
    let per = 2000u64;
    let mut units = vec![];
    for (k, w) in spaces.iter().enumerate() { for b in 0..(w.count() + per - 1) / per { units.push((k, b)); } }
    let what_is = LANGS.iter().zip(&spaces).map(|(l, w)| format!("{}: to {} of {:?}", l.name, w.max, l.pieces)).collect::<Vec<_>>().join("; ");
    fams.push(fam("sequences of pieces", format!("the same languages on every sequence of pieces ({})", what_is), units.len() as u64, move |u, cx| {
        let (k, b) = units[u as usize];
        let r = match ready(&LANGS[k], cx) { None => return, Some(r) => r };
        let w = &spaces[k];
        for i in b * per..((b + 1) * per).min(w.count()) {
            if !case(what, &r.set, &r.m, &r.raw, Some(&r.opt), &w.word(i), DEFAULT, cx) && cx.failed() { return; }
        }
    }));
    fams
}
