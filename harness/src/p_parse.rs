//! C01–C07: parsing against the reference model.

use crate::engine::*;
use crate::gram::*;
use crate::interp::*;
use piston_meta::meta_rules::IndentSettings;
use piston_meta::tokenizer::TokenizerState;
use piston_meta::{parse_with_indent, MetaData, ParseError, Range, Syntax};
use read_token::ReadToken;
use std::sync::Arc;

pub type Tokens = Vec<Range<MetaData>>;

pub fn settings(s: Settings) -> IndentSettings {
    let mut i = IndentSettings::default();
    i.indent = s.indent;
    i.align_first = s.align;
    i.tab_spaces = s.tab;
    i
}

/// A space of rule sets with the texts and settings each is run on.
pub struct Pf {
    pub name: &'static str,
    pub bound: String,
    pub n: u64,
    pub per_unit: u64,
    pub gen: Arc<dyn Fn(u64) -> Set + Send + Sync>,
    pub texts: Arc<Vec<String>>,
    pub settings: Vec<Settings>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What { Accept, Events, Tree, Optimize, Errors, Returns, Full }

fn sentinel() -> Range<MetaData> { Range::new(7, 3).wrap(MetaData::Bool(Arc::new("before".into()), true)) }

pub fn run_impl(syn: &Syntax, text: &str, s: Settings) -> Result<(Result<(), Range<ParseError>>, Tokens), String> {
    run_within(budget(text.len()), syn, text, s)
}

fn run_within(steps: u64, syn: &Syntax, text: &str, s: Settings) -> Result<(Result<(), Range<ParseError>>, Tokens), String> {
    guard(steps, || {
        let mut t = vec![sentinel()];
        let r = parse_with_indent(syn, text, &mut t, &settings(s));
        (r, t)
    })
}

pub fn describe(set: &Set, text: &str, s: Settings) -> String {
    let exact = if set.0.iter().all(|x| expressible(&x.2)) { String::new() } else { format!("rules (exact): {:?}\n", set) };
    format!("rules:\n{}{}text: {:?}\nsettings: {:?}\n", set.text(), exact, text, s)
}

pub fn sig(set: &Set, text: &str, s: Settings) -> String {
    let d = if s == DEFAULT { String::new() } else { format!(" {:?}", s) };
    format!("{} <- {:?}{}", set.text().trim_end().replace('\n', " ; "), text, d)
}

/// Runs one case, with the rules as built and (if given) optimized, and judges both. Returns
/// false if a violation was reported.
pub fn case(what: What, set: &Set, m: &Model, raw: &Syntax, optd: Option<&Syntax>, text: &str, s: Settings, cx: &mut Cx) -> bool {
    let mut ev = Eval::new(m, text, s);
    let want = ev.document();
    cx.add("states", ev.states);
    cx.add("transitions", ev.transitions);
    if ev.left_recursive { cx.inc("skipped (left recursion)"); return true; }
    cx.note(|| sig(set, text, s));
    // Some rules ask for more and more by their meaning (repetitions in repetitions).
    if ev.cost > budget(text.len()) / 8 { cx.inc("skipped (takes long by itself)"); return true; }
    let steps = budget(text.len()).min(20_000 + 400 * text.len() as u64 + 64 * ev.cost);
    if !judge(what, set, m, raw, optd, &want, text, s, steps, false, cx) { return false; }
    match optd {
        Some(o) if what != What::Optimize => judge(what, set, m, o, None, &want, text, s, steps, true, cx),
        _ => true,
    }
}

/// `form`: the rules are optimized; a lookup that finds no alternative may then stand for the
/// failures of the alternatives themselves, if it is as deep.
fn judge(what: What, set: &Set, m: &Model, raw: &Syntax, optd: Option<&Syntax>, want: &Result<Vec<Ev>, Errs>, text: &str, s: Settings, steps: u64, form: bool, cx: &mut Cx) -> bool {
    let got = run_within(if what == What::Returns { steps } else { budget(text.len()) }, raw, text, s);
    cx.inc("executions");
    let fail = |cx: &mut Cx, why: String| {
        cx.violation(sig(set, text, s), format!("{}{}{}", describe(set, text, s), if form { "optimized rules\n" } else { "" }, why));
        false
    };
    let known = |w: &Errs, g: &Range<ParseError>| {
        let (k, id) = kind(&g.data);
        let er = Er { off: g.offset, len: g.length, k, id };
        w.0.contains(&er) || form && k == K::Something && g.length == 0 && m.selects.contains(&id) && w.depth() == Some(g.offset)
    };
    let (res, tokens) = match got {
        Err(e) => return fail(cx, format!("the call {}", e)),
        Ok(x) => x,
    };
    if form {}
    else if want.is_ok() { cx.inc("accepted"); if want.as_ref().unwrap().len() > 0 { cx.inc("accepted with data"); } }
    else { cx.inc("rejected"); }
    if !form && cx.wants_sample() {
        cx.sample(|| format!("{} => {}", sig(set, text, s), match want {
            Ok(e) => format!("accepted, {} events", e.len()),
            Err(e) => format!("rejected, deepest failure {:?}", e.0) }));
    }
    match what {
        What::Accept => {
            if res.is_ok() != want.is_ok() {
                return fail(cx, format!("documented meaning: {}\nlibrary: {:?}", acc(want.is_ok()), res));
            }
        }
        What::Events => {
            if let (Ok(e), Ok(())) = (want, &res) {
                if tokens.first() != Some(&sentinel()) || !same_events(e, &tokens[1..], true) {
                    return fail(cx, format!("expected data: {:?}\nlibrary: {:?}", e, &tokens[..]));
                }
            }
        }
        What::Returns => {}
        What::Full => {
            match (want, &res) {
                (Ok(e), Ok(())) => if !same_events(e, &tokens[1..], true) {
                    return fail(cx, format!("expected data: {:?}\nlibrary: {:?}", e, &tokens[1..]));
                },
                (Err(w), Err(g)) => {
                    if !known(w, g) || !m.says_truth(&g.data, text.get(g.offset..g.next_offset()).unwrap_or("")) {
                        return fail(cx, format!("deepest failures: {:?}\nlibrary reports: {:?}", w.0, g));
                    }
                }
                _ => return fail(cx, format!("documented meaning: {}\nlibrary: {:?}", acc(want.is_ok()), res)),
            }
        }
        What::Errors => {
            if let (Err(w), Err(g)) = (want, &res) {
                if !known(w, g) { return fail(cx, format!("deepest failures: {:?}\nlibrary reports: {:?}", w.0, g)); }
                if !m.says_truth(&g.data, text.get(g.offset..g.next_offset()).unwrap_or("")) {
                    return fail(cx, format!("the error says something that is not so: {:?}", g));
                }
                if !text.is_char_boundary(g.offset) { return fail(cx, format!("error offset not on a character: {:?}", g)); }
                if !form && w.0.len() > 1 { cx.inc("rejected with several deepest failures"); }
                if !form && g.next_offset() > 0 { cx.inc("failed after the start"); }
            }
        }
        What::Tree => {
            if let Ok(()) = &res {
                if let Err(why) = tree(&tokens[1..], text) { return fail(cx, format!("{}\nlibrary: {:?}", why, tokens)); }
                if let Ok(e) = want {
                    if !same_events(e, &tokens[1..], true) {
                        return fail(cx, format!("expected data: {:?}\nlibrary: {:?}", e, &tokens[1..]));
                    }
                }
                return shifted(set, raw, text, s, Some(&tokens[1..]), cx);
            }
            return shifted(set, raw, text, s, None, cx);
        }
        What::Optimize => {
            let o = optd.unwrap();
            match run_impl(o, text, s) {
                Err(e) => return fail(cx, format!("optimized: the call {}", e)),
                Ok((r2, t2)) => {
                    cx.inc("executions");
                    let same = match (&res, &r2) {
                        (Ok(()), Ok(())) => tokens.len() == t2.len() && tokens.iter().zip(&t2).all(|(a, b)| eq_range(a, b)),
                        (Err(a), Err(b)) => {
                            if a.data != b.data { cx.inc("same place, different message"); }
                            a.offset == b.offset && a.next_offset() == b.next_offset()
                        }
                        _ => false,
                    };
                    if !same {
                        return fail(cx, format!("plain: {:?} {:?}\noptimized: {:?} {:?}", res, tokens, r2, t2));
                    }
                    // The library must also still agree with the model, or both forms could be wrong together.
                    if res.is_ok() != want.is_ok() {
                        return fail(cx, format!("documented meaning: {}\nlibrary: {:?}", acc(want.is_ok()), res));
                    }
                    if let (Err(w), Err(g)) = (&want, &r2) {
                        let (k, id) = kind(&g.data);
                        let er = Er { off: g.offset, len: g.length, k, id };
                        let miss = k == K::Something && g.length == 0 && m.selects.contains(&id) && w.depth() == Some(g.offset);
                        if !w.0.contains(&er) && !miss {
                            return fail(cx, format!("deepest failures: {:?}\noptimized rules report: {:?}", w.0, g));
                        }
                    }
                }
            }
        }
    }
    true
}

pub fn acc(b: bool) -> &'static str { if b { "accepts" } else { "rejects" } }

pub fn eq_range(a: &Range<MetaData>, b: &Range<MetaData>) -> bool {
    a.offset == b.offset && a.length == b.length && match (&a.data, &b.data) {
        (MetaData::F64(n, x), MetaData::F64(m, y)) => n == m && x.to_bits() == y.to_bits(),
        (x, y) => x == y,
    }
}

/// Shape of the output: nesting, order, containment, source text of values.
pub fn tree(t: &[Range<MetaData>], text: &str) -> Result<(), String> {
    let mut open: Vec<(&str, usize, usize)> = vec![];
    let mut last = 0;
    for (i, r) in t.iter().enumerate() {
        let (a, b) = (r.offset, r.next_offset());
        if b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) { return Err(format!("entry {} lies outside the text or splits a character", i)); }
        let src = &text[a..b];
        match &r.data {
            MetaData::StartNode(n) => {
                if r.length != 0 { return Err(format!("start {} is not empty", i)); }
                if a < last { return Err(format!("start {} runs backwards", i)); }
                last = a;
                open.push((n, a, i));
            }
            MetaData::EndNode(n) => {
                let (m, start, k) = match open.pop() { None => return Err(format!("end {} without start", i)), Some(x) => x };
                if m != n.as_str() { return Err(format!("end {} has another name than its start", i)); }
                if a != start { return Err(format!("end {} does not begin where its node begins", i)); }
                if let Some(x) = t[k..i].iter().find(|x| x.offset < a || x.next_offset() > b) { return Err(format!("node ending at {} does not contain {:?}", i, x)); }
                if b < last { return Err(format!("end {} before what it contains", i)); }
                last = b;
            }
            d => {
                if a < last { return Err(format!("value {} runs backwards", i)); }
                last = b;
                match d {
                    MetaData::F64(_, v) => {
                        let s: String = src.chars().filter(|c| *c != '_').collect();
                        if s.parse::<f64>().ok().map(|x| x.to_bits()) != Some(v.to_bits()) { return Err(format!("text of number {} is {:?}", i, src)); }
                    }
                    MetaData::String(_, v) => {
                        let quoted = src.len() >= 2 && src.starts_with('"') && src.ends_with('"');
                        if src != v.as_str() && !quoted { return Err(format!("text of string {} is {:?}", i, src)); }
                    }
                    _ => {}
                }
            }
        }
    }
    if !open.is_empty() { return Err("node without end".into()); }
    Ok(())
}

const FAR: [usize; 6] = [1000, 255, 65_535, 65_536, u32::MAX as usize, usize::MAX / 4];

/// Reading at another starting offset shifts every range and nothing else, whether it succeeds or fails.
fn shifted(set: &Set, raw: &Syntax, text: &str, s: Settings, base: Option<&[Range<MetaData>]>, cx: &mut Cx) -> bool {
    type R = (Result<(Range, Option<Range<ParseError>>), Range<ParseError>>, Tokens);
    let root = raw.rules.len() - 1;
    let read = |off: usize| -> Result<R, String> { guard(budget(text.len()), || {
        let mut t = vec![];
        let mut ind = settings(s);
        let r = raw.rules[root].parse(&mut t, &TokenizerState(0), &ReadToken::new(text, off), &raw.rules, &mut ind);
        match r { Ok((range, st, e)) => { t.truncate(st.0); (Ok((range, e)), t) } Err(e) => (Err(e), vec![]) }
    }) };
    let far = FAR[text.bytes().fold(text.len(), |a, b| a + b as usize) % FAR.len()];
    let near = if base.is_some() { Some(1) } else { None };
    let zero = match read(0) { Err(e) => { cx.violation(sig(set, text, s), format!("{}Rule::parse {}", describe(set, text, s), e)); return false; } Ok(x) => x };
    for off in near.into_iter().chain([far]) {
        let r = read(off);
        cx.inc("executions");
        let err = |a: &Range<ParseError>, b: &Range<ParseError>| a.offset == b.offset.wrapping_add(off) && a.length == b.length && format!("{:?}", a.data) == format!("{:?}", b.data);
        let data = |t: &[Range<MetaData>], b: &[Range<MetaData>]| t.len() == b.len() && t.iter().zip(b).all(|(a, b)| a.offset >= off && eq_range(&Range::new(a.offset - off, a.length).wrap(a.data.clone()), b));
        let bad = match &r {
            Err(e) => Some(e.clone()),
            Ok((x, t)) => {
                let same = match (x, &zero.0) {
                    (Ok((a, e)), Ok((b, f))) => a.offset == b.offset + off && a.length == b.length && match (e, f) { (None, None) => true, (Some(e), Some(f)) => err(e, f), _ => false } && data(t, &zero.1),
                    (Err(a), Err(b)) => err(a, b),
                    _ => false,
                };
                let right = base.map_or(true, |b| matches!(x, Ok((a, _)) if a.length == text.len()) && data(t, b));
                if same && right { None } else { Some(format!("{:?}", r)) }
            }
        };
        if let Some(b) = bad {
            cx.violation(sig(set, text, s), format!("{}at starting offset {}: {}\nat offset 0: {:?}", describe(set, text, s), off, b, zero));
            return false;
        }
    }
    true
}

/// Left-recursive sets must still load.
pub fn load(set: &Set, cx: &mut Cx) -> Option<(Syntax, Syntax)> {
    let raw = set.syntax();
    cx.note(|| format!("optimize {}", set.text()));
    let o = match guard(BUDGET, || raw.clone().optimize()) {
        Ok(o) => o,
        Err(e) => { cx.violation(format!("optimize {}", set.text()), format!("{}optimize {}", set.text(), e)); return None; }
    };
    Some((raw, o))
}

fn same_rules(a: &Syntax, b: &Syntax) -> bool {
    a.names == b.names && a.rules.len() == b.rules.len() && a.rules.iter().zip(&b.rules).all(|(a, b)| rule_eq(a, b))
}

/// Structural equality that also looks inside optimized selections.
pub fn rule_eq(a: &piston_meta::Rule, b: &piston_meta::Rule) -> bool {
    use piston_meta::Rule::*;
    match (a, b) {
        (Select(x), Select(y)) => x.debug_id == y.debug_id && list_eq(&x.args, &y.args),
        (Sequence(x), Sequence(y)) => x.debug_id == y.debug_id && list_eq(&x.args, &y.args),
        (FastSelect(x), FastSelect(y)) => x.debug_id == y.debug_id && x.tail == y.tail && x.table == y.table && list_eq(&x.args, &y.args),
        (SeparateBy(x), SeparateBy(y)) => x.debug_id == y.debug_id && x.optional == y.optional && x.allow_trail == y.allow_trail
            && rule_eq(&x.rule, &y.rule) && rule_eq(&x.by, &y.by),
        (Repeat(x), Repeat(y)) => x.debug_id == y.debug_id && x.optional == y.optional && rule_eq(&x.rule, &y.rule),
        (Lines(x), Lines(y)) => x.debug_id == y.debug_id && x.indent == y.indent && rule_eq(&x.rule, &y.rule),
        (Optional(x), Optional(y)) => x.debug_id == y.debug_id && rule_eq(&x.rule, &y.rule),
        (Not(x), Not(y)) => x.debug_id == y.debug_id && rule_eq(&x.rule, &y.rule),
        (x, y) => x == y,
    }
}
fn list_eq(a: &[piston_meta::Rule], b: &[piston_meta::Rule]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| rule_eq(a, b))
}

pub fn families(what: What, pfs: Vec<Pf>) -> Vec<Family> {
    pfs.into_iter().map(|pf| {
        let units = (pf.n + pf.per_unit - 1) / pf.per_unit;
        let bound = format!("{}; {} rule sets x {} texts x {} settings", pf.bound, pf.n, pf.texts.len(), pf.settings.len());
        fam(pf.name, bound, units, move |u, cx| {
            for i in u * pf.per_unit..((u + 1) * pf.per_unit).min(pf.n) {
                let set = (pf.gen)(i);
                cx.inc("rule sets");
                let m = Model::new(&set);
                let (raw, optd) = match load(&set, cx) { None => return, Some((r, o)) => (r, Some(o)) };
                if what == What::Optimize {
                    let o = optd.as_ref().unwrap();
                    match guard(BUDGET, || o.clone().optimize()) {
                        Ok(o2) if same_rules(o, &o2) => {}
                        Ok(_) => { cx.violation(format!("twice {}", set.text()), format!("{}optimizing twice differs from once", set.text())); return; }
                        Err(e) => { cx.violation(format!("twice {}", set.text()), format!("{}second optimize {}", set.text(), e)); return; }
                    }
                    if format!("{:?}", o).len() != format!("{:?}", raw).len() { cx.inc("rule sets changed by optimize"); }
                }
                for s in &pf.settings {
                    for t in pf.texts.iter() {
                        if !case(what, &set, &m, &raw, optd.as_ref(), t, *s, cx) && cx.failed() { return; }
                    }
                }
            }
        })
    }).collect()
}

// ---------------------------------------------------------------- spaces

/// Wraps a rule into a node of its own, referenced by name (lifted by `lift`).
pub fn named(g: G) -> G { G::Seq(vec![rf("\0"), g]) }

pub fn lift(g: G) -> Set {
    let mut nodes = vec![];
    let g = lift_in(g, &mut nodes);
    let k = nodes.len() + 1;
    nodes.push((k, "d".to_string(), g));
    Set(nodes)
}

pub fn lift_in(g: G, nodes: &mut Vec<(usize, String, G)>) -> G {
    match g {
        G::Seq(mut v) if v.len() == 2 && v[0] == rf("\0") => {
            let inner = v.pop().unwrap();
            let inner = lift_in(inner, nodes);
            let k = nodes.len() + 1;
            let name = format!("n{}", k);
            nodes.push((k, name.clone(), inner));
            G::Ref { name, p: Some("n") }
        }
        G::Seq(v) => G::Seq(v.into_iter().map(|g| lift_in(g, nodes)).collect()),
        G::Sel(v) => G::Sel(v.into_iter().map(|g| lift_in(g, nodes)).collect()),
        G::Opt(g) => opt(lift_in(*g, nodes)),
        G::Not(g) => not(lift_in(*g, nodes)),
        G::Rep { opt, r } => rep(opt, lift_in(*r, nodes)),
        G::Sep { opt, trail, by, r } => { let by = lift_in(*by, nodes); let r = lift_in(*r, nodes); sep(opt, trail, by, r) }
        G::Lines { indent, r } => lines(indent, lift_in(*r, nodes)),
        g => g,
    }
}

pub fn space(name: &'static str, sp: Space, min: usize, max: usize, texts: Words, settings: Vec<Settings>, per_unit: u64) -> Pf {
    let c = sp.counts(max);
    let n: u64 = c[min..=max].iter().sum();
    let bound = format!("all rule trees of {}..{} nodes over {} leaves, {} unary and {} binary operators; all texts up to {} symbols over {:?}",
        min, max, sp.leaves.len(), sp.un.len(), sp.bi.len(), texts.max, texts.sym);
    let texts = Arc::new(texts.all());
    Pf { name, bound, n, per_unit, texts, settings, gen: Arc::new(move |mut i| {
        let mut k = min;
        while i >= c[k] { i -= c[k]; k += 1; }
        lift(sp.tree(k, i, &c))
    }) }
}

pub fn o_rep0(g: G) -> G { rep(true, g) }
pub fn o_rep1(g: G) -> G { rep(false, g) }
pub fn o_lines(g: G) -> G { lines(false, g) }
pub fn o_linesi(g: G) -> G { lines(true, g) }
pub fn o_seq(a: G, b: G) -> G { seq(vec![a, b]) }
pub fn o_sel(a: G, b: G) -> G { sel(vec![a, b]) }
pub fn o_sep00(a: G, b: G) -> G { sep(true, false, a, b) }
pub fn o_sep10(a: G, b: G) -> G { sep(false, false, a, b) }
pub fn o_sep01(a: G, b: G) -> G { sep(true, true, a, b) }
pub fn o_sep11(a: G, b: G) -> G { sep(false, true, a, b) }
pub const UN_ALL: [Un; 6] = [opt, not, o_rep0, o_rep1, o_lines, named];
pub const UN_LINES: [Un; 5] = [o_lines, o_linesi, opt, o_rep0, named];
pub const BI_ALL: [Bi; 6] = [o_seq, o_sel, o_sep00, o_sep10, o_sep01, o_sep11];
pub const BI_SMALL: [Bi; 3] = [o_seq, o_sel, o_sep00];

fn inv(t: &str, p: &'static str) -> G { G::Tag { t: t.into(), not: false, inv: true, p: Some(p) } }
fn nottagp(t: &str, inv: bool, p: &'static str) -> G { G::Tag { t: t.into(), not: true, inv, p: Some(p) } }

pub fn core_leaves() -> Vec<G> {
    vec![tagp("a", "p"), tag("b"), inv("ab", "q"), nottagp("a", false, "p"), G::Ws(true), G::Until { any: "b".into(), opt: true, p: Some("u") }]
}

pub fn reader_leaves() -> Vec<G> {
    vec![w0(), w1(), tag(","), G::UntilWs { any: ",".into(), opt: false, p: Some("p") }, G::UntilWs { any: "".into(), opt: true, p: Some("p") },
        G::Until { any: "a,".into(), opt: true, p: Some("u") }, G::Until { any: "é".into(), opt: false, p: None },
        G::Text { empty: true, p: Some("t") }, G::Text { empty: false, p: Some("t") }, G::Num { us: false, p: Some("f") }, G::Num { us: true, p: None },
        nottagp("1", true, "no"), tag("")]
}

/// Two mutually referring nodes.
pub fn recursive(n1: usize, n2: usize, texts: Words) -> Pf {
    let leaves = vec![tagp("a", "p"), tag("b"), rf("x"), rfp("x", "n"), rfp("d", "m"), rf("missing")];
    let sp = Space { leaves, un: vec![opt, not, o_rep0, o_rep1], bi: vec![o_seq, o_sel, o_sep00] };
    let c = sp.counts(n1.max(n2));
    let a: u64 = c[1..=n1].iter().sum();
    let b: u64 = c[1..=n2].iter().sum();
    let bound = format!("all pairs of nodes x, d (up to {} and {} tree nodes) that may refer to each other, themselves or a missing node, half of them under the same number (debug ids not unique); texts up to {} over {:?}", n1, n2, texts.max, texts.sym);
    let texts = Arc::new(texts.all());
    Pf { name: "recursive", bound, n: a * b, per_unit: 64, texts, settings: vec![DEFAULT], gen: Arc::new(move |i| {
        let pick = |mut i: u64| { let mut k = 1; while i >= c[k] { i -= c[k]; k += 1; } sp.tree(k, i, &c) };
        // Two nodes may have the same number; their debug ids are then not unique.
        let second = 1 + (i / b + i % b) as usize % 2;
        Set(vec![(1, "x".into(), pick(i / b)), (second, "d".into(), pick(i % b))])
    }) }
}

/// Selections with two to four alternatives: shared first characters and bytes, nullable alternatives, references.
pub fn selections(alts: usize, texts: Words) -> Pf {
    let leaves = vec![tagp("a", "p"), tag("ab"), tagp("é", "q"), tag("ê"), tagp("b", "r"), w0(), rf("x"), rf("missing"),
        not(not(tag("b"))), seq(vec![tag("b"), tag("a")]), sel(vec![tag("a")]), opt(tag("b")),
        rep(false, tag("a")), sep(false, false, tag(","), tag("b")), G::Text { empty: true, p: Some("t") }, nottag("a"), tag(""), seq(vec![opt(tag("a")), tag("b")])];
    let k = leaves.len() as u64;
    let nodes = vec![tagp("b", "x"), sel(vec![tag("a"), tag("š")])];
    let n = k.pow(alts as u32) * nodes.len() as u64 * 3;
    let bound = format!("all selections of {} alternatives out of {} kinds (shared first bytes, nullable, references to two kinds of node, undefined), alone, followed by more and repeated; all texts up to {} symbols over {:?}", alts, k, texts.max, texts.sym);
    let texts = Arc::new(texts.all());
    Pf { name: match alts { 2 => "select2", 3 => "select3", 4 => "select4", _ => "select5" }, bound, n, per_unit: 48, texts, settings: vec![DEFAULT], gen: Arc::new(move |i| {
        let (shape, i) = (i % 3, i / 3);
        let node = nodes[(i % nodes.len() as u64) as usize].clone();
        let mut j = i / nodes.len() as u64;
        let mut v = vec![];
        for _ in 0..alts { v.push(leaves[(j % k) as usize].clone()); j /= k; }
        let d = if shape == 0 { seq(vec![sel(v), opt(tag("a"))]) } else if shape == 1 { rep(true, sel(v)) } else { sel(v) };
        Set(vec![(1, "x".into(), node), (2, "d".into(), d)])
    }) }
}

/// Selections whose alternatives are pairs: what an alternative starts with decides what may be looked up.
fn starts(thorough: bool) -> Pf {
    let first = vec![w0(), w1(), opt(tag("a")), opt(tagp("b", "q")), rep(true, tag("a")), rep(false, tag("b")), sep(true, false, tag(","), tag("a")), sep(true, true, tag(","), tag("b")),
        sep(false, false, w1(), tag("a")), not(tag("a")), nottag("b"), tag(""), tagp("a", "p"), tag("b"), G::Until { any: "a".into(), opt: true, p: Some("u") }, G::UntilWs { any: "b".into(), opt: false, p: None },
        G::Text { empty: true, p: Some("t") }, num("f"), lines(false, tag("a")), lines(true, tag("b")), rf("empty"), rf("x"), rfp("x", "n"), rf("missing"),
        seq(vec![w0()]), seq(vec![]), seq(vec![opt(tag("a")), tag("b")]), sel(vec![tag("a")]), sel(vec![tag("a"), tag("b")]), sel(vec![opt(tag("a"))]), not(not(tag("a"))), not(not(seq(vec![w0(), tag("b")]))), not(not(opt(tag("a")))),
        not(tag("ab")), nottag("ba"), not(seq(vec![tag("b"), tag("a")])), not(G::Until { any: "b".into(), opt: false, p: None }), not(rep(false, tag("a"))), opt(tag("ba")), seq(vec![not(tag("ab")), w0()]), rep(true, tag("ab")), sel(vec![not(tag("ba")), tag("b")])];
    let second = vec![tagp("a", "r"), tagp("b", "s"), tag("")];
    let wrap: Vec<fn(G) -> G> = vec![|g| g, |g| rep(false, g), |g| sep(false, true, tag(","), g), |g| not(not(g)), |g| sel(vec![g])];
    let (f, c, w) = (first.len() as u64, second.len() as u64, wrap.len() as u64);
    let others = vec![tagp("b", "z"), tag("a"), seq(vec![w0(), tag("b")]), rf("x"), seq(vec![tag("b"), tag("a")])];
    let alts = f * c * w;
    let last = if thorough { f * c } else { 0 };
    let n = alts * (others.len() as u64 + last) * 2;
    let texts = Words::new(&["a", "b", " ", ",", "\"", "1", "\n"], if thorough { 4 } else { 3 });
    let bound = format!("selections of an alternative [x y] ({} kinds of x, {} of y, plain or in {} wrappers) and another alternative ({} kinds{}), in both orders; all texts up to {} symbols over {:?}", f, c, w - 1, others.len(), if thorough { " and every [x y]" } else { "" }, texts.max, texts.sym);
    let texts = Arc::new(texts.all());
    Pf { name: "starts", bound, n, per_unit: 32, texts, settings: vec![DEFAULT], gen: Arc::new(move |i| {
        let pair = |j: u64| wrap[(j / (f * c)) as usize](seq(vec![first[(j % f) as usize].clone(), second[(j / f % c) as usize].clone()]));
        let (swap, i) = (i % 2, i / 2);
        let (x, k) = (pair(i % alts), i / alts);
        let y = if k < others.len() as u64 { others[k as usize].clone() } else { pair(k - others.len() as u64) };
        Set(vec![(1, "x".into(), tag("a")), (2, "empty".into(), opt(tag("b"))), (3, "d".into(), sel(if swap == 0 { vec![x, y] } else { vec![y, x] }))])
    }) }
}

/// Selections whose alternatives fail at different depths, in every order, in every kind of surrounding.
fn failures(alts: usize, texts: Words) -> Pf {
    let kinds = vec![tagp("a", "p"), seq(vec![tag("a"), tag("b")]), seq(vec![tag("b"), tag("a")]), seq(vec![tag("ab"), tag("c")]), seq(vec![tag("a"), tag("c"), tag("a")]), seq(vec![tag("c"), tag("c")]), tag("ba"),
        seq(vec![opt(seq(vec![tag("a"), tag("b")])), tag("c")]), seq(vec![tag("c"), rep(true, tag("a")), tag("b")]), nottag("a"), seq(vec![tag("b"), not(tag("b")), tag("c")])];
    let around: Vec<fn(G) -> G> = vec![|g| g, |g| seq(vec![opt(g), tag("c")]), |g| rep(true, g), |g| rep(false, seq(vec![g, opt(tag("b"))])), |g| sep(true, false, tag("c"), g), |g| sep(false, true, opt(tag("b")), g), |g| sep(true, false, seq(vec![tag("b"), tag("c")]), seq(vec![opt(tag("c")), g])),
        |g| lines(false, g), |g| seq(vec![not(g), tag("a"), tag("a")]), |g| seq(vec![tag("a"), g, tag("b")])];
    let (k, w) = (kinds.len() as u64, around.len() as u64);
    let n = k.pow(alts as u32) * w;
    let bound = format!("all selections of {} alternatives out of {} that fail at different depths, in {} surroundings; all texts up to {} symbols over {:?}", alts, k, w, texts.max, texts.sym);
    let texts = Arc::new(texts.all());
    Pf { name: match alts { 2 => "failures2", 3 => "failures3", _ => "failures4" }, bound, n, per_unit: 32, texts, settings: vec![DEFAULT], gen: Arc::new(move |i| {
        let mut j = i / w;
        let mut v = vec![];
        for _ in 0..alts { v.push(kinds[(j % k) as usize].clone()); j /= k; }
        Set::one(around[(i % w) as usize](sel(v)))
    }) }
}

/// Selections whose alternatives succeed although something inside them failed further on.
fn successes(alts: usize, texts: Words) -> Pf {
    let s = |v: &[&str]| seq(v.iter().map(|x| tag(x)).collect());
    let kinds = vec![tagp("a", "p"), seq(vec![tag("a"), opt(s(&["b", "c"]))]), seq(vec![tagp("b", "q"), rep(true, s(&["a", "b"]))]), seq(vec![tag("c"), sep(true, false, tag("b"), s(&["a", "c"]))]), opt(s(&["b", "a", "b"])),
        seq(vec![opt(s(&["a", "a", "c"])), tag("b")]), sep(false, true, s(&["b", "b"]), tag("a")), tag(""), sel(vec![s(&["c", "a", "b"]), tag("c")]), seq(vec![tag("b"), not(s(&["a", "c"])), opt(s(&["a", "a"]))])];
    let around: Vec<fn(G) -> G> = vec![|g| g, |g| seq(vec![g, tag("c")]), |g| seq(vec![opt(g), opt(tagp("b", "r"))]), |g| rep(true, g), |g| sep(true, true, tag("c"), g), |g| named(seq(vec![tag("a"), g])), |g| sel(vec![seq(vec![g, tag("b")]), seq(vec![tag("a"), tag("a")])]),
        |g| seq(vec![not(seq(vec![g.clone(), tag("b")])), g, opt(tag("a"))]), |g| lines(false, g)];
    let (k, w) = (kinds.len() as u64, around.len() as u64);
    let n = k.pow(alts as u32) * w;
    let bound = format!("all selections of {} alternatives out of {} most of which succeed after something inside them failed further on, in {} surroundings; all texts up to {} symbols over {:?}", alts, k, w, texts.max, texts.sym);
    let texts = Arc::new(texts.all());
    Pf { name: match alts { 2 => "successes2", 3 => "successes3", _ => "successes4" }, bound, n, per_unit: 32, texts, settings: vec![DEFAULT], gen: Arc::new(move |i| {
        let mut j = i / w;
        let mut v = vec![];
        for _ in 0..alts { v.push(kinds[(j % k) as usize].clone()); j /= k; }
        lift(around[(i % w) as usize](sel(v)))
    }) }
}

/// Two readings from one place that write the same names with other values or over other lengths:
/// what the abandoned one wrote must not stand for what the successful one writes.
fn rewrites(thorough: bool) -> Pf {
    let until = |any: &str, p| G::Until { any: any.into(), opt: false, p: Some(p) };
    let first = vec![tagp("a", "p"), tagp("ab", "p"), tagp("abc", "p"), inv("ab", "p"), inv("a", "p"), rfp("x", "n"), rfp("y", "n"), rfp("z", "n"), rfp("w", "n"), rfp("v", "n"), rfp("x", "p"), rf("z"), rf("v"),
        until("b", "p"), until("c", "p"), G::UntilWs { any: "c".into(), opt: false, p: Some("p") }, opt(tagp("a", "p")), opt(rfp("y", "n")), rep(true, tagp("a", "p")), rep(false, rfp("x", "n")), seq(vec![tagp("a", "p"), tagp("b", "p")]), num("p")];
    let second = vec![tag("c"), tagp("c", "q"), tagp("b", "q"), tagp("c", "p"), tag("")];
    let around: Vec<fn(G, G) -> G> = vec![|a, b| sel(vec![a, b]), |a, b| seq(vec![opt(a), b]), |a, b| seq(vec![rep(true, a), b]), |a, b| rep(false, sel(vec![a, b])), |a, b| seq(vec![not(not(a)), b]), |a, b| seq(vec![not(a), b]),
        |a, b| seq(vec![sep(true, true, tag("b"), a), b]), |a, b| named(sel(vec![named(a), b])), |a, b| seq(vec![lines(false, a), b]), |a, b| sel(vec![seq(vec![named(a), tag("b")]), named(b)]), |a, b| sel(vec![sep(false, false, tag("b"), a), b])];
    let (f, c, w) = (first.len() as u64, second.len() as u64, around.len() as u64);
    let n = f * c * f * c * w;
    let texts = Words::new(&["a", "b", "c"], if thorough { 6 } else { 4 });
    let bound = format!("two rules [x y] ({} kinds of x that write data with the same names, {} of y) tried at the same place, in {} surroundings (select, optional, repeat, look-ahead, list, node, lines); all texts up to {} symbols over {:?}, and numbers", f, c, w, texts.max, texts.sym);
    let mut texts = texts.all();
    for t in ["1c", "1.0c", "1.0b", "1b", "1_0c", "1"] { texts.push(t.into()); }
    Pf { name: "rewrites", bound, n, per_unit: 128, texts: Arc::new(texts), settings: vec![DEFAULT], gen: Arc::new(move |i| {
        let pick = |j: u64| seq(vec![first[(j % f) as usize].clone(), second[(j / f) as usize].clone()]);
        let (k, j) = (i / w % (f * c), i / w / (f * c));
        let mut nodes = vec![(1, "x".into(), tag("a")), (2, "y".into(), tag("ab")), (3, "z".into(), seq(vec![tagp("a", "p"), tag("b")])), (4, "w".into(), seq(vec![tag("a"), tagp("b", "p")])), (5, "v".into(), seq(vec![tagp("a", "p"), opt(tagp("b", "p"))]))];
        let g = around[(i % w) as usize](pick(j), pick(k));
        let Set(more) = lift(g);
        let k = more.len();
        nodes.extend(more.into_iter().enumerate().map(|(i, (_, name, g))| (6 + i, if i + 1 == k { "d".into() } else { name }, g)));
        Set(nodes)
    }) }
}

fn neighbours_(thorough: bool) -> Pf {
    let (bound, n, gen) = neighbours();
    let mut texts = Words::new(&["a", "b"], if thorough { 4 } else { 3 }).all();
    for t in ["\"a\"", "\"\"b", "1", "1a", "a1", "b1_2", " a", "a b", "1 ", "a\nb", "a\na", "ba1ab", "\"b\"\"\"", "1_2\n1"] { texts.push(t.into()); }
    Pf { name: "neighbours", bound: format!("{}; {} texts", bound, texts.len()), n, per_unit: 256, texts: Arc::new(texts), settings: vec![DEFAULT], gen: Arc::new(gen) }
}

/// Rules around rules around rules, each level read once or twice.
fn chains(thorough: bool) -> Pf {
    const AROUND: [fn(G) -> G; 26] = [|g| opt(g), |g| not(g), |g| rep(true, g), |g| rep(false, g), |g| lines(false, g), |g| lines(true, g),
        |g| seq(vec![g]), |g| seq(vec![tag("a"), g]), |g| seq(vec![g, tag("b")]), |g| seq(vec![opt(tag("a")), g]), |g| seq(vec![g, opt(tag("b"))]), |g| seq(vec![not(tag("b")), g]),
        |g| sel(vec![g]), |g| sel(vec![g, tag("b")]), |g| sel(vec![tag("b"), g]), |g| sel(vec![seq(vec![tag("a"), g]), tag("b")]), |g| sel(vec![tag("b"), seq(vec![w0(), g])]), |g| sel(vec![seq(vec![g, tag("!")]), tag("a")]),
        |g| sep(true, false, tag(","), g), |g| sep(false, false, tag(","), g), |g| sep(true, true, tag(","), g), |g| sep(false, true, tag(","), g),
        |g| sep(true, false, g, tag("a")), |g| sep(false, false, g, tag("a")), |g| sep(true, true, g, tag("a")), |g| sep(false, true, g, tag("a"))];
    let depths: Vec<usize> = if thorough { vec![4, 5, 8, 9, 16, 17, 24, 40, 41, 64] } else { vec![5, 8, 17, 40] };
    let k = AROUND.len() as u64;
    let n = k * k * 2 * depths.len() as u64;
    let mut texts = Words::new(&["a", "b", ","], if thorough { 4 } else { 3 }).all();
    for (x, y) in [("a", ""), ("a", "b"), ("b", ""), ("a,", "b"), ("a,", "a"), ("", "\n")] { texts.push(x.repeat(20) + y); texts.push(x.repeat(40) + y); texts.push("a".to_string() + &y.repeat(40)); }
    Pf { name: "chains", bound: format!("every ordered pair of {} surroundings of a rule, in turn around each other {:?} times, written in one rule or each in a node of its own; {} texts; no more reading than 64 times what the rules ask for", k, depths, texts.len()),
        n, per_unit: 16, texts: Arc::new(texts), settings: vec![DEFAULT], gen: Arc::new(move |i| {
            let d = depths[(i / (k * k * 2)) as usize];
            let (x, y, nodes) = ((i / 2 / k % k) as usize, (i / 2 % k) as usize, i % 2 == 1);
            if !nodes { return Set::one((0..d).fold(tagp("a", "p"), |g, l| AROUND[if l % 2 == 0 { x } else { y }](g))); }
            let mut v: Vec<(usize, String, G)> = vec![(1, "k0".into(), tagp("a", "p"))];
            for l in 0..d { v.push((l + 2, if l + 1 == d { "d".into() } else { format!("k{}", l + 1) }, AROUND[if l % 2 == 0 { x } else { y }](rfp(&format!("k{}", l), "n")))); }
            Set(v)
        }) }
}

/// Pieces of several characters each: what fails does so one, two or three pieces in.
fn chunk_leaves() -> Vec<G> {
    vec![seq(vec![tagp("a", "p"), tagp("b", "q"), tag("c")]), tag(","), tagp("abd", "x"), G::Until { any: "d".into(), opt: true, p: Some("u") }, tag("ab"), seq(vec![tag("ab"), not(tag("c"))])]
}

fn chunks(thorough: bool) -> Vec<Pf> {
    let sp = Space { leaves: chunk_leaves(), un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() };
    let li = Space { leaves: vec![seq(vec![tagp("a", "p"), tagp("b", "q"), tag("c")]), tagp("abd", "x"), w0(), G::Until { any: "d\n".into(), opt: true, p: Some("u") }], un: UN_LINES.to_vec(), bi: BI_SMALL.to_vec() };
    let t = |n| Words::new(&["abc", "ab", "a", ",", "d"], n);
    let l = |n| Words::new(&["abc", "ab", "\n", " ", "d"], n);
    let mut v = vec![
        space("chunks", sp.clone(), 1, 3, t(if thorough { 7 } else { 5 }), vec![DEFAULT], 8),
        space("chunks4", sp.clone(), 4, 4, t(if thorough { 5 } else { 3 }), vec![DEFAULT], 32),
        space("chunk lines", li.clone(), 1, 3, l(if thorough { 7 } else { 5 }), vec![DEFAULT], 8),
        space("chunk lines4", li, 4, 4, l(if thorough { 5 } else { 4 }), vec![DEFAULT], 32),
    ];
    v.push(space("chunks5", sp, 5, 5, t(if thorough { 4 } else { 3 }), vec![DEFAULT], 128));
    v
}

/// Every way in: the four parsing functions and `Rule::parse`, over outputs that already hold
/// something, under all settings.
pub fn entry_points(what: What, thorough: bool, programs: Vec<Set>) -> Family {
    let sp = Space { leaves: vec![tagp("a", "p"), tagp("b", "q"), w0(), num("f"), G::Until { any: "\n".into(), opt: true, p: Some("u") }, tag("\n")],
        un: vec![o_lines, o_linesi, opt, not, o_rep0, named], bi: BI_ALL.to_vec() };
    let c = sp.counts(3);
    let mut sets = programs;
    for k in 1..=3 { for i in 0..c[k] { sets.push(lift(sp.tree(k, i, &c))); } }
    let texts = Words::new(&["a", "b", " ", "\n", "1", "\t"], if thorough { 4 } else { 3 });
    let mut all = texts.all();
    for t in ["a\n b\n b", "  a\n  a", " a\n\ta\n", "a\n  b\n a", "ab\n\n ab", "a\na\na\na", "  b\n b", "\tb\n    b"] { all.push(t.into()); }
    let mut ss = vec![];
    for indent in [0u32, 1, 2, 4] { for align in [true, false] { for tab in [0u8, 1, 4] { ss.push(Settings { indent, align, tab }); } } }
    let pre = [0usize, 1, 2, 5];
    let n = sets.len() as u64;
    fam("entry points", format!("{} rule sets (all trees up to 3 nodes over 6 leaves, 6 unary and 6 binary operators among them) on {} texts through parse, parse_with_indent, parse_errstr, parse_errstr_with_indent and Rule::parse, raw and optimized in turn, {} settings, over outputs that already hold {:?} entries in turn, Rule::parse also over entries it may discard", n, all.len(), ss.len(), pre), (n + 1) / 2, move |u, cx| {
        for set in &sets[(u * 2) as usize..((u + 1) * 2).min(n) as usize] {
            let m = Model::new(set);
            let (raw, o) = match load(set, cx) { None => return, Some(x) => x };
            for (ti, t) in all.iter().enumerate() {
                for (si, s) in ss.iter().enumerate() {
                    let mut ev = Eval::new(&m, t, *s);
                    let want = ev.document();
                    cx.add("states", ev.states);
                    cx.add("transitions", ev.transitions);
                    if ev.left_recursive { continue; }
                    cx.note(|| sig(set, t, *s));
                    let k = pre[(ti + si) % pre.len()];
                    let syn = if (ti / 2 + si) % 2 == 0 { &raw } else { &o };
                    for entry in 0..6 {
                        if entry % 2 == 0 && entry < 4 && *s != DEFAULT { continue; }
                        cx.inc("executions");
                        if let Some(why) = enter(what, entry, syn, &m, &want, t, *s, k, !std::ptr::eq(syn, &raw)) {
                            cx.violation(format!("{} {}", ENTRY[entry], sig(set, t, *s)), format!("{}{} {}: {}", describe(set, t, *s), ENTRY[entry], if std::ptr::eq(syn, &raw) { "" } else { "(optimized rules)" }, why));
                            if cx.failed() { return; }
                        }
                    }
                }
            }
        }
    })
}

const ENTRY: [&str; 6] = ["parse", "parse_with_indent", "parse_errstr", "parse_errstr_with_indent", "Rule::parse", "Rule::parse over discarded entries"];

fn enter(what: What, entry: usize, syn: &Syntax, m: &Model, want: &Result<Vec<Ev>, Errs>, t: &str, s: Settings, k: usize, form: bool) -> Option<String> {
    let before: Tokens = (0..k).map(|i| Range::new(7 * i, 3).wrap(match i % 3 { 0 => MetaData::StartNode(Arc::new(format!("b{}", i))), 1 => MetaData::Bool(Arc::new("before".into()), true), _ => MetaData::F64(Arc::new("f".into()), i as f64) })).collect();
    let mut ind = settings(s);
    let r = guard(2 * budget(t.len()), || {
        let mut out = before.clone();
        let mut err = None;
        let mut text = None;
        let ok = match entry {
            0 => match piston_meta::parse(syn, t, &mut out) { Ok(()) => true, Err(e) => { err = Some(e); false } },
            1 => match parse_with_indent(syn, t, &mut out, &ind) { Ok(()) => true, Err(e) => { err = Some(e); false } },
            2 => match piston_meta::parse_errstr(syn, t, &mut out) { Ok(()) => true, Err(e) => { text = Some(e); false } },
            3 => match piston_meta::parse_errstr_with_indent(syn, t, &mut out, &ind) { Ok(()) => true, Err(e) => { text = Some(e); false } },
            _ => {
                if entry == 5 { for _ in 0..3 { out.push(sentinel()); } }
                match syn.rules.last().unwrap().parse(&mut out, &TokenizerState(k), &ReadToken::new(t, 0), &syn.rules, &mut ind) {
                    Ok((range, st, _)) => { out.truncate(st.0); range.offset == 0 && range.length == t.len() }
                    Err(e) => { if want.is_err() { err = Some(e); } false }
                }
            }
        };
        (ok, out, err, text)
    });
    let (ok, out, err, text) = match r { Err(e) => return Some(e), Ok(x) => x };
    if what == What::Returns { return None; }
    if what == What::Accept || what == What::Full {
        if ok != want.is_ok() { return Some(format!("documented meaning: {}, library: {} {:?} {:?}", acc(want.is_ok()), acc(ok), err, text)); }
    }
    if ok != want.is_ok() { return None; }
    match want {
        Ok(w) => if matches!(what, What::Events | What::Tree | What::Full | What::Optimize) {
            if out.len() < k || !out.iter().zip(&before).all(|(a, b)| eq_range(a, b)) || !same_events(w, &out[k..], true) {
                return Some(format!("expected data after {} entries: {:?}\nlibrary: {:?}", k, w, out));
            }
        },
        Err(w) => if matches!(what, What::Errors | What::Full | What::Optimize) {
            if let Some(e) = &err {
                let (kk, id) = kind(&e.data);
                let er = Er { off: e.offset, len: e.length, k: kk, id };
                let lookup = form && kk == K::Something && e.length == 0 && m.selects.contains(&id) && w.depth() == Some(e.offset);
                if !w.0.contains(&er) && !lookup { return Some(format!("deepest failures: {:?}\nlibrary reports: {:?}", w.0, e)); }
            }
            if let Some(text) = &text {
                let mut plain = vec![];
                if let Ok(Err(e)) = guard(budget(t.len()), || parse_with_indent(syn, t, &mut plain, &settings(s))) {
                    if let Err(why) = crate::p_report::judge(t, e.range(), &format!("Error {}", e.data), matches!(e.data, ParseError::ExpectedTag(..)), text) { return Some(format!("{}\nerror: {:?}\nreport:\n{}", why, e, text)); }
                }
            }
        },
    }
    None
}

fn parse_spaces(thorough: bool) -> Vec<Pf> {
    let ab = |n| Words::new(&["a", "b", " "], n);
    let core = Space { leaves: core_leaves(), un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() };
    let readers = Space { leaves: reader_leaves(), un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() };
    let rt = |n| Words::new(&["a", ",", " ", "\"", "1", "_", ".", "-", "e", "\\", "é", "\n"], n);
    let uni = Space { leaves: vec![tagp("é", "p"), tag("ê"), tag("a"), tagp("€", "q"), w0(), G::Until { any: "é".into(), opt: true, p: Some("u") },
        G::UntilWs { any: "€".into(), opt: false, p: Some("w") }, nottagp("é", false, "no")], un: UN_ALL.to_vec(), bi: BI_ALL.to_vec() };
    let ut = |n| Words::new(&["é", "ê", "a", "€", "\u{3000}", "\n", "😀"], n);
    let li = Space { leaves: vec![tagp("a", "p"), w0(), tag("\n"), tag("b"), G::Until { any: "b\n".into(), opt: true, p: Some("u") }], un: UN_LINES.to_vec(), bi: BI_SMALL.to_vec() };
    let lt = |n| Words::new(&["a", "b", " ", "\n", "\t"], n);
    let mut v = vec![
        space("core", core.clone(), 1, 3, ab(if thorough { 7 } else { 6 }), vec![DEFAULT], 16),
        space("readers", readers.clone(), 1, 2, rt(if thorough { 5 } else { 4 }), vec![DEFAULT], 2),
        space("readers3", readers.clone(), 3, 3, rt(3), vec![DEFAULT], 8),
        space("unicode", uni.clone(), 1, 3, ut(if thorough { 5 } else { 4 }), vec![DEFAULT], 8),
        space("lines", li.clone(), 1, 3, lt(if thorough { 7 } else { 5 }), vec![DEFAULT], 8),
        recursive(3, 3, Words::new(&["a", "b"], if thorough { 6 } else { 4 })),
        starts(thorough),
        rewrites(thorough), neighbours_(thorough), chains(thorough),
        successes(2, Words::new(&["a", "b", "c"], if thorough { 6 } else { 5 })),
        successes(3, Words::new(&["a", "b", "c"], if thorough { 5 } else { 4 })),
        failures(2, Words::new(&["a", "b", "c"], if thorough { 7 } else { 5 })),
        failures(3, Words::new(&["a", "b", "c"], if thorough { 6 } else { 4 })),
        space("core4", core.clone(), 4, 4, ab(if thorough { 5 } else { 4 }), vec![DEFAULT], 32),
        space("lines4", li.clone(), 4, 4, lt(if thorough { 5 } else { 4 }), vec![DEFAULT], 16),
    ];
    v.extend(chunks(thorough));
    if thorough {
        v.push(successes(4, Words::new(&["a", "b", "c"], 4)));
        v.push(failures(4, Words::new(&["a", "b", "c"], 4)));
        v.push(recursive(4, 3, Words::new(&["a", "b"], 4)));
        v.push(space("unicode4", uni, 4, 4, ut(3), vec![DEFAULT], 32));
        v.push(space("core5", core, 5, 5, Words::new(&["a", "b"], 4), vec![DEFAULT], 64));
        v.push(space("readers4", readers, 4, 4, rt(2), vec![DEFAULT], 32));
        v.push(space("lines5", li, 5, 5, lt(4), vec![DEFAULT], 32));
    } else {
        v.push(space("core5", core, 5, 5, ab(3), vec![DEFAULT], 256));
    }
    v
}

const RULE: &str = "a state is a (rule, position, indentation) point of the reference model, a transition one rule application; an execution is one parse by the library compared with the model";
const ASSUME: [&str; 2] = ["rule sets that ask for a rule again at the same place (left recursion) are skipped when parsing; they are outside the properties",
    "the harness builds rules from the library's public rule types"];

pub fn prop(id: &'static str, thorough: bool) -> Prop {
    let what = match id { "C01" => What::Accept, "C02" => What::Events, "C03" => What::Tree, "C04" => What::Optimize, "C05" => What::Errors, _ => What::Returns };
    let mut pfs = vec![];
    if id == "C04" {
        let st = |n| Words::new(&["a", "b", "é", "ê", "š", " ", ",", "\""], n);
        pfs.push(selections(2, st(if thorough { 5 } else { 4 })));
        pfs.push(selections(3, st(if thorough { 4 } else { 3 })));
        pfs.push(selections(4, st(if thorough { 3 } else { 2 })));
        if thorough { pfs.push(selections(5, st(2))); }
    }
    pfs.extend(parse_spaces(thorough));
    let mut families_ = families(what, pfs);
    families_.push(crate::p_sizes::family(what, thorough));
    families_.push(crate::p_sizes::characters(what, thorough));
    families_.extend(crate::p_lang::families(what, thorough));
    families_.push(entry_points(what, thorough, vec![]));
    if id == "C04" { families_.push(all_tags()); families_.push(wide()); }
    if id == "C06" { families_.extend(returns_extra(thorough)); }
    Prop { id, level: "model_checking", rule: RULE, assumptions: ASSUME.to_vec(), families: families_ }
}

/// Selections of single characters, all pairs and their lead bytes.
fn all_tags() -> Family {
    let chars: Vec<char> = ['\0', '\t', '"', 'A', '\u{7f}', '\u{80}', 'à', 'é', 'ÿ', 'š', 'Š', 'ࠀ', 'あ', 'ぃ', '\u{ffff}', '😀', '😁', '\u{10ffff}'].to_vec();
    let n = chars.len() as u64;
    fam("lead-bytes", format!("selections of 3 one-character tokens, all triples of {} characters of 1 to 4 bytes (shared lead bytes, low byte collisions); every character and the empty text as text", n), n * n, move |u, cx| {
        for k in 0..n {
            let pick = [chars[(u / n) as usize], chars[(u % n) as usize], chars[k as usize]];
            let set = Set::one(sel(pick.iter().zip(["p", "q", "r"]).map(|(c, p)| tagp(&c.to_string(), p)).collect()));
            let m = Model::new(&set);
            let (raw, o) = match load(&set, cx) { None => return, Some(x) => x };
            for t in chars.iter().map(|c| c.to_string()).chain(["".to_string(), "x".to_string()]) {
                if !case(What::Optimize, &set, &m, &raw, Some(&o), &t, DEFAULT, cx) && cx.failed() { return; }
            }
        }
    })
}

/// Selections with up to 300 alternatives, around the limit of the lookup table.
fn wide() -> Family {
    let sizes: Vec<usize> = (0..=4).chain(100..=104).chain(120..=135).chain(250..=260).chain([300]).collect();
    fam("wide", format!("selections of {:?} alternatives: distinct characters, then repeated ones, with a nullable alternative at the end, the middle or nowhere; every alternative's text and neighbours", sizes), sizes.len() as u64 * 3, move |u, cx| {
        let n = sizes[(u / 3) as usize];
        let texts: Vec<String> = (0..n).map(|i| {
            if i < 94 { ((33 + i) as u8 as char).to_string() }
            else { char::from_u32(0x100 + (i as u32 - 94) * 64 % 0x600 + i as u32 / 40).unwrap().to_string() } }).collect();
        let mut alts: Vec<G> = texts.iter().map(|t| tagp(t, "p")).collect();
        match u % 3 { 0 => {} 1 => alts.push(opt(tagp("zz", "q"))), _ => { let k = alts.len() / 2; alts.insert(k, seq(vec![w1(), tag("x")])); } }
        let set = Set::one(sel(alts));
        let m = Model::new(&set);
        let (raw, o) = match load(&set, cx) { None => return, Some(x) => x };
        for t in texts.iter().cloned().chain(["".into(), "zz".into(), " x".into(), "\u{7f}".into(), "\u{fff}".into()]) {
            for t in [t.clone(), format!("{}~", t)] {
                if !case(What::Optimize, &set, &m, &raw, Some(&o), &t, DEFAULT, cx) && cx.failed() { return; }
            }
        }
    })
}

/// C06: loading left-recursive sets; line blocks under all small settings; wide texts.
fn returns_extra(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let leaves = vec![rf("x"), rf("y"), rfp("d", "m"), tag("a"), rf("missing"), w0()];
    let sp = Space { leaves, un: vec![opt, not, o_rep0, o_rep1, o_lines], bi: vec![o_seq, o_sel, o_sep10, o_sep01] };
    let c = sp.counts(3);
    let per: u64 = c[1..=2].iter().sum();
    let last: u64 = c[1..=if thorough { 3 } else { 2 }].iter().sum();
    let total = per * per * last;
    v.push(fam("load-recursive", format!("compiling (from text) and optimizing every set of three nodes x, y, d of up to 2 tree nodes (d up to {}) over references to each other, left-recursive ones included: {} sets", if thorough { 3 } else { 2 }, total),
        (total + 255) / 256, move |u, cx| {
        let pick = |mut i: u64| { let mut k = 1; while i >= c[k] { i -= c[k]; k += 1; } sp.tree(k, i, &c) };
        for i in u * 256..((u + 1) * 256).min(total) {
            let set = Set(vec![(1, "x".into(), pick(i % per)), (2, "y".into(), pick(i / per % per)), (3, "d".into(), pick(i / per / per))]);
            cx.inc("rule sets");
            if load(&set, cx).is_none() { return; }
            if set.0.iter().all(|x| expressible(&x.2)) && i % 16 == 0 {
                let t = set.text();
                cx.note(|| format!("syntax {:?}", t));
                cx.inc("executions");
                match guard(BUDGET, || piston_meta::syntax(&t)) {
                    Ok(Ok(_)) => {}
                    Ok(Err(e)) => { cx.violation(format!("syntax {:?}", t), format!("rules are refused: {:?}\n{}", e, t)); return; }
                    Err(e) => { cx.violation(format!("syntax {:?}", t), format!("loading {}\n{}", e, t)); return; }
                }
            }
        }
    }));
    let li = Space { leaves: vec![tag("a"), w0(), tag("\n"), G::Num { us: false, p: Some("f") }], un: vec![o_lines, o_linesi, opt, o_rep0], bi: BI_SMALL.to_vec() };
    let mut st = vec![];
    for indent in [0u32, 1, 3] { for align in [false, true] { for tab in [0u8, 1, 4, 255] { st.push(Settings { indent, align, tab }); } } }
    let pf = space("settings", li, 1, 3, Words::new(&["a", "1", " ", "\n", "\t", "\u{3000}", "\r"], if thorough { 5 } else { 4 }), st, 2);
    v.extend(families(What::Returns, vec![pf]));
    // Every short text over all kinds of characters on one rule set per built-in rule.
    let words = Words::new(&["0", "9", ".", "e", "-", "+", "_", "\"", "\\", "u", "n", "é", "\u{3000}", "\n", " ", "\u{0}"], if thorough { 6 } else { 5 });
    let rules: Vec<Set> = vec![G::Num { us: false, p: Some("f") }, G::Num { us: true, p: Some("f") }, G::Text { empty: true, p: Some("t") }, G::Text { empty: false, p: None },
        rep(true, sel(vec![G::Num { us: true, p: Some("f") }, G::Text { empty: true, p: Some("t") }, w1(), G::Until { any: "\"0".into(), opt: false, p: Some("u") }])),
        lines(false, seq(vec![w0(), G::UntilWs { any: "\"".into(), opt: false, p: Some("w") }]))].into_iter().map(Set::one).collect();
    let n = words.count();
    let per = 4096;
    v.push(fam("symbols", format!("{} rule sets over numbers, strings, until-any and lines on all texts up to {} symbols over {:?}", rules.len(), words.max, words.sym), (n + per - 1) / per, move |u, cx| {
        let prepared: Vec<(&Set, Model, Syntax)> = rules.iter().map(|s| (s, Model::new(s), s.syntax())).collect();
        for i in u * per..((u + 1) * per).min(n) {
            let t = words.word(i);
            for (s, m, syn) in &prepared {
                if !case(What::Accept, s, m, syn, None, &t, DEFAULT, cx) && cx.failed() { return; }
            }
        }
    }));
    // Extreme numbers and long texts.
    v.push(fam("extremes", "number literals with up to 400 digits, exponents up to 25 digits, signs; repeated and listed rules over texts of 2^0..2^14 items", 2, |u, cx| {
        if u == 0 {
            for digits in [1usize, 15, 16, 17, 18, 19, 20, 21, 39, 100, 308, 309, 310, 400] {
                for d in ["0", "1", "9"] { for sign in ["", "-", "+"] {
                    for exp in ["", "e0", "e-0", "e308", "e309", "e-308", "e-324", "e-325", "e999", "e-999", "e2147483647", "e2147483648", "e-2147483648", "e4294967295", "e4294967296", "e18446744073709551615", "e18446744073709551616", "e99999999999999999999", "e-9999999999999999999999999"] {
                        for frac in ["", ".", ".0", ".5"] {
                            let t = format!("{}{}{}{}", sign, d.repeat(digits), frac, exp);
                            let set = Set::one(G::Num { us: false, p: Some("f") });
                            let m = Model::new(&set);
                            let syn = set.syntax();
                            if !case(What::Accept, &set, &m, &syn, None, &t, DEFAULT, cx) && cx.failed() { return; }
                        }
                    }
                } }
            }
        } else {
            for g in [rep(true, tagp("a", "p")), sep(true, false, tag(","), opt(tagp("a", "p"))), rep(true, seq(vec![opt(tag("a")), opt(tag("b"))])), lines(false, tagp("a", "p"))] {
                let set = Set::one(g);
                let m = Model::new(&set);
                let syn = set.syntax();
                for k in 0..15 {
                    for unit in ["a", "a,", ",", "a\n", "ab", "\n", " "] {
                        let t = unit.repeat(1 << k);
                        if !case(What::Events, &set, &m, &syn, None, &t, DEFAULT, cx) && cx.failed() { return; }
                    }
                }
            }
        }
    }));
    v
}

// ---------------------------------------------------------------- C07

pub fn c07(thorough: bool) -> Prop {
    let sym = ["a", "é", "ê", "€", "𝄞", "\u{3000}", " ", "\n"];
    let w = Words::new(&sym, if thorough { 4 } else { 3 });
    let texts = Arc::new(w.all());
    let mut fams = vec![];
    // Literal rule sets: each character its own token / one token / repeated selection.
    let tx = texts.clone();
    fams.push(fam("literal", format!("every text t up to {} characters over {:?}: rules that spell t (as one token, as a sequence of characters, through nodes) run on every text of that length bound, plus every extension by two characters", w.max, sym), texts.len() as u64, move |u, cx| {
        let t = &tx[u as usize];
        let chars: Vec<String> = t.chars().map(|c| c.to_string()).collect();
        let mut sets = vec![
            Set::one(seq(chars.iter().map(|c| tag(c)).collect())),
            Set::one(tag(t)),
            Set(vec![(1, "x".into(), seq(chars.iter().map(|c| tagp(c, "p")).collect())), (2, "d".into(), rfp("x", "n"))]),
        ];
        if !chars.is_empty() { sets.push(Set::one(seq(chars.iter().map(|c| sel(vec![tag("zz"), tag(c)])).collect()))); }
        for set in &sets {
            let raw = set.syntax();
            let o = match load(set, cx) { None => return, Some((_, o)) => o };
            let mut run = |x: &str, cx: &mut Cx| -> bool {
                for (form, syn) in [("", &raw), ("optimized ", &o)] {
                    cx.inc("executions"); cx.inc("transitions");
                    cx.note(|| sig(set, x, DEFAULT));
                    let r = run_impl(syn, x, DEFAULT);
                    let ok = match &r { Ok((r, _)) => r.is_ok(), Err(_) => x != t };
                    if r.is_err() || ok != (x == t) {
                        cx.violation(sig(set, x, DEFAULT), format!("{}{}rules spelling {:?}: {:?}", describe(set, x, DEFAULT), form, t, r.map(|x| x.0)));
                        return false;
                    }
                    if ok { cx.inc("accepted"); } else { cx.inc("rejected"); }
                }
                true
            };
            cx.inc("states");
            for x in tx.iter() { if !run(x, cx) && cx.failed() { return; } }
            for a in sym { for b in sym.iter().chain(["", "z"].iter()) { if !run(&format!("{}{}{}", t, a, b), cx) && cx.failed() { return; } } }
            cx.sample(|| format!("rules spelling {:?} accept it and nothing else", t));
        }
    }));
    // Rules that stop before the first character they cannot read.
    let words = Words::new(&["a", "é", "€", "𝄞", "x", " ", "\u{3000}", "\u{a0}"], if thorough { 6 } else { 5 });
    let n = words.count();
    fams.push(fam("remainder", format!("rules that read a run of characters of one kind (repeat, until-any, until-any-or-whitespace, whitespace, list, lines) on all texts up to {} characters over {:?}: accepted exactly if all characters are of that kind", words.max, words.sym), (n + 2047) / 2048, move |u, cx| {
        type Kind = fn(&str) -> bool;
        let rules: Vec<(G, Kind)> = vec![
            (rep(true, tag("é")), |t| t.chars().all(|c| c == 'é')),
            (rep(true, sel(vec![tag("é"), tag("𝄞"), tag("€")])), |t| t.chars().all(|c| "é𝄞€".contains(c))),
            (G::Until { any: "x".into(), opt: true, p: Some("p") }, |t| !t.contains('x')),
            (G::Until { any: "€x".into(), opt: true, p: None }, |t| !t.contains(['x', '€'])),
            (G::UntilWs { any: "€".into(), opt: true, p: Some("p") }, |t| !t.contains(|c: char| c == '€' || c.is_whitespace())),
            (w0(), |t| t.chars().all(char::is_whitespace)),
            (seq(vec![w0(), rep(true, seq(vec![tag("𝄞"), w0()]))]), |t| t.chars().all(|c| c == '𝄞' || c.is_whitespace())),
            (sep(true, false, tag("€"), tag("é")), |t| t.is_empty() || t.split('€').all(|p| p == "é")),
            (sep(true, true, tag("€"), tag("é")), |t| t.is_empty() || (t != "€" && t.strip_suffix('€').unwrap_or(t).split('€').all(|p| p == "é"))),
            (lines(false, seq(vec![w0(), G::UntilWs { any: "x".into(), opt: false, p: Some("p") }])), |t| t.split_whitespace().count() <= 1 && !t.contains('x')),
        ];
        let prepared: Vec<(Set, Syntax, Kind)> = rules.into_iter().map(|(g, k)| { let s = Set::one(g); let y = s.syntax(); (s, y, k) }).collect();
        for i in u * 2048..((u + 1) * 2048).min(n) {
            let t = words.word(i);
            cx.inc("states");
            for (set, syn, k) in &prepared {
                cx.inc("executions"); cx.inc("transitions");
                cx.note(|| sig(set, &t, DEFAULT));
                let r = run_impl(syn, &t, DEFAULT);
                let want = k(&t);
                if want { cx.inc("accepted"); } else { cx.inc("rejected"); }
                match &r {
                    Ok((r, _)) if r.is_ok() == want => {}
                    _ => { cx.violation(sig(set, &t, DEFAULT), format!("{}expected {}, library: {:?}", describe(set, &t, DEFAULT), acc(want), r.map(|x| x.0))); if cx.failed() { return; } }
                }
            }
        }
    }));
    fams.push(crate::p_sizes::characters(What::Accept, thorough));
    fams.push(crate::p_sizes::family(What::Accept, thorough));
    Prop { id: "C07", level: "model_checking", rule: "a state is a text, a transition one (rule set, text) parse; expected acceptance is a property of the text itself (equality, or a predicate on its characters), in the families sizes and characters that of the reference model", assumptions: vec![], families: fams }
}
