//! C15: error reports.

use crate::engine::*;
use crate::gram::*;
use crate::interp::{Settings, DEFAULT};
use crate::p_parse::*;
use piston_meta::{parse_errstr, parse_errstr_with_indent, parse_with_indent, syntax, syntax_errstr, ParseError, ParseErrorHandler, Range};
use read_token::{ParseNumberError, ParseStringError};
use std::sync::Arc;

/// Judges a report from what it must say; `head` is the message line, `tag` a missing-token error.
pub fn judge(text: &str, range: Range, head: &str, tag: bool, report: &str) -> Result<(), String> {
    let mut rest = report.strip_prefix(&format!("{}\n", head)).ok_or("does not start with the message")?;
    let start = range.offset;
    let lines: Vec<&str> = text.split('\n').collect();
    let l = text[..start].matches('\n').count();
    let line_start = text[..start].rfind('\n').map_or(0, |i| i + 1);
    let col = text[line_start..start].chars().count();
    let chars: Vec<char> = lines[l].chars().collect();
    if tag {
        // From the last preceding line that is not blank (or the first line).
        let mut p = l;
        while p > 0 { p -= 1; if !lines[p].chars().all(char::is_whitespace) { break; } }
        for (k, x) in lines[p..l].iter().enumerate() {
            rest = rest.strip_prefix(&format!("{}: {}\n", p + k + 1, x)).ok_or_else(|| format!("does not list line {} before the place", p + k + 1))?;
        }
    }
    let label = format!("{},{}: ", l + 1, col + 1);
    rest = rest.strip_prefix(&label).ok_or_else(|| format!("does not name line {} and column {}", l + 1, col + 1))?;
    // The line itself has no line break: the window ends at the first one.
    let (window, r) = rest.split_once('\n').ok_or("line is cut")?;
    rest = r.strip_prefix(&label).ok_or_else(|| format!("does not name line {} and column {} before the caret", l + 1, col + 1))?;
    let (pad, r) = rest.split_once("^\n").ok_or("no caret")?;
    rest = r;
    let (w, pad): (Vec<char>, Vec<char>) = (window.chars().collect(), pad.chars().collect());
    let from = col.checked_sub(pad.len()).ok_or("the caret stands too far to the right")?;
    if from + w.len() > chars.len() || chars[from..from + w.len()] != w[..] { return Err("what is shown is not that part of the line above the caret".into()); }
    if w.len() < pad.len() || (col < chars.len() && w.len() == pad.len()) { return Err("the window does not contain the place".into()); }
    for (i, c) in pad.iter().enumerate() {
        let want = if chars[from + i] == '\t' { '\t' } else { ' ' };
        if *c != want { return Err(format!("character {} before the caret is {:?}", i, c)); }
    }
    if chars.len() <= 75 && w.len() != chars.len() { return Err("a short line is not shown whole".into()); }
    // Further lines that the range reaches may follow.
    let mut k = l;
    let mut pos = line_start;
    while k + 1 < lines.len() {
        pos += lines[k].len() + 1;
        k += 1;
        if pos > range.next_offset() { break; }
        let label = format!("{},1: ", k + 1);
        if let Some(r) = rest.strip_prefix(&label) {
            let (w, r) = r.split_once('\n').ok_or("line is cut")?;
            if !lines[k].starts_with(w) { return Err(format!("line {} is shown as {:?}", k + 1, w)); }
            rest = r;
        }
    }
    if rest.is_empty() { Ok(()) } else { Err(format!("more than the report: {:?}", rest)) }
}

pub fn errors() -> Vec<(ParseError, &'static str)> {
    use ParseError::*;
    vec![
        (ExpectedTag(Arc::new(";".into()), 1001), "Error #1001, Expected: `;`"),
        (ExpectedEnd, "Error Expected end"),
        (ExpectedTag(Arc::new("é\n1,1: ".into()), 0), "Error #0, Expected: `é\n1,1: `"),
        (ExpectedWhitespace(2), "Error #2, Expected whitespace"),
        (ExpectedNewLine(3), "Error #3, Expected new line"),
        (ExpectedSomething(4), "Error #4, Expected something"),
        (ExpectedNumber(5), "Error #5, Expected number"),
        (ParseNumberError(self::ParseNumberError::Invalid, 6), "Error #6, Invalid number format: "),
        (ExpectedText(7), "Error #7, Expected text"),
        (EmptyTextNotAllowed(8), "Error #8, Empty text not allowed"),
        (ParseStringError(self::ParseStringError::ExpectedFourHexadecimals, 9), "Error #9, Invalid string format: "),
        (DidNotExpectTag(Arc::new("x".into()), 10), "Error #10, Did not expect: `x`"),
        (InvalidRule("msg", 11), "Error #11, Invalid rule: msg"),
        (NoRules, "Error No rules are specified"),
        (Conversion("c".into()), "Error Conversion, c"),
    ]
}

fn report(text: &str, range: Range, i: usize) -> Result<(String, String), String> {
    let (e, h) = errors().swap_remove(i);
    // Messages of the text reader are appended by it.
    let head = match &e { ParseError::ParseNumberError(x, _) => format!("{}{}", h, x), ParseError::ParseStringError(x, _) => format!("{}{}", h, x), _ => h.to_string() };
    let r = guard(BUDGET, || {
        let mut w: Vec<u8> = vec![];
        ParseErrorHandler::new(text).write(&mut w, range.wrap(e)).map(|_| w).map_err(|e| e.to_string())
    }).and_then(|x| x)?;
    Ok((head, String::from_utf8(r).map_err(|_| "not UTF-8".to_string())?))
}

fn check(text: &str, range: Range, kinds: &[usize], cx: &mut Cx) -> bool {
    for &k in kinds {
        cx.inc("executions"); cx.inc("transitions");
        cx.note(|| format!("{:?} {:?} {}", text, range, k));
        let r = report(text, range, k);
        let tag = matches!(k, 0 | 2);
        let v = r.as_ref().map_err(|e| e.clone()).and_then(|(h, r)| judge(text, range, h, tag, r));
        if let Err(e) = v {
            cx.violation(format!("{:?} {:?} error kind {}", text, range, k), format!("text: {:?}\nrange: {:?}\n{}\nreport:\n{}", text, range, e, r.map(|x| x.1).unwrap_or_else(|e| e)));
            if cx.failed() { return false; }
        }
        cx.inc(if tag { "missing token" } else { "other errors" });
    }
    // The same for a message of the caller's.
    cx.inc("executions"); cx.inc("transitions");
    let r = guard(BUDGET, || { let mut w: Vec<u8> = vec![]; ParseErrorHandler::new(text).write_msg(&mut w, range, "é message").map(|_| String::from_utf8(w).unwrap()).map_err(|e| e.to_string()) }).and_then(|x| x);
    if let Err(e) = r.as_ref().map_err(|e| e.clone()).and_then(|r| judge(text, range, "é message", false, r)) {
        cx.violation(format!("{:?} {:?} message", text, range), format!("text: {:?}\nrange: {:?}\n{}\nmessage report:\n{:?}", text, range, e, r));
        if cx.failed() { return false; }
    }
    true
}

fn bounds(t: &str) -> Vec<usize> { t.char_indices().map(|x| x.0).chain([t.len()]).collect() }

/// The functions that return errors as text against the plain ones.
fn convenience(set: &Set, texts: &[String], ss: &[Settings], cx: &mut Cx) -> bool {
    let raw = set.syntax();
    for t in texts {
        for s in ss {
            let ind = settings(*s);
            cx.inc("executions"); cx.inc("transitions"); cx.inc("states");
            cx.note(|| sig(set, t, *s));
            let r = guard(BUDGET * 4, || {
                let (mut d1, mut d2, mut d3) = (vec![], vec![], vec![]);
                let a = parse_with_indent(&raw, t, &mut d1, &ind);
                let b = parse_errstr_with_indent(&raw, t, &mut d2, &ind);
                let c = if *s == DEFAULT { Some(parse_errstr(&raw, t, &mut d3)) } else { None };
                (a, b, c, d1, d2, d3)
            });
            let bad = match r {
                Err(e) => Some(e),
                Ok((a, b, c, d1, d2, d3)) => {
                    let data = |x: &Tokens| x.len() == d1.len() && x.iter().zip(&d1).all(|(a, b)| eq_range(a, b));
                    let one = |b: &Result<(), String>, d: &Tokens| -> Option<String> {
                        match (&a, b) {
                            (Ok(()), Ok(())) => if data(d) { None } else { Some(format!("other data: {:?} and {:?}", d1, d)) },
                            (Err(e), Err(s)) => judge(t, e.range(), &format!("Error {}", e.data), matches!(e.data, ParseError::ExpectedTag(..)), s).err()
                                .map(|m| format!("{}\nerror: {:?}\nreport:\n{}", m, e, s)),
                            (a, b) => Some(format!("plain: {:?}, as text: {:?}", a, b)),
                        }
                    };
                    cx.inc(if a.is_ok() { "succeeds both ways" } else { "fails both ways" });
                    one(&b, &d2).or_else(|| c.and_then(|c| one(&c, &d3)))
                }
            };
            if let Some(b) = bad {
                cx.violation(format!("errstr {}", sig(set, t, *s)), format!("{}{}", describe(set, t, *s), b));
                if cx.failed() { return false; }
            }
        }
    }
    true
}

fn compile_both(t: &str, cx: &mut Cx) -> bool {
    cx.inc("executions"); cx.inc("transitions"); cx.inc("states");
    cx.note(|| format!("{:?}", t));
    let r = guard(2 * budget(t.len()), || (syntax(t), syntax_errstr(t)));
    let bad = match &r {
        Err(e) => Some(e.clone()),
        Ok((Ok(a), Ok(b))) => if crate::p_meta::syn_eq(a, b) { None } else { Some("different rules".into()) },
        Ok((Err(e), Err(s))) => judge(t, e.range(), &format!("Error {}", e.data), matches!(e.data, ParseError::ExpectedTag(..)), s).err().map(|m| format!("{}\nerror: {:?}\nreport:\n{}", m, e, s)),
        Ok((a, b)) => Some(format!("plain: {:?}, as text: {:?}", a, b)),
    };
    cx.inc(if matches!(r, Ok((Ok(_), _))) { "compiles both ways" } else { "refused both ways" });
    if let Some(b) = bad { cx.violation(format!("syntax_errstr {:?}", t), format!("text:\n{}\n{}", t, b)); return !cx.failed(); }
    true
}

/// What the standard error helpers do, in a process of its own.
pub fn stderr_case(i: u64) -> (String, Range, usize) {
    let texts = ["", "a\n\n  b;\n", "é\t\u{1d11e}x", "a\r\nb\r\n"];
    let t = texts[(i % 4) as usize].to_string();
    let b = bounds(&t);
    let k = b[(i / 4) as usize % b.len()];
    (t, Range::new(k, 0), (i % 15) as usize)
}

pub fn c15(thorough: bool) -> Prop {
    let mut fams = vec![];
    let w = Words::new(&["a", " ", "\t", "\n", "é", "𝄞", "\r"], if thorough { 7 } else { 6 });
    let n = w.count();
    let per = 128;
    let all = move |u: u64, w: &Words, kinds: &[usize], max: usize, cx: &mut Cx| {
        for i in u * per..((u + 1) * per).min(w.count()) {
            let t = w.word(i);
            cx.inc("states");
            let b = bounds(&t);
            for (i, a) in b.iter().enumerate() {
                for e in b[i..].iter().take(max) { if !check(&t, Range::new(*a, *e - *a), kinds, cx) { return; } }
            }
            cx.sample(|| format!("{:?}: reports for all {} places in it", t, b.len()));
        }
    };
    fams.push(fam("texts", format!("all texts up to {} characters over {:?}, all ranges in them; missing token and expected end", w.max, w.sym), (n + per - 1) / per, move |u, cx| all(u, &w, &[0, 1], 99, cx)));
    let w = Words::new(&["a", " ", "\n", "é", "\t"], 4);
    let n = w.count();
    fams.push(fam("kinds", format!("all {} kinds of error on all texts up to {} characters over {:?} and all ranges", errors().len(), w.max, w.sym), (n + per - 1) / per, move |u, cx| { let k: Vec<usize> = (0..errors().len()).collect(); all(u, &w, &k, 99, cx) }));
    let w = Words::new(&["\n", "a\n", " \n", "\u{3000}\n", "a", "é b\n", "\t\r\n"], if thorough { 7 } else { 5 });
    let n = w.count();
    fams.push(fam("lines", format!("all texts of up to {} lines over {:?}; missing token at every place", w.max, w.sym), (n + per - 1) / per, move |u, cx| all(u, &w, &[0], 2, cx)));
    // Long lines: caret windows.
    let fills: Vec<&'static str> = vec!["a", "é", "𝄞", "\t", "a\t", "aé𝄞", "€ "];
    let lens: Vec<usize> = if thorough { (0..320).collect() } else { (0..150).chain([174, 175, 176, 177, 199, 200, 201, 226, 250, 251, 300]).collect() };
    let nf = fills.len() as u64;
    fams.push(fam("long lines", format!("lines of {} lengths up to {} characters of {} fillings, alone and between other lines, every place in them", lens.len(), lens.iter().max().unwrap(), nf), lens.len() as u64 * nf, move |u, cx| {
        let f: Vec<char> = fills[(u % nf) as usize].chars().collect();
        let len = lens[(u / nf) as usize];
        let line: String = (0..len).map(|i| f[i % f.len()]).collect();
        for t in [line.clone(), format!("{}\n{}", line, line), format!("x\n\n{}\ny", line)] {
            cx.inc("states");
            let b = bounds(&t);
            for (i, a) in b.iter().enumerate() {
                let mut ends = vec![*a, t.len()];
                if i + 1 < b.len() { ends.push(b[i + 1]); }
                for e in ends { if !check(&t, Range::new(*a, e - *a), &[0], cx) { return; } }
            }
        }
    }));
    fams.push(fam("many lines", "texts of 1 to 1100 lines, every kind of neighbour blank or not, place at the start of every tenth line and at the end", 1100, |u, cx| {
        for l in ["a\n", "\n", " \t\n"] {
            let t = format!("é\n{}", l.repeat(u as usize));
            cx.inc("states");
            let step = (u as usize / 8).max(1);
            for k in (0..=u as usize).step_by(step).chain([u as usize]) { if !check(&t, Range::empty(3 + k * l.len()), &[0, 1], cx) { return; } }
        }
    }));
    let chars = crate::p_sizes::char_list(thorough);
    let n = (chars.len() as u64 + 31) / 32;
    fams.push(fam("characters", format!("{}, before, at and after the place, on the line before it and alone, and as a missing token", crate::p_sizes::char_bound(thorough)), n, move |u, cx| {
        for c in &chars[(u * 32) as usize..((u + 1) * 32).min(chars.len() as u64) as usize] {
            for t in [format!("{}", c), format!("a{}b", c), format!("{}{}\n{}a{}", c, c, c, c), format!("a\n{}\nb", c), format!("{}\n{}a\n", c, c)] {
                cx.inc("states");
                let b = bounds(&t);
                for (i, a) in b.iter().enumerate() { for e in b[i..].iter().take(2) { if !check(&t, Range::new(*a, *e - *a), &[0, 1], cx) { return; } } }
            }
            let set = Set::one(seq(vec![tag("x"), tag(&c.to_string())]));
            if !convenience(&set, &[format!("x{}", c), format!("x\n{}", c), "x".to_string(), format!("{}", c)], &[DEFAULT], cx) { return; }
        }
    }));
    // Growing texts with the place at every kind of distance.
    let sizes = crate::p_sizes::sizes(thorough);
    let fills: Vec<(&'static str, &'static str)> = vec![("a", "b"), ("é", "é"), ("𝄞", "€"), ("\t", "\t"), (" ", "a"), ("a\n", "b\n"), ("é\n\n", " \n"), ("\t€ \n", ""), ("", "𝄞\n"), ("\r\n", "\r\n")];
    let nf = fills.len() as u64;
    fams.push(fam("sizes", format!("{} texts of a part of {} lengths up to {} before the place and one after it, on one line and on many, with ranges of length 0, 1 and to the end", nf, sizes.len(), sizes.last().unwrap()), sizes.len() as u64 * nf, move |u, cx| {
        let n = sizes[sizes.len() - 1 - (u / nf) as usize];
        let (a, b) = fills[(u % nf) as usize];
        for (x, y) in [(n, 0), (n, 1), (n, n), (1, n), (n, 3), (0, n), (80, n)] {
            for mid in ["", ";", "€;\n"] {
                let t = format!("{}{}{}", a.repeat(x), mid, b.repeat(y));
                let at = a.len() * x;
                cx.inc("states");
                let one = t[at..].chars().next().map_or(0, |c| c.len_utf8());
                for len in [0, one, t.len() - at] { if !check(&t, Range::new(at, len), &[0, 1], cx) { return; } }
            }
        }
    }));
    // Convenience functions.
    let texts = Words::new(&["a", "b", "\n", "é", " "], if thorough { 4 } else { 3 }).all();
    let sp = Space { leaves: core_leaves().into_iter().chain([num("f"), G::Text { empty: false, p: None }, w1()]).collect(), un: vec![opt, not, o_rep1, o_linesi], bi: vec![o_seq, o_sel, o_sep00] };
    let c = sp.counts(3);
    let n: u64 = c.iter().sum();
    fams.push(fam("parse as text", format!("all rule trees up to 3 nodes over {} leaves on all texts up to {} characters, two settings: parse_errstr and parse_errstr_with_indent against the plain functions", sp.leaves.len(), if thorough { 4 } else { 3 }), (n + 15) / 16, move |u, cx| {
        for i in u * 16..((u + 1) * 16).min(n) {
            let (mut k, mut j) = (1, i);
            while j >= c[k] { j -= c[k]; k += 1 }
            let set = lift(sp.tree(k, j, &c));
            if !convenience(&set, &texts, &[DEFAULT, Settings { indent: 2, align: false, tab: 1 }], cx) { return; }
        }
    }));
    let bases = ["1 d = \"é\"\n", "_a: \"x\"\n1 n = _a\n2 d = [n:\"n\" \"x\":\"p\"]\n", "1 d = .l(.t?)\n\n\n"];
    let syms = ["", " ", "\n", "x", "\"", "é", "]", "1", "_u"];
    let edits: Vec<String> = bases.iter().flat_map(|b| {
        let p = bounds(b);
        let mut v = vec![b.to_string()];
        for (i, a) in p.iter().enumerate() { for e in p[i..].iter().take(3) { for s in syms { v.push(format!("{}{}{}", &b[..*a], s, &b[*e..])); } } }
        v
    }).collect();
    let n = edits.len() as u64;
    fams.push(fam("compile as text", format!("{} texts: {} rule texts with every piece of up to two characters replaced by one of {:?}; syntax_errstr against syntax", n, bases.len(), syms), (n + 15) / 16, move |u, cx| {
        for i in u * 16..((u + 1) * 16).min(n) { if !compile_both(&edits[i as usize], cx) { return; } }
    }));
    let hist: Vec<&'static str> = vec!["a\n\tb é\n\nc", "", "a\n", "é;\r\n \n b\n", "x y z"];
    let nh = hist.len() as u64;
    let depth = if thorough { 3 } else { 2 };
    fams.push(fam("one handler", format!("{} texts {:?}: every sequence of {} reports (missing token, expected end, message, or one whose sink fails after 9 bytes; ranges of 0 and 2 characters at every place) written by one handler, then two more; each report the same as a new handler's", nh, hist, depth), nh * 64, move |u, cx| {
        let text = hist[(u % nh) as usize];
        let b = bounds(text);
        let mut steps: Vec<(Range, u8)> = vec![];
        for i in 0..b.len() { for j in [i, i + 2] { if j < b.len() { for k in 0..4 { steps.push((Range::new(b[i], b[j] - b[i]), k)); } } } }
        let one = |h: &mut ParseErrorHandler, (r, k): (Range, u8)| -> String {
            let mut v: Vec<u8> = vec![];
            let res = match k {
                0 => h.write(&mut v, r.wrap(ParseError::ExpectedTag(Arc::new(";".into()), 3))),
                1 => h.write(&mut v, r.wrap(ParseError::ExpectedEnd)),
                2 => h.write_msg(&mut v, r, "é message"),
                _ => { let mut room = [0u8; 9]; let mut w: &mut [u8] = &mut room; h.write(&mut w, r.wrap(ParseError::ExpectedText(5))) }
            };
            format!("{:?} {:?}", res.map_err(|e| e.kind()), String::from_utf8_lossy(&v))
        };
        let want: Vec<String> = steps.iter().map(|s| guard(BUDGET, || one(&mut ParseErrorHandler::new(text), *s)).unwrap_or_else(|e| e)).collect();
        let n = steps.len() as u64;
        for q in (u / nh..n.pow(depth)).step_by(64) {
            let mut i = q;
            cx.inc("states");
            let seq: Vec<usize> = (0..depth).map(|_| { let x = (i % n) as usize; i /= n; x }).chain([(q % n) as usize, ((q * 7 + 3) % n) as usize]).collect();
            cx.note(|| format!("one handler of {:?}: {:?}", text, seq.iter().map(|k| steps[*k]).collect::<Vec<_>>()));
            cx.add("executions", seq.len() as u64); cx.add("transitions", seq.len() as u64);
            let r = guard(BUDGET, || { let mut h = ParseErrorHandler::new(text); seq.iter().map(|k| one(&mut h, steps[*k])).collect::<Vec<_>>() });
            let bad = match &r { Err(e) => Some(e.clone()), Ok(v) => v.iter().zip(&seq).position(|(a, k)| *a != want[*k]).map(|i| format!("report {} is {}, a new handler's is {}", i + 1, v[i], want[seq[i]])) };
            if let Some(e) = bad { cx.violation(format!("one handler of {:?}: {:?}", text, seq.iter().map(|k| steps[*k]).collect::<Vec<_>>()), e); if cx.failed() { return; } }
        }
    }));
    fams.push(fam("standard error", "ParseErrorHandler::error and stderr_unwrap in a process of their own write the report to standard error; stderr_unwrap then panics, and returns the value otherwise", 60, |u, cx| {
        let (t, r, k) = stderr_case(u);
        cx.inc("states"); cx.inc("executions"); cx.inc("transitions");
        for which in ["stderr", "unwrap"] {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["helper", which, &u.to_string()]).output().unwrap();
            let e = String::from_utf8_lossy(&o.stderr).into_owned();
            let want = report(&t, r, k).map(|x| x.0);
            let ok = o.status.code() == Some(if which == "stderr" { 0 } else { 1 })
                && want.as_ref().map_or(false, |h| judge(&t, r, h, matches!(k, 0 | 2), &e).is_ok());
            if !ok {
                cx.violation(format!("{} {:?} {:?} {}", which, t, r, k), format!("status {:?}, standard error:\n{}", o.status, e));
                if cx.failed() { return; }
            }
        }
    }));
    Prop { id: "C15", level: "model_checking", rule: "a state is a text (with rules, for the convenience functions), a transition one report of one error at one range of it; reports are read and judged by what they must say, not compared with expected bytes: windows of long lines and lines after the first may vary", assumptions: vec![], families: fams }
}
