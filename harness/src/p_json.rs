//! C14, C20, C21, C22: JSON output, numbers, strings, failing sinks.

use crate::engine::*;
use crate::gram::*;
use crate::interp::DEFAULT;
use crate::lex;
use crate::p_parse::*;
use piston_meta::{json, parse, MetaData, ParseError, ParseErrorHandler, Range, Syntax};
use std::io::{self, Write};
use std::sync::Arc;

fn name(s: &str) -> Arc<String> { Arc::new(s.to_string()) }
fn at(d: MetaData) -> Range<MetaData> { Range::empty(0).wrap(d) }

pub fn to_json(d: &[Range<MetaData>]) -> Result<Vec<u8>, String> {
    guard(BUDGET, || { let mut v: Vec<u8> = vec![]; json::write(&mut v, d).map(|_| v).map_err(|e| e.to_string()) }).and_then(|r| r)
}

// ---------------------------------------------------------------- an independent reader of JSON

#[derive(Debug, Clone, PartialEq)]
pub enum J { Obj(Vec<(String, J)>), Str(String), Num(f64), Bool(bool) }

struct R<'a> { s: &'a [u8], i: usize, t: &'a str }

impl<'a> R<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1 } }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.s.get(self.i) == Some(&c) { self.i += 1; Ok(()) } else { Err(format!("expected {:?} at byte {}", c as char, self.i)) }
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut o = String::new();
        loop {
            let c = self.t[self.i..].chars().next().ok_or("unterminated string")?;
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = *self.s.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        b'"' => o.push('"'), b'\\' => o.push('\\'), b'/' => o.push('/'), b'b' => o.push('\u{8}'), b'f' => o.push('\u{c}'),
                        b'n' => o.push('\n'), b'r' => o.push('\r'), b't' => o.push('\t'),
                        b'u' => {
                            let mut a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.eat(b'\\')?; self.eat(b'u')?;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) { return Err("lone surrogate".into()); }
                                a = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00);
                            }
                            o.push(char::from_u32(a).ok_or("lone surrogate")?);
                        }
                        _ => return Err(format!("wrong escape at byte {}", self.i - 1)),
                    }
                }
                c if c < ' ' => return Err(format!("raw control character at byte {}", self.i - 1)),
                c => o.push(c),
            }
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let h = self.t.get(self.i..self.i + 4).filter(|h| h.bytes().all(|b| b.is_ascii_hexdigit())).ok_or("wrong hex escape")?;
        self.i += 4;
        Ok(u32::from_str_radix(h, 16).unwrap())
    }
    fn digits(&mut self) -> Result<(), String> {
        let a = self.i;
        while self.s.get(self.i).map_or(false, |c| c.is_ascii_digit()) { self.i += 1 }
        if a == self.i { Err(format!("digit expected at byte {}", a)) } else { Ok(()) }
    }
    fn number(&mut self) -> Result<f64, String> {
        let a = self.i;
        let _ = self.eat(b'-');
        if self.eat(b'0').is_err() { self.digits()? }
        if self.eat(b'.').is_ok() { self.digits()? }
        if self.eat(b'e').is_ok() || self.eat(b'E').is_ok() { let _ = self.eat(b'+').or_else(|_| self.eat(b'-')); self.digits()? }
        self.t[a..self.i].parse().map_err(|_| "number".to_string())
    }
    fn value(&mut self) -> Result<J, String> {
        match self.s.get(self.i) {
            Some(b'{') => {
                self.i += 1;
                let mut m = vec![];
                self.ws();
                if self.eat(b'}').is_ok() { return Ok(J::Obj(m)); }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws(); self.eat(b':')?; self.ws();
                    m.push((k, self.value()?));
                    self.ws();
                    if self.eat(b'}').is_ok() { return Ok(J::Obj(m)); }
                    self.eat(b',')?;
                }
            }
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b't') if self.t[self.i..].starts_with("true") => { self.i += 4; Ok(J::Bool(true)) }
            Some(b'f') if self.t[self.i..].starts_with("false") => { self.i += 5; Ok(J::Bool(false)) }
            Some(b'-') | Some(b'0'..=b'9') => Ok(J::Num(self.number()?)),
            x => Err(format!("unexpected {:?} at byte {}", x.map(|c| *c as char), self.i)),
        }
    }
}

pub fn read_json(t: &str) -> Result<J, String> {
    let mut r = R { s: t.as_bytes(), i: 0, t };
    r.ws();
    let v = r.value()?;
    r.ws();
    if r.i < t.len() { return Err(format!("more after the document at byte {}", r.i)); }
    Ok(v)
}

/// Compares members with meta data, in order; returns entries used.
fn members(m: &[(String, J)], d: &[Range<MetaData>], mut i: usize) -> Result<usize, String> {
    for (k, v) in m {
        let ok = match (d.get(i).map(|x| &x.data), v) {
            (Some(MetaData::StartNode(n)), J::Obj(c)) => {
                i = members(c, d, i + 1)?;
                n.as_str() == k && matches!(d.get(i).map(|x| &x.data), Some(MetaData::EndNode(_)))
            }
            (Some(MetaData::Bool(n, b)), J::Bool(x)) => n.as_str() == k && b == x,
            (Some(MetaData::F64(n, b)), J::Num(x)) => n.as_str() == k && b.to_bits() == x.to_bits(),
            (Some(MetaData::String(n, b)), J::Str(x)) => n.as_str() == k && b.as_str() == x,
            _ => false,
        };
        if !ok { return Err(format!("member {:?}: {:?} is not what entry {} of the meta data says", k, v, i)); }
        i += 1;
    }
    Ok(i)
}

/// The output for balanced data must be valid JSON that says the same.
fn faithful(d: &[Range<MetaData>], out: &[u8]) -> Result<(), String> {
    let t = std::str::from_utf8(out).map_err(|_| "not UTF-8".to_string())?;
    match read_json(&format!("{{{}}}", t)) {
        Err(e) => Err(format!("not valid JSON: {}", e)),
        Ok(J::Obj(m)) => match members(&m, d, 0) { Err(e) => Err(e), Ok(n) if n < d.len() => Err(format!("entry {} of the meta data is missing", n)), Ok(_) => Ok(()) },
        Ok(_) => Err("not an object".into()),
    }
}

fn check_json(d: &[Range<MetaData>], balanced: bool, cx: &mut Cx) -> bool {
    cx.inc("executions"); cx.add("transitions", d.len() as u64);
    cx.note(|| show(d));
    let r = to_json(d);
    let bad = match &r {
        Err(e) => Some(e.clone()),
        Ok(o) if balanced => { cx.inc("read back"); faithful(d, o).err().map(|e| format!("{}\noutput:\n{}", e, String::from_utf8_lossy(o))) }
        Ok(_) => { cx.inc("not nested, written without panic"); None }
    };
    if let Some(b) = bad { cx.violation(show(d), format!("meta data: {}\n{}", show(d), b)); return !cx.failed(); }
    true
}

pub fn show(d: &[Range<MetaData>]) -> String {
    d.iter().map(|x| match &x.data {
        MetaData::StartNode(n) => format!("start {:?}", n), MetaData::EndNode(n) => format!("end {:?}", n),
        MetaData::Bool(n, v) => format!("{:?}={}", n, v), MetaData::F64(n, v) => format!("{:?}={:?}", n, v),
        MetaData::String(n, v) => format!("{:?}={:?}", n, v),
    }).collect::<Vec<_>>().join(", ")
}

/// None if the entries do not nest.
fn nests(d: &[Range<MetaData>]) -> bool {
    let mut st: Vec<&str> = vec![];
    for x in d {
        match &x.data {
            MetaData::StartNode(n) => st.push(n),
            MetaData::EndNode(n) => if st.pop() != Some(n.as_str()) { return false; },
            _ => {}
        }
    }
    st.is_empty()
}

pub fn entries(k: usize) -> Vec<Range<MetaData>> {
    let (a, b) = (name("a"), name("\"\\\n"));
    let mut v = vec![
        MetaData::StartNode(a.clone()), MetaData::EndNode(a.clone()), MetaData::Bool(a.clone(), true), MetaData::F64(a.clone(), 1.5),
        MetaData::String(a.clone(), name("x,}{\"")), MetaData::StartNode(b.clone()), MetaData::EndNode(b.clone()),
        MetaData::Bool(b.clone(), false), MetaData::F64(b.clone(), -0.0), MetaData::String(b.clone(), name("")), MetaData::String(name(""), name("\u{1}é\u{7f}")),
        MetaData::F64(name("a"), 1e300),
    ];
    v.truncate(k);
    v.into_iter().map(at).collect()
}

/// Words over the entries.
fn seqs(e: &[Range<MetaData>], i: u64, len: usize) -> Vec<Range<MetaData>> {
    let k = e.len() as u64;
    let mut j = i;
    (0..len).map(|_| { let x = e[(j % k) as usize].clone(); j /= k; x }).collect()
}

fn specials() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|b| b as char).collect();
    v.extend(['\u{80}', '\u{85}', '\u{a0}', 'é', '\u{ff}', '\u{7ff}', '\u{800}', '€', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '𝄞', '\u{10ffff}']);
    v
}

fn doubles(mant: usize) -> impl Fn(u64) -> Vec<f64> + Send + Sync {
    move |exp| {
        let full = (1u64 << 52) - 1;
        let mut m = vec![0u64, 1, 2, 3, full, full - 1, full / 3, full / 3 * 2, 1 << 51, (1 << 51) - 1, (1 << 51) + 1, 0x0123456789abc, 0xfedcba9876543, 10, 1000, 0x5555, 0xaaaa];
        for b in 0..52 { m.push(1 << b); m.push(full ^ (1 << b)); m.push((1u64 << b) - 1) }
        m.truncate(mant);
        let mut v = vec![];
        for x in m { for s in [0u64, 1] { v.push(f64::from_bits(s << 63 | exp << 52 | (x & full))); } }
        v
    }
}

pub fn c14(thorough: bool) -> Prop {
    let mut fams = vec![];
    let (k, len) = if thorough { (12, 6) } else { (12, 5) };
    for n in 0..=len {
        let e = entries(k);
        let total = (k as u64).pow(n as u32);
        let per = 4096;
        fams.push(fam(format!("entries{}", n), format!("all sequences of {} entries out of {} (nodes, values, awkward names): those that nest are read back, all others must be written without panic", n, k), (total + per - 1) / per, move |u, cx| {
            for i in u * per..((u + 1) * per).min(total) {
                let d = seqs(&e, i, n);
                cx.inc("states");
                if !check_json(&d, nests(&d), cx) { return; }
                cx.sample(|| format!("{} => {:?}", show(&d), to_json(&d).map(|o| String::from_utf8_lossy(&o).into_owned())));
            }
        }));
    }
    // Deeper nesting over a smaller alphabet.
    let (k2, n2) = (3usize, if thorough { 15 } else { 12 });
    for n in [n2 - 1, n2] {
        let e = entries(k2);
        let total = (k2 as u64).pow(n as u32);
        let per = 1 << 14;
        fams.push(fam(format!("deep{}", n), format!("all sequences of {} entries out of start, end and one value", n), (total + per - 1) / per, move |u, cx| {
            for i in u * per..((u + 1) * per).min(total) {
                let d = seqs(&e, i, n);
                cx.inc("states");
                if !check_json(&d, nests(&d), cx) { return; }
            }
        }));
    }
    fams.push(fam("ladder", "nested nodes and stray ends to every depth from 0 to 300, then every hundred to 3000", 328, move |u, cx| {
        let depth = if u <= 300 { u } else { (u - 300) * 100 + 300 } as usize;
        let n = name("n");
        let start = at(MetaData::StartNode(n.clone()));
        let end = at(MetaData::EndNode(n.clone()));
        let leaf = at(MetaData::F64(n.clone(), 2.0));
        let mut d: Vec<Range<MetaData>> = vec![];
        for _ in 0..depth { d.push(start.clone()); }
        if !check_json(&d, depth == 0, cx) { return; }
        d.push(leaf.clone());
        for _ in 0..depth { d.push(end.clone()); d.push(leaf.clone()); }
        if !check_json(&d, true, cx) { return; }
        let d: Vec<_> = (0..depth).map(|_| end.clone()).collect();
        cx.inc("states");
        cx.inc("states");
        if !check_json(&d, depth == 0, cx) { return; }
        // Two values, an empty node and a node of one value in front of and after what is deeper.
        let around = |d: &mut Vec<Range<MetaData>>| for x in [&leaf, &leaf, &start, &end, &start, &leaf, &end] { d.push(x.clone()); };
        let mut d: Vec<Range<MetaData>> = vec![];
        for _ in 0..depth { around(&mut d); d.push(start.clone()); }
        around(&mut d);
        for _ in 0..depth { d.push(end.clone()); around(&mut d); }
        if !check_json(&d, true, cx) { return; }
        let mut d: Vec<Range<MetaData>> = vec![];
        for _ in 0..depth { d.push(start.clone()); }
        around(&mut d);
        for _ in 0..depth { d.push(end.clone()); }
        check_json(&d, true, cx);
    }));
    // Strings.
    let sp = specials();
    let n = sp.len() as u64;
    fams.push(fam("strings", format!("all strings of up to three characters out of {} (all of ASCII, ends of the encoding ranges) as name and as value{}", n, if thorough { ", in each position" } else { "" }), n, move |u, cx| {
        let a = sp[u as usize];
        let mut run = |s: &str, cx: &mut Cx| -> bool {
            cx.inc("states");
            let d = [at(MetaData::String(name(s), name(s)))];
            if !check_json(&d, true, cx) { return false; }
            if cx.thorough { let d = [at(MetaData::StartNode(name(s))), at(MetaData::Bool(name(s), true)), at(MetaData::F64(name(s), 1.0)), at(MetaData::EndNode(name(s)))]; if !check_json(&d, true, cx) { return false; } }
            true
        };
        let mut s = String::from(a);
        if !run(&s, cx) { return; }
        for b in &sp {
            s.push(*b);
            if !run(&s, cx) { return; }
            for c in &sp { s.push(*c); if !run(&s, cx) { return; } s.pop(); }
            s.pop();
        }
    }));
    fams.push(fam("characters", "every Unicode character as value, alone and between a letter and a quote, as name of every kind of entry", 0x110000 / 0x1000, move |u, cx| {
        for c in u as u32 * 0x1000..(u as u32 + 1) * 0x1000 {
            if let Some(c) = char::from_u32(c) {
                cx.inc("states");
                let (s, q) = (name(&c.to_string()), name(&format!("a{}\"", c)));
                let d = [at(MetaData::StartNode(s.clone())), at(MetaData::String(q.clone(), s.clone())), at(MetaData::String(s.clone(), q)),
                    at(MetaData::Bool(s.clone(), c < 'x')), at(MetaData::F64(s.clone(), c as u32 as f64)), at(MetaData::EndNode(s))];
                if !check_json(&d, true, cx) { return; }
            }
        }
    }));
    let f = doubles(if thorough { 1000 } else { 40 });
    fams.push(fam("numbers", "finite doubles: every exponent with a list of fractions (ends, middles, single bits set and cleared), both signs", 2047, move |u, cx| {
        for v in f(u) {
            cx.inc("states");
            if !check_json(&[at(MetaData::F64(name("x"), v)), at(MetaData::F64(name("y"), v))], true, cx) { return; }
        }
    }));
    let m = if thorough { 99999 } else { 9999 };
    fams.push(fam("decimals", format!("all decimals with mantissa -{} to {} and exponent -25 to 25, and non-finite numbers without panic", m, m), m / 9, move |u, cx| {
        for k in u * 9..(u + 1) * 9 + 9 {
            for e in -25..=25 {
                for s in ["", "-"] {
                    let v: f64 = format!("{}{}e{}", s, k, e).parse().unwrap();
                    cx.inc("states");
                    if !check_json(&[at(MetaData::F64(name("x"), v))], true, cx) { return; }
                }
            }
        }
        for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { if !check_json(&[at(MetaData::F64(name("x"), v))], false, cx) { return; } }
    }));
    // Growing lists and strings.
    let fills: Vec<&'static str> = vec!["a", "\"", "\\", "\n", "\u{1}", "é", "€", "𝄞", "a\"", "é\u{7f}", "\r\n", "}{", ",\\", "\u{1f}\u{10}"];
    let sizes = crate::p_sizes::sizes(thorough);
    let (nf, ns) = (fills.len() as u64, sizes.len() as u64);
    fams.push(fam("long strings", format!("strings of {} lengths up to {} characters of {} fillings, as name and value of every kind of entry, alone and with one other character in front, at the end and in the middle", ns, sizes.last().unwrap(), nf), nf * ns, move |u, cx| {
        let f: Vec<char> = fills[(u % nf) as usize].chars().collect();
        let n = sizes[(ns - 1 - u / nf) as usize];
        let s: Vec<char> = (0..n).map(|i| f[i % f.len()]).collect();
        for (k, c) in [(n, None), (0, Some('"')), (n / 2, Some('\n')), (n, Some('\\')), (n, Some('é')), (n / 2, Some('𝄞')), (0, Some('\u{0}'))] {
            let mut s = s.clone();
            if let Some(c) = c { s.insert(k, c); }
            let s = name(&s.into_iter().collect::<String>());
            cx.inc("states");
            let d = [at(MetaData::StartNode(s.clone())), at(MetaData::String(s.clone(), s.clone())), at(MetaData::Bool(s.clone(), true)), at(MetaData::F64(s.clone(), 0.1)), at(MetaData::EndNode(s))];
            if !check_json(&d, true, cx) { return; }
        }
    }));
    let sizes = crate::p_sizes::sizes(thorough);
    fams.push(fam("long lists", format!("lists of {} lengths up to {}: values of every kind in turn, empty nodes, nodes of one value, one node holding all, two levels; also with the last end missing and one end too many", sizes.len(), sizes.last().unwrap()), sizes.len() as u64 * 5, move |u, cx| {
        let n = sizes[sizes.len() - 1 - (u / 5) as usize];
        let a = name("a");
        let value = |i: usize| at(match i % 4 { 0 => MetaData::Bool(a.clone(), i % 8 == 0), 1 => MetaData::F64(a.clone(), i as f64 / 4.0), 2 => MetaData::String(a.clone(), name(&i.to_string())), _ => MetaData::String(name("\""), a.clone()) });
        let (s, e) = (at(MetaData::StartNode(a.clone())), at(MetaData::EndNode(a.clone())));
        let mut d: Vec<Range<MetaData>> = vec![];
        match u % 5 {
            0 => for i in 0..n { d.push(value(i)); },
            1 => for _ in 0..n { d.push(s.clone()); d.push(e.clone()); },
            2 => for i in 0..n { d.push(s.clone()); d.push(value(i)); d.push(e.clone()); },
            3 => { d.push(s.clone()); for i in 0..n { d.push(value(i)); } d.push(e.clone()); }
            _ => for i in 0..n { if i % 10 == 0 { d.push(s.clone()); } d.push(value(i)); if i % 10 == 9 || i + 1 == n { d.push(e.clone()); } },
        }
        cx.inc("states");
        if !check_json(&d, true, cx) { return; }
        if n < 2000 {
            let mut x = d.clone(); x.push(e.clone()); if !check_json(&x, false, cx) { return; }
            if u % 5 > 0 { let mut x = d.clone(); x.pop(); if !check_json(&x, n == 0 && u % 5 != 3, cx) { return; } }
        }
    }));
    // What print writes to standard output.
    fams.push(fam("print", "json::print in a process of its own writes what json::write writes, on 40 lists up to 5000 entries", 40, move |u, cx| {
        let d = print_case(u);
        cx.inc("states"); cx.inc("executions"); cx.inc("transitions");
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["helper", "print", &u.to_string()]).output().unwrap();
        if !out.status.success() || Ok(&out.stdout) != to_json(&d).as_ref() {
            cx.violation(format!("print {}", show(&d)), format!("print wrote {:?} ({:?})", String::from_utf8_lossy(&out.stdout), out.status));
        }
    }));
    Prop { id: "C14", level: "model_checking", rule: "a state is a list of meta data, a transition writing one of its entries; every output is read back by a JSON reader of our own and compared member by member (numbers bit by bit)",
        assumptions: vec!["closest doubles of written numbers are taken from the standard library's parser"], families: fams }
}

pub fn print_case(i: u64) -> Vec<Range<MetaData>> {
    let e = entries(12);
    match i {
        0 => vec![],
        1 => vec![e[0].clone(), e[1].clone()],
        2 => vec![e[0].clone(), e[3].clone(), e[4].clone(), e[1].clone(), e[2].clone()],
        i if i < 10 => (0..i as usize).map(|k| e[[0, 5, 8, 10, 6, 9, 1, 2, 11, 7][k]].clone()).collect(),
        i if i < 22 => vec![e[i as usize - 10].clone()],
        i => (0..[1, 2, 7, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 1000, 2000, 5000][i as usize - 22]).map(|k| if k % 3 == 0 { e[3].clone() } else { at(MetaData::String(name("é\""), name(&"x\n".repeat(k % 90)))) }).collect(),
    }
}

// ---------------------------------------------------------------- C20 exact rounding

/// Natural numbers, little endian.
#[derive(Clone, PartialEq)]
struct Big(Vec<u32>);
impl Big {
    fn of(mut v: u64) -> Big { let mut b = vec![]; while v > 0 { b.push(v as u32); v >>= 32 } Big(b) }
    fn mul(&mut self, m: u32, add: u32) {
        let mut c = add as u64;
        for x in &mut self.0 { c += *x as u64 * m as u64; *x = c as u32; c >>= 32 }
        if c > 0 { self.0.push(c as u32) }
    }
    fn shl(&mut self, n: usize) {
        if self.0.is_empty() { return; }
        let (w, b) = (n / 32, n % 32);
        if b > 0 { self.mul(1u32 << b, 0) }
        let mut v = vec![0; w];
        v.append(&mut self.0);
        self.0 = v;
    }
    fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// Compares digits * 10^e with m * 2^p exactly.
fn compare(digits: &str, e: i64, m: u64, p: i64) -> std::cmp::Ordering {
    let (mut a, mut b) = (Big(vec![]), Big::of(m));
    for d in digits.bytes() { a.mul(10, (d - b'0') as u32) }
    if e >= 0 { for _ in 0..e { a.mul(10, 0) } } else { for _ in 0..-e { b.mul(10, 0) } }
    if p >= 0 { b.shl(p as usize) } else { a.shl(-p as usize) }
    a.cmp(&b)
}

/// Whether v is the closest double to the (unsigned, separator-free) literal; infinity stands for 2^1024.
fn closest(lit: &str, v: f64) -> bool {
    use std::cmp::Ordering::*;
    let body = lit.trim_start_matches(['+', '-']);
    let (m, e) = match body.find(['e', 'E']) { Some(i) => (&body[..i], body[i + 1..].parse::<i64>().unwrap_or(if body[i + 1..].starts_with('-') { -100000 } else { 100000 })), None => (body, 0) };
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{}{}", int, frac);
    let digits = digits.trim_start_matches('0');
    let neg = lit.starts_with('-');
    if digits.is_empty() { return v == 0.0 && v.is_sign_negative() == neg; }
    if v.is_sign_negative() != neg { return false; }
    let e = e - frac.len() as i64;
    let mag = digits.len() as i64 + e;
    if mag > 320 { return v.is_infinite(); }
    if mag < -340 { return v == 0.0; }
    let bits = v.abs().to_bits();
    let parts = |b: u64| -> (u64, i64) { let x = (b >> 52) as i64; let f = b & ((1 << 52) - 1); if x == 0 { (f, -1074) } else { (f | 1 << 52, x - 1075) } };
    // Midpoints: (2m+1) * 2^(p-1) above; below likewise from the next lower double.
    let up = if bits == 0x7ff0000000000000 { Less } else { let (m, p) = parts(bits); compare(digits, e, 2 * m + 1, p - 1) };
    let down = if bits == 0 { Greater } else { let (m, p) = parts(bits - 1); compare(digits, e, 2 * m + 1, p - 1) };
    up != Greater && down != Less
}

struct NumRules { plain: Syntax, under: Syntax, set: [Set; 2], bare: [Syntax; 2] }
fn num_rules() -> NumRules {
    let g = |us| Set::one(seq(vec![tag("<"), G::Num { us, p: Some("v") }, G::Until { any: "".into(), opt: true, p: Some("rest") }]));
    let (a, b) = (g(false), g(true));
    let bare = |us| Set::one(seq(vec![tag("<"), G::Num { us, p: None }, G::Until { any: "".into(), opt: true, p: Some("rest") }])).syntax();
    NumRules { plain: a.syntax(), under: b.syntax(), set: [a, b], bare: [bare(false), bare(true)] }
}

/// Reads `<` + t with a number rule followed by anything.
fn check_number(r: &NumRules, us: bool, t: &str, cx: &mut Cx) -> bool {
    let text = format!("<{}", t);
    cx.inc("executions"); cx.add("transitions", t.len() as u64);
    let set = &r.set[us as usize];
    cx.note(|| sig(set, &text, DEFAULT));
    let got = run_impl(if us { &r.under } else { &r.plain }, &text, DEFAULT);
    let scan = lex::scan_number(t, us);
    let literal = scan.and_then(|n| lex::number_value(&t[..n], us).map(|v| (n, v)));
    let want = match (scan, literal) {
        (None, _) => "no number here, an error at byte 1".to_string(),
        (Some(n), None) => format!("an error about {:?}", &t[..n]),
        (Some(_), Some((n, v))) => format!("{:?} read as {:?}, then {:?}", &t[..n], v, &t[n..]),
    };
    let ok = match (&got, scan, literal) {
        (Ok((Err(e), _)), None, _) => { cx.inc("no number"); e.offset == 1 && e.length == 0 && matches!(e.data, ParseError::ExpectedNumber(1002)) }
        (Ok((Err(e), _)), Some(n), None) => { cx.inc("refused pieces"); e.offset == 1 && e.length == n && matches!(e.data, ParseError::ParseNumberError(_, 1002)) }
        (Ok((Ok(()), d)), Some(_), Some((n, _))) => {
            cx.inc("numbers");
            let lit: String = t[..n].chars().filter(|c| *c != '_').collect();
            d.len() == 3 && match (&d[1].data, &d[2].data) {
                (MetaData::F64(k, v), MetaData::String(_, s)) => k.as_str() == "v" && d[1].offset == 1 && d[1].length == n && v.is_finite()
                    && closest(&lit, *v) && s.as_str() == &t[n..],
                _ => false,
            }
        }
        _ => false,
    };
    cx.sample(|| format!("{} => {}", sig(set, &text, DEFAULT), want));
    if !ok {
        cx.violation(sig(set, &text, DEFAULT), format!("{}expected: {}\nlibrary: {:?}", describe(set, &text, DEFAULT), want, got));
        return !cx.failed();
    }
    // The same without a name: nothing is stored, all else is the same.
    let bare = run_impl(&r.bare[us as usize], &text, DEFAULT);
    let ok = match (&got, &bare) {
        (Ok((Ok(()), d)), Ok((Ok(()), e))) => d.len() == 3 && e.len() == 2 && eq_range(&e[0], &d[0]) && eq_range(&e[1], &d[2]),
        (Ok((Err(a), _)), Ok((Err(b), _))) => a == b,
        _ => false,
    };
    if !ok {
        cx.violation(format!("without a name: {}", sig(set, &text, DEFAULT)), format!("{}with a name: {:?}\nwithout: {:?}", describe(set, &text, DEFAULT), got, bare));
        return !cx.failed();
    }
    true
}

/// Exact decimal expansion of m * 2^p, as (digits, exponent of ten).
fn expansion(m: u64, p: i64) -> (String, i64) {
    let mut d: Vec<u8> = m.to_string().bytes().map(|b| b - b'0').collect();
    let mut e = 0;
    let times = |d: &mut Vec<u8>, k: u32| { let mut c = 0u32; for x in d.iter_mut().rev() { c += *x as u32 * k; *x = (c % 10) as u8; c /= 10; } while c > 0 { d.insert(0, (c % 10) as u8); c /= 10; } };
    if p >= 0 { for _ in 0..p { times(&mut d, 2) } } else { for _ in 0..-p { times(&mut d, 5); } e = p; }
    (d.into_iter().map(|x| (x + b'0') as char).collect(), e)
}

pub fn c20(thorough: bool) -> Prop {
    let mut fams = vec![];
    let sym = ["0", "1", "9", ".", "e", "E", "+", "-", "_", " ", "x"];
    let words = Words::new(&sym, if thorough { 7 } else { 6 });
    let n = words.count();
    let per = 4096;
    fams.push(fam("pieces", format!("all texts up to {} characters over {:?}, with and without underscores allowed", words.max, sym), (n + per - 1) / per, move |u, cx| {
        let r = num_rules();
        for i in u * per..((u + 1) * per).min(n) {
            let t = words.word(i);
            cx.inc("states");
            for us in [false, true] { if !check_number(&r, us, &t, cx) { return; } }
        }
    }));
    let sym = ["1", "7", ".", "e", "-", "_", "é"];
    let words = Words::new(&sym, if thorough { 9 } else { 8 });
    let n = words.count();
    fams.push(fam("longer pieces", format!("all texts up to {} characters over {:?}", words.max, sym), (n + per - 1) / per, move |u, cx| {
        let r = num_rules();
        for i in u * per..((u + 1) * per).min(n) {
            let t = words.word(i);
            cx.inc("states");
            for us in [false, true] { if !check_number(&r, us, &t, cx) { return; } }
        }
    }));
    // Doubles and the middles between neighbours, exactly, and one unit in the last digit to either side.
    let mant = if thorough { 60 } else { 12 };
    let f = doubles(mant);
    fams.push(fam("rounding", format!("for every exponent and {} fractions: the shortest and the exact decimal form of the double, the exact middle between it and the next (up to 770 digits), and the middle with its last digit one lower and one higher", mant), 2047, move |u, cx| {
        let r = num_rules();
        for v in f(u) {
            if v < 0.0 { continue; }
            cx.inc("states");
            let bits = v.to_bits();
            let (x, fr) = ((bits >> 52) as i64, bits & ((1 << 52) - 1));
            let (m, p) = if x == 0 { (fr, -1074) } else { (fr | 1 << 52, x - 1075) };
            let mut forms = vec![format!("{}", v), format!("{:e}", v), format!("-{:E}", v)];
            if thorough || fr < 3 || fr + 3 >= 1 << 52 {
                let (d, e) = expansion(m, p);
                forms.push(format!("{}e{}", d, e));
                let (d, e) = expansion(2 * m + 1, p - 1);
                let mut lo = d.clone().into_bytes();
                let last = lo.len() - 1;
                lo[last] -= 1;
                let lo = String::from_utf8(lo).unwrap();
                forms.push(format!("{}e{}", d, e));
                forms.push(format!("{}9e{}", lo, e - 1));
                forms.push(format!("+{}1e{}", d, e - 1));
                forms.push(format!("{}.{}e{}", &d[..1], &d[1..], e + d.len() as i64 - 1));
            }
            for t in forms { if !check_number(&r, x % 2 == 0, &t, cx) { return; } }
        }
    }));
    // Few digits with every exponent, as shortcuts for short literals would read them.
    let (few, many) = if thorough { (3000u64, 40_000u64) } else { (160, 3000) };
    let far: Vec<u64> = (1..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).chain((1..20).flat_map(|k| [10u64.pow(k) - 1, 10u64.pow(k), 10u64.pow(k) + 1])).chain([u64::MAX, 123456789, 12345678901234567, 8675309]).collect();
    let n = far.len() as u64;
    fams.push(fam("short literals", format!("1 to {} and {} numbers around powers of two and ten with each exponent from -345 to 310, up to {} with each exponent from -40 to 40; with the point behind, in front of and behind the first digit", few, n, many), many + n, move |u, cx| {
        let r = num_rules();
        let (v, all) = if u < many { (u + 1, u < few) } else { (far[(u - many) as usize], true) };
        let d = v.to_string();
        for e in if all { -345i32..311 } else { -40..41 } {
            cx.inc("states");
            let mut forms = vec![format!("{}e{}", d, e), format!("-0.{}E{}", d, e + d.len() as i32)];
            if d.len() > 1 { forms.push(format!("{}.{}e{:+}", &d[..1], &d[1..], e + d.len() as i32 - 1)); }
            if e < 0 && -e < 40 { let z = (-e as usize + 1).saturating_sub(d.len()); let t = "0".repeat(z) + &d; forms.push(format!("{}.{}", &t[..t.len() - -e as usize], &t[t.len() - -e as usize..])); }
            if e >= 0 && e < 40 { forms.push(format!("{}{}", d, "0".repeat(e as usize))); forms.push(format!("-{}{}.0", d, "0".repeat(e as usize))); }
            for t in forms { if !check_number(&r, e % 2 == 0, &t, cx) { return; } }
        }
    }));
    fams.push(fam("long digit strings", "digit strings of every length from 1 to 1200 (one digit repeated, point at every tenth place, leading zeros, large exponents of 1 to 25 digits, underscores)", 1200, move |u, cx| {
        let r = num_rules();
        let n = u as usize + 1;
        for d in ["1", "9", "5", "0"] {
            let s = d.repeat(n);
            let mut forms = vec![s.clone(), format!("-{}", s), format!("0.{}", s), format!("{}.", s), format!(".{}1", s), format!("{}e-{}", s, n), format!("{}e{}", s, n), format!("1e{}", s), format!("1e-{}", s), format!("1e+{}1", s),
                format!("{}_{}", s, d), format!("{}_", s), format!("0.{}e{}", "0".repeat(n), n), format!("1{}e-{}", "0".repeat(n), n)];
            for k in (0..n).step_by(10.max(n / 12)) { forms.push(format!("{}.{}", &s[..k], &s[k..])); }
            for t in forms {
                cx.inc("states");
                for us in [false, true] { if !check_number(&r, us, &t, cx) { return; } }
            }
        }
    }));
    Prop { id: "C20", level: "model_checking", rule: "a state is a text, a transition a character read by the number rule; the piece is found by a scanner of our own, its value is compared exactly (integer arithmetic) with the midpoints around the double that was read", assumptions: vec![], families: fams }
}

// ---------------------------------------------------------------- C21

fn pf_text(name: &'static str, sets: Vec<Set>, texts: Vec<String>, bound: String) -> Vec<Family> {
    // One rule set per family entry; texts are cut into units.
    let mut out = vec![];
    for (k, set) in sets.into_iter().enumerate() {
        let texts = texts.clone();
        let n = texts.len() as u64;
        let per = 2048;
        let b = format!("{}; {} texts; rules {}", bound, n, set.text().trim_end());
        out.push(fam(format!("{}{}", name, k), b, (n + per - 1) / per, move |u, cx| {
            let m = crate::interp::Model::new(&set);
            let raw = set.syntax();
            for i in u * per..((u + 1) * per).min(n) {
                if !case(What::Full, &set, &m, &raw, None, &texts[i as usize], DEFAULT, cx) && cx.failed() { return; }
            }
        }));
    }
    out
}

/// Written as JSON and read back by a text rule.
fn round(s: &str, syn: &Syntax, cx: &mut Cx) -> bool {
    cx.inc("executions"); cx.inc("states"); cx.add("transitions", s.len() as u64);
    cx.note(|| format!("write and read {:?}", s));
    let r = guard(BUDGET, || {
        let mut w: Vec<u8> = vec![];
        json::write_string(&mut w, s).unwrap();
        let t = String::from_utf8(w).expect("UTF-8");
        let mut d = vec![];
        let r = parse(syn, &t, &mut d);
        (t, r, d)
    });
    let ok = match &r {
        Ok((t, Ok(()), d)) => d.len() == 1 && d[0].offset == 0 && d[0].length == t.len() && d[0].data == MetaData::String(name("v"), name(s)),
        _ => false,
    };
    if ok { cx.inc("strings written and read"); return true; }
    cx.violation(format!("write and read {:?}", s), format!("string {:?} is written and read as {:?}", s, r));
    !cx.failed()
}

/// Reads up to the first stop character; the rest by a rule that reads everything.
fn until(any: &str, ws: bool, o: bool, t: &str, syn: &Syntax, set: &Set, cx: &mut Cx) -> bool {
    let text = format!("é{}", t);
    cx.inc("executions"); cx.add("transitions", t.chars().count() as u64);
    cx.note(|| sig(set, &text, DEFAULT));
    let n = t.char_indices().find(|(_, c)| any.contains(*c) || ws && c.is_whitespace()).map_or(t.len(), |x| x.0);
    let got = run_impl(syn, &text, DEFAULT);
    let ok = match &got {
        Ok((Ok(()), d)) if n > 0 || o => d.len() == 3 && d[1].offset == 2 && d[1].length == n
            && d[1].data == MetaData::String(name("v"), name(&t[..n])) && d[2].data == MetaData::String(name("rest"), name(&t[n..])),
        Ok((Err(e), _)) if n == 0 && !o => e.offset == 2 && e.length == 0 && matches!(e.data, ParseError::ExpectedSomething(1002)),
        _ => false,
    };
    if ok { cx.inc(if n > 0 || o { "reads" } else { "empty reads refused" }); return true; }
    cx.violation(sig(set, &text, DEFAULT), format!("{}expected: {:?} before {:?}\nlibrary: {:?}", describe(set, &text, DEFAULT), &t[..n], &t[n..], got));
    !cx.failed()
}

fn until_rules(any: &str, ws: bool, o: bool) -> Set {
    let r = if ws { G::UntilWs { any: any.into(), opt: o, p: Some("v") } } else { G::Until { any: any.into(), opt: o, p: Some("v") } };
    Set::one(seq(vec![tag("é"), r, G::Until { any: "".into(), opt: true, p: Some("rest") }]))
}

pub fn c21(thorough: bool) -> Prop {
    let mut fams = vec![];
    let t = |e| G::Text { empty: e, p: Some("v") };
    let sets = vec![Set::one(t(true)), Set::one(t(false)), Set::one(seq(vec![tag("é"), t(true), w0(), t(false)])), Set::one(seq(vec![G::Text { empty: true, p: None }, t(true)]))];
    let w = Words::new(&["\"", "\\", "n", "u", "0", "é", "𝄞", "\n"], if thorough { 7 } else { 5 });
    fams.extend(pf_text("quoted", sets.clone(), w.all(), format!("all texts up to {} symbols over {:?}", w.max, w.sym)));
    let w = Words::new(&["\\\"", "\\\\", "\\n", "\\r", "\\t", "\\b", "\\f", "\\/", "\\u0041", "\\ud800", "\\u", "\\x", "\\é", "\"", "a", "€"], if thorough { 4 } else { 3 });
    fams.extend(pf_text("escapes", sets[..3].to_vec(), w.all().into_iter().flat_map(|x| [format!("\"{}\"", x), format!("é\"{}\"\"a\"", x)]).collect(), format!("all strings of up to {} symbols over {:?}", w.max, w.sym)));
    let w = Words::new(&["\\", "u", "0", "D", "8", "g", "\"", "é"], 6);
    let (n, per) = (w.count(), 4096);
    fams.push(fam("hexadecimal", format!("all strings of up to {} symbols over {:?} inside quotes", w.max, w.sym), (n + per - 1) / per, move |u, cx| {
        let set = Set::one(G::Text { empty: true, p: Some("v") });
        let m = crate::interp::Model::new(&set);
        let raw = set.syntax();
        for i in u * per..((u + 1) * per).min(n) {
            if !case(What::Full, &set, &m, &raw, None, &format!("\"\\u{}\"", w.word(i)), DEFAULT, cx) && cx.failed() { return; }
        }
    }));
    fams.push(fam("code units", "all 65536 four-digit escapes, in three spellings, alone and between characters", 256, move |u, cx| {
        let set = Set::one(G::Text { empty: false, p: Some("v") });
        let m = crate::interp::Model::new(&set);
        let raw = set.syntax();
        for c in u * 256..(u + 1) * 256 {
            for e in [format!("\\u{:04x}", c), format!("\\u{:04X}", c), format!("a\\u{:04x}é", c), format!("\\u{:04x}\\u{:04x}", c, 0xffff - c)] {
                let t = format!("\"{}\"", e);
                if !case(What::Full, &set, &m, &raw, None, &t, DEFAULT, cx) && cx.failed() { return; }
            }
        }
    }));
    fams.push(fam("characters", "every Unicode character: written and read alone, doubled, before and after a backslash, quote and letter; read raw by a text rule; as and around a stop character and as bare text", 0x110000 / 0x400, move |u, cx| {
        let syn = Set::one(G::Text { empty: true, p: Some("v") }).syntax();
        let ws_set = until_rules("", true, true);
        let ws = ws_set.syntax();
        for c in u as u32 * 0x400..(u as u32 + 1) * 0x400 {
            let c = match char::from_u32(c) { Some(c) => c, None => continue };
            for s in [format!("{}", c), format!("{}{}", c, c), format!("\\{}", c), format!("{}\\", c), format!("\"{}", c), format!("{}\"", c), format!("u{}n", c)] {
                if !round(&s, &syn, cx) { return; }
            }
            if c != '"' && c != '\\' {
                let t = format!("\"a{}b\"", c);
                cx.inc("executions");
                let mut d = vec![];
                let r = guard(budget(t.len()), || parse(&syn, &t, &mut d));
                if !matches!(r, Ok(Ok(()))) || d.len() != 1 || d[0].data != MetaData::String(name("v"), name(&format!("a{}b", c))) {
                    cx.violation(format!("{:?}", t), format!("text {:?} read as {:?} {:?}", t, r, d)); if cx.failed() { return; }
                }
            }
            for t in [format!("{}", c), format!("a{}b", c), format!("{}b", c)] { if !until("", true, true, &t, &ws, &ws_set, cx) { return; } }
            // Neighbours share all but the last byte of the encoding.
            let near: Vec<char> = [-1i32, 1, 64, -64].iter().filter_map(|d| char::from_u32((c as i32 + d) as u32)).collect();
            let set = until_rules(&c.to_string(), false, true);
            let s = set.syntax();
            let mut t: String = near.iter().collect();
            t.push(c); t.push('z'); t.push(c);
            if !until(&c.to_string(), false, true, &t, &s, &set, cx) { return; }
        }
    }));
    let w = Words::new(&["\"", "\\", "/", "n", "u", "\u{0}", "\u{8}", "\u{b}", "\u{1f}", "\u{7f}", "\n", "\r", "\t", "é", "𝄞", "\u{2028}"], if thorough { 6 } else { 4 });
    let n = w.count();
    fams.push(fam("written and read", format!("all strings of up to {} characters over {:?}", w.max, w.sym), (n + per - 1) / per, move |u, cx| {
        let syn = Set::one(G::Text { empty: true, p: Some("v") }).syntax();
        for i in u * per..((u + 1) * per).min(n) { if !round(&w.word(i), &syn, cx) { return; } }
    }));
    // Pieces of every length.
    let sizes = crate::p_sizes::sizes(thorough);
    let fills: Vec<&'static str> = vec!["a", "é", "€", "𝄞", "aé", "𝄞b", "\u{80}", "\u{7f}"];
    let nf = fills.len() as u64;
    fams.push(fam("long", format!("strings of {} lengths up to {} characters of {} fillings: written and read with a quote, backslash, control or other character at either end and in the middle; read by a text rule with every kind of escape there; read up to a stop character and up to whitespace after them", sizes.len(), sizes.last().unwrap(), nf), sizes.len() as u64 * nf, move |u, cx| {
        let f: Vec<char> = fills[(u % nf) as usize].chars().collect();
        let n = sizes[sizes.len() - 1 - (u / nf) as usize];
        let s: Vec<char> = (0..n).map(|i| f[i % f.len()]).collect();
        let set = Set::one(G::Text { empty: true, p: Some("v") });
        let syn = set.syntax();
        let m = crate::interp::Model::new(&set);
        let put = |k: usize, x: &str| -> String { let mut t: String = s[..k].iter().collect(); t.push_str(x); t.extend(&s[k..]); t };
        for k in [0, n / 2, n] {
            for x in ["", "\"", "\\", "\n", "\u{0}", "\u{7f}", "/", "𝄞", "\\\"", "\u{2028}"] { if !round(&put(k, x), &syn, cx) { return; } }
            for x in ["\\n", "\\\"", "\\\\", "\\u00e9", "\\u0000", "\\ud834\\udd1e", "\\x", "\\u12", "\"", "\n", "\\/"] {
                cx.inc("states");
                if !case(What::Full, &set, &m, &syn, None, &format!("\"{}\"", put(k, x)), DEFAULT, cx) && cx.failed() { return; }
            }
        }
        for any in [";", "é", "a𝄞;", ""] { for (ws, o) in [(false, true), (true, true), (false, false), (true, false)] {
            let us = until_rules(any, ws, o);
            let syn = us.syntax();
            for k in [0, n / 2, n] { for x in [";", " ", "\u{3000}", "\n", "", "€;"] { if !until(any, ws, o, &put(k, x), &syn, &us, cx) { return; } } }
        } }
    }));
    let stops = Words::new(&["a", "é", "è", "\u{a9}", "€", "𝄞", " ", "\""], 2).all();
    let w = Words::new(&["a", "é", "è", "\u{a9}", "€", "𝄞", " ", "\u{a0}", "\n", "\""], if thorough { 5 } else { 4 });
    let ts = Arc::new(w.all());
    fams.push(fam("delimited", format!("all sets of up to two stop characters (out of eight, several sharing bytes), stopping or not at whitespace, empty allowed or not, on all texts up to {} characters over {:?}", w.max, w.sym), stops.len() as u64 * 4, move |u, cx| {
        let any = &stops[(u / 4) as usize];
        let (ws, o) = (u % 2 == 0, u / 2 % 2 == 0);
        let set = until_rules(any, ws, o);
        let syn = set.syntax();
        cx.inc("states");
        for t in ts.iter() { if !until(any, ws, o, t, &syn, &set, cx) { return; } }
        cx.sample(|| format!("{} reads the characters before the first stop of {} texts", set.text().trim_end(), ts.len()));
    }));
    // Many stop characters.
    let sizes: Vec<usize> = (0..=if thorough { 70 } else { 40 }).chain([63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300]).chain(if thorough { vec![1000, 4096] } else { vec![] }).collect();
    let pools: Vec<(&'static str, Vec<char>)> = vec![
        ("ASCII", (33u8..127).filter(|c| !b"az".contains(c)).map(|c| c as char).collect()),
        ("two bytes", (0x400u32..0x500).filter_map(char::from_u32).collect()),
        ("three bytes", (0x3041u32..0x3097).filter_map(char::from_u32).collect()),
        ("four bytes", (0x1f600u32..0x1f640).filter_map(char::from_u32).collect()),
        ("mixed", (0..240u32).filter_map(|i| char::from_u32(match i % 4 { 0 => 33 + i / 4, 1 => 0xc0 + i, 2 => 0x20a0 + i, _ => 0x1d11e + i })).filter(|c| !"az".contains(*c)).collect()),
    ];
    let extra = ["", "é", "€", "😀", "\u{a0}", " ", "\0", "\u{7f}", "\u{80}", "\u{10ffff}"];
    let (np, nx) = (pools.len() as u64, extra.len() as u64);
    fams.push(fam("many stops", format!("stop sets of {} sizes up to {} out of {} pools of characters (one to four bytes), with one of {} further characters first, in the middle or last, stopping or not at whitespace, empty allowed or not; texts with each of up to 24 stop characters after characters that share bytes with it, after none, and no stop at all", sizes.len(), sizes.iter().max().unwrap(), np, nx - 1), sizes.len() as u64 * np * nx, move |u, cx| {
        let (n, (_, pool), x) = (sizes[(u / np / nx) as usize], &pools[(u / nx % np) as usize], extra[(u % nx) as usize]);
        let base: Vec<char> = (0..n).map(|i| pool[i % pool.len()]).collect();
        let places: Vec<usize> = if x.is_empty() { vec![0] } else if n < 2 { vec![0, n] } else { vec![0, n / 2, n] };
        for k in places {
            let any: String = base[..k].iter().collect::<String>() + x + &base[k..].iter().collect::<String>();
            let stops: Vec<char> = any.chars().collect();
            let step = (stops.len() / 24).max(1);
            let mut texts: Vec<String> = vec!["".into(), "a".into(), "azzaazzaazzazaz".into(), "a z".into()];
            let near = |c: char| -> String { [-1i32, 1, 2, 64, -64, 128, 4096, -4096].iter().filter_map(|d| char::from_u32((c as i32).wrapping_add(*d) as u32)).filter(|c| !any.contains(*c)).collect() };
            for c in stops.iter().step_by(step).chain(x.chars().collect::<Vec<_>>().iter()) {
                texts.push(format!("{}{}z{}", near(*c), c, c));
                texts.push(format!("{}", near(*c)));
                texts.push(format!("a{}", c));
                texts.push(format!("{}a", c));
            }
            for (ws, o) in [(true, true), (true, false), (false, true), (false, false)] {
                let set = until_rules(&any, ws, o);
                let syn = set.syntax();
                cx.inc("states");
                for t in &texts { if !until(&any, ws, o, t, &syn, &set, cx) { return; } }
            }
        }
    }));
    Prop { id: "C21", level: "model_checking", rule: "a state is a rule set with a text or a string to write, a transition a character; reads are compared with the reference model (its string reader is our own) or directly with the characters before the first stop; round trips with the original", assumptions: vec![], families: fams }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault { Error(usize), Zero, Interrupt, Short(usize), ErrorAfterShort(usize) }

/// A sink that misbehaves at write number `at`, or always accepts little.
struct Sink { out: Vec<u8>, calls: usize, at: usize, f: Fault, hit: bool }
const MARK: &str = "sink is full (marker)";
use std::io::ErrorKind as K;
const KINDS: [K; 38] = [K::Other, K::BrokenPipe, K::WouldBlock, K::WriteZero, K::UnexpectedEof, K::TimedOut, K::InvalidData, K::OutOfMemory, K::PermissionDenied, K::InvalidInput, K::NotFound, K::ConnectionRefused, K::ConnectionReset, K::HostUnreachable, K::NetworkUnreachable, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::NetworkDown, K::AlreadyExists, K::NotADirectory, K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StaleNetworkFileHandle, K::StorageFull, K::NotSeekable, K::QuotaExceeded, K::FileTooLarge, K::ResourceBusy, K::ExecutableFileBusy, K::Deadlock, K::CrossesDevices, K::TooManyLinks, K::InvalidFilename, K::ArgumentListTooLong, K::Unsupported];
/// Numbers of errors of the operating system; number 4 asks for a retry.
const OS: i32 = 133;
const ERRORS: usize = KINDS.len() + OS as usize;
/// Every kind of error with a message of its own, then every error of the operating system.
fn error(k: usize) -> io::Error {
    match k % ERRORS {
        k if k < KINDS.len() => io::Error::new(KINDS[k], MARK),
        k => match (k - KINDS.len()) as i32 + 1 { 4 => io::Error::new(K::Other, MARK), n => io::Error::from_raw_os_error(n) }
    }
}
fn same_error(e: &io::Error, k: usize) -> bool {
    let want = error(k);
    e.kind() == want.kind() && e.raw_os_error() == want.raw_os_error() && e.to_string() == want.to_string()
}

/// A sink that answers its first writes (from number `from` on) by a script, the others fully.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Answer { Full, One, Half, Retry, Refuse, Fail }
const ANSWERS: [Answer; 6] = [Answer::Full, Answer::One, Answer::Half, Answer::Retry, Answer::Refuse, Answer::Fail];
struct Scripted<'a> { out: Vec<u8>, calls: usize, from: usize, script: &'a [Answer], met: usize, failed: Option<Answer> }
impl<'a> Write for Scripted<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        let a = if n < self.from { Answer::Full } else { self.script.get(n - self.from).copied().unwrap_or(Answer::Full) };
        if a != Answer::Full { self.met += 1; }
        let take = match a {
            Answer::Full => b.len(), Answer::One => b.len().min(1), Answer::Half => (b.len() + 1) / 2,
            Answer::Retry => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            Answer::Refuse => { if !b.is_empty() { self.failed.get_or_insert(a); } 0 }
            Answer::Fail => { self.failed.get_or_insert(a); return Err(error(n)) }
        };
        self.out.extend_from_slice(&b[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Every sequence of answers to the first writes, and to those from each place in a list on.
fn scripts(what: &str, job: &Job, depth: u32, froms: &[usize], cx: &mut Cx) -> bool {
    let mut full = Scripted { out: vec![], calls: 0, from: 0, script: &[], met: 0, failed: None };
    if !matches!(guard(BUDGET, || job(&mut full)), Ok(Ok(()))) { return true; }
    let k = ANSWERS.len() as u64;
    for &from in froms {
        if from > 0 && from >= full.calls { continue; }
        for i in 0..k.pow(depth) {
            let mut j = i;
            let script: Vec<Answer> = (0..depth).map(|_| { let a = ANSWERS[(j % k) as usize]; j /= k; a }).collect();
            // What comes after a failure is never asked for.
            if script.iter().position(|a| matches!(a, Answer::Fail | Answer::Refuse)).map_or(false, |p| script[p + 1..].iter().any(|a| *a != Answer::Full)) { continue; }
            cx.inc("executions"); cx.inc("scripts of answers");
            cx.note(|| format!("{}: answers {:?} from write {} on", what, script, from));
            let mut s = Scripted { out: vec![], calls: 0, from, script: &script, met: 0, failed: None };
            let r = guard(BUDGET, || job(&mut s));
            if s.met > 0 { cx.inc("nontrivial"); }
            let bad = match (&r, s.failed) {
                (Err(p), _) => Some(p.clone()),
                (Ok(Ok(())), Some(_)) => Some("reports success although the sink failed".to_string()),
                (Ok(Err(e)), None) => Some(format!("gives up: {}", e)),
                (Ok(Ok(())), None) => if s.out == full.out { None } else { Some("delivers other output than to a perfect sink".into()) },
                (Ok(Err(e)), Some(f)) => if f == Answer::Fail && !same_error(e, s.calls - 1) { Some(format!("reports another error: {}", e)) } else if full.out.starts_with(&s.out) { None } else { Some("what was written before is no prefix of the full output".into()) },
            };
            if let Some(b) = bad { cx.violation(format!("{}: answers {:?} from write {} on: {}", what, script, from, b), format!("{}\nanswers {:?} from write {} on: {}", what, script, from, b)); if cx.failed() { return false; } }
        }
    }
    true
}


impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        let take = match self.f {
            Fault::Short(k) => { self.hit |= b.len() > k; b.len().min(k) }
            Fault::Error(_) | Fault::Zero | Fault::Interrupt if n != self.at => b.len(),
            Fault::Error(k) => { self.hit = true; return Err(error(k)) }
            Fault::Zero => { self.hit = true; 0 }
            Fault::Interrupt => { self.hit = true; return Err(io::Error::from(io::ErrorKind::Interrupted)) }
            // Everything comes one byte at a time until the sink breaks for good.
            Fault::ErrorAfterShort(k) => { if n >= self.at { self.hit = true; return Err(error(k)) } b.len().min(1) }
        };
        self.out.extend_from_slice(&b[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

type Job = Arc<dyn Fn(&mut dyn Write) -> io::Result<()> + Send + Sync>;

struct Dyn<'a>(&'a mut dyn Write);
impl<'a> Write for Dyn<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> io::Result<()> { self.0.flush() }
}

fn faults(what: &str, job: &Job, cx: &mut Cx) -> bool {
    let run = |at: usize, f: Fault| {
        let mut s = Sink { out: vec![], calls: 0, at, f, hit: false };
        let r = guard(BUDGET, || job(&mut s));
        (s, r)
    };
    let (perfect, r) = run(usize::MAX, Fault::Error(0));
    cx.inc("executions");
    let mut fail = |why: String, cx: &mut Cx| { cx.violation(why.clone(), format!("{}\n{}", what, why)); false };
    if !matches!(r, Ok(Ok(()))) { return fail(format!("{}: a perfect sink: {:?}", what, r), cx) || !cx.failed(); }
    let full = perfect.out;
    cx.add("bytes of perfect output", full.len() as u64);
    let mut cases: Vec<(usize, Fault)> = vec![];
    let places = |n: usize| (0..n).filter(move |i| n <= 700 || *i < 40 || n - *i < 40 || i % 61 == 0);
    for at in places(perfect.calls) { for f in [Fault::Error(at), Fault::Zero, Fault::Interrupt] { cases.push((at, f)); } }
    for k in 0..ERRORS {
        for at in 0..perfect.calls {
            if perfect.calls <= 24 || at == 0 || at == perfect.calls / 2 || at + 2 >= perfect.calls { cases.push((at, Fault::Error(k))); }
        }
        for at in [full.len() / 2, full.len().saturating_sub(2), full.len().saturating_sub(1)] { if at < full.len() { cases.push((at, Fault::ErrorAfterShort(k))); } }
    }
    for k in [1, 2, 3, 4, 5, 16, 255, 256, 1000] { if k < 6 || k < full.len() { cases.push((0, Fault::Short(k))); } }
    for at in places(full.len()) { cases.push((at, Fault::ErrorAfterShort(at))); }
    for (at, f) in cases {
        cx.inc("executions");
        cx.note(|| format!("{}: {:?} at write {}", what, f, at));
        let (s, r) = run(at, f);
        if s.hit { cx.inc("nontrivial"); }
        let bad = match (f, &r) {
            (_, Err(p)) => Some(p.clone()),
            (Fault::Error(_), Ok(r)) | (Fault::ErrorAfterShort(_), Ok(r)) => match r {
                Ok(()) => Some("reports success although the sink failed".into()),
                Err(e) if matches!(f, Fault::Error(k) | Fault::ErrorAfterShort(k) if !same_error(e, k)) => Some(format!("reports another error: {}", e)),
                Err(_) => if full.starts_with(&s.out) { None } else { Some("what was written before is no prefix of the full output".into()) },
            },
            (Fault::Zero, Ok(Ok(()))) => Some("reports success although the sink accepts nothing".into()),
            (Fault::Zero, Ok(Err(_))) => if full.starts_with(&s.out) { None } else { Some("what was written before is no prefix of the full output".into()) },
            (Fault::Short(_), Ok(r)) | (Fault::Interrupt, Ok(r)) => match r {
                Err(e) => Some(format!("gives up: {}", e)),
                Ok(()) => if s.out == full { None } else { Some("delivers other output than to a perfect sink".into()) },
            },
        };
        if let Some(b) = bad {
            if !fail(format!("{}: {:?} at write {}: {}", what, f, at, b), cx) && cx.failed() { return false; }
        } else { cx.inc(match f { Fault::Error(_) | Fault::Zero => "failures reported", Fault::ErrorAfterShort(_) => "failures reported after short writes", Fault::Interrupt => "retries completed", Fault::Short(_) => "short writes completed" }); }
    }
    cx.sample(|| format!("{}: {} writes, {} bytes, every one of them failed in turn", what, perfect.calls, full.len()));
    true
}

pub fn c22(thorough: bool) -> Prop {
    let mut fams = vec![];
    let e = entries(12);
    let k = e.len() as u64;
    for n in 0..=if thorough { 4 } else { 3 } {
        let e = e.clone();
        let total = k.pow(n as u32);
        let per = 64;
        fams.push(fam(format!("json{}", n), format!("json::write of all sequences of {} entries out of {}: error, zero and retry at every write, each of {} errors (every kind, every number of the operating system) at every write of up to 24; sinks of 1 to 5 bytes a write; errors at every byte", n, k, ERRORS), (total + per - 1) / per, move |u, cx| {
            for i in u * per..((u + 1) * per).min(total) {
                let d = Arc::new(seqs(&e, i, n));
                let d2 = d.clone();
                let job: Job = Arc::new(move |w| json::write(&mut Dyn(w), &d2));
                if !faults(&format!("json::write {}", show(&d)), &job, cx) { return; }
            }
        }));
    }
    let lens: Vec<usize> = if thorough { (5..60).collect() } else { vec![5, 8, 13, 21, 34] };
    fams.push(fam("json long", format!("json::write of lists of {:?} entries: values only, values in one node, nodes in nodes, nodes one after the other, texts of escapes", lens), lens.len() as u64 * 5, move |u, cx| {
        let n = lens[(u / 5) as usize];
        let a = name("a");
        let (s, e) = (at(MetaData::StartNode(a.clone())), at(MetaData::EndNode(a.clone())));
        let value = |i: usize| at(match i % 3 { 0 => MetaData::Bool(a.clone(), i % 2 == 0), 1 => MetaData::F64(name("é"), i as f64 * 1e20), _ => MetaData::String(a.clone(), name("x\n")) });
        let mut d: Vec<Range<MetaData>> = vec![];
        match u % 5 {
            0 => for i in 0..n { d.push(value(i)); },
            1 => { d.push(s.clone()); for i in 0..n { d.push(value(i)); } d.push(e.clone()); }
            2 => { for _ in 0..n { d.push(s.clone()); } d.push(value(1)); for _ in 0..n { d.push(e.clone()); } }
            3 => for i in 0..n { d.push(s.clone()); if i % 2 == 0 { d.push(value(i)); } d.push(e.clone()); },
            _ => d.push(at(MetaData::String(name(&"\"".repeat(n)), name(&"\u{1}é\n\\".repeat(n / 2))))),
        }
        let d = Arc::new(d);
        let d2 = d.clone();
        let job: Job = Arc::new(move |w| json::write(&mut Dyn(w), &d2));
        faults(&format!("json::write {}", show(&d)), &job, cx);
    }));
    let w = Words::new(&["a", "\"", "\\", "\n", "\r", "\t", "\u{1}", "é", "𝄞"], if thorough { 4 } else { 3 });
    let n = w.count();
    fams.push(fam("strings", format!("json::write_string of all strings up to {} characters over {:?}", w.max, w.sym), (n + 31) / 32, move |u, cx| {
        for i in u * 32..((u + 1) * 32).min(n) {
            let s = w.word(i);
            let what = format!("json::write_string {:?}", s);
            let job: Job = Arc::new(move |w| json::write_string(&mut Dyn(w), &s));
            if !faults(&what, &job, cx) { return; }
        }
    }));
    let sizes: Vec<usize> = if thorough { (1..140).chain([200, 250]).chain(253..260).chain([500]).chain(510..515).chain([600, 1000, 1022, 1023, 1024, 1025, 1026, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 8200]).collect() } else { vec![5, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, 2100, 4097, 8193] };
    fams.push(fam("sizes", format!("strings of {} sizes up to {} (plain, of two, three and four bytes, with an escape at either end or in the middle, escapes only) written alone, as value and as name, and shown in reports; from 700 writes on, faults at the first and last 40 writes and every 61st", sizes.len(), sizes.last().unwrap()), sizes.len() as u64 * 8, move |u, cx| {
        let n = sizes[sizes.len() - 1 - (u / 8) as usize];
        let s = match u % 8 { 0 => "a".repeat(n), 1 => "é".repeat(n), 2 => format!("\n{}", "a".repeat(n)), 3 => format!("{}\"", "b€".repeat(n / 2)), 4 => format!("{}\\{}", "c".repeat(n / 2), "😀".repeat(n - n / 2)), 5 => "\u{1}".repeat(n), 6 => "a b\tc\n".repeat(n / 6 + 1), _ => "\"\\".repeat(n / 2) };
        if n > 700 && u % 8 >= 5 { return; }
        let t = Arc::new(s);
        let short = format!("{} characters of kind {}", n, u % 8);
        for k in 0..4 {
            let t2 = t.clone();
            let job: Job = Arc::new(move |w| match k {
                0 => json::write_string(&mut Dyn(w), &t2),
                1 => json::write(&mut Dyn(w), &[at(MetaData::Bool(name("b"), true)), at(MetaData::String(name("s"), t2.clone())), at(MetaData::F64(name("f"), 1.5))]),
                2 => json::write(&mut Dyn(w), &[at(MetaData::StartNode(t2.clone())), at(MetaData::F64(t2.clone(), 2.5)), at(MetaData::EndNode(t2.clone()))]),
                _ => ParseErrorHandler::new(&t2).write(&mut Dyn(w), Range::empty(t2.char_indices().map(|x| x.0).nth(t2.chars().count() / 2).unwrap_or(0)).wrap(ParseError::ExpectedTag(t2.clone(), 7))),
            });
            if !faults(&format!("{} of {}", ["json::write_string", "json::write, value", "json::write, names", "report"][k], short), &job, cx) { return; }
        }
    }));
    let jobs: Vec<(&'static str, fn() -> Job)> = vec![
        ("json::write_string \"a\\n\\\"é\u{1}\"", || Arc::new(|w: &mut dyn Write| json::write_string(&mut Dyn(w), "a\n\"é\u{1}"))),
        ("json::write_string \"plain\"", || Arc::new(|w: &mut dyn Write| json::write_string(&mut Dyn(w), "plain"))),
        ("json::write of a bool", || Arc::new(|w: &mut dyn Write| json::write(&mut Dyn(w), &[at(MetaData::Bool(name("x"), true))]))),
        ("json::write of numbers", || Arc::new(|w: &mut dyn Write| json::write(&mut Dyn(w), &[at(MetaData::F64(name("x"), -1.5e-7)), at(MetaData::F64(name("é"), 1e300))]))),
        ("json::write of a node", || Arc::new(|w: &mut dyn Write| json::write(&mut Dyn(w), &[at(MetaData::StartNode(name("n"))), at(MetaData::String(name("s"), name("v\\"))), at(MetaData::Bool(name("b"), false)), at(MetaData::EndNode(name("n")))]))),
        ("json::write of nodes", || Arc::new(|w: &mut dyn Write| json::write(&mut Dyn(w), &[at(MetaData::StartNode(name("n"))), at(MetaData::StartNode(name("m"))), at(MetaData::EndNode(name("m"))), at(MetaData::EndNode(name("n"))), at(MetaData::StartNode(name("k"))), at(MetaData::EndNode(name("k")))]))),
        ("report of a missing token", || Arc::new(|w: &mut dyn Write| ParseErrorHandler::new("a\n\tb é\n\nc").write(&mut Dyn(w), Range::new(5, 1).wrap(ParseError::ExpectedTag(Arc::new(";".into()), 3))))),
        ("report of the expected end", || Arc::new(|w: &mut dyn Write| ParseErrorHandler::new("a\n\tb é\n\nc").write(&mut Dyn(w), Range::new(3, 1).wrap(ParseError::ExpectedEnd)))),
        ("message", || Arc::new(|w: &mut dyn Write| ParseErrorHandler::new("a\nb").write_msg(&mut Dyn(w), Range::empty(2), "message é"))),
        ("report at the end", || Arc::new(|w: &mut dyn Write| ParseErrorHandler::new("a\n").write(&mut Dyn(w), Range::empty(2).wrap(ParseError::ExpectedText(4))))),
    ];
    let depth = if thorough { 8 } else { 6 };
    let froms: Vec<usize> = (0..if thorough { 60 } else { 30 }).collect();
    let (nj, nf) = (jobs.len() as u64, froms.len() as u64);
    fams.push(fam("scripts", format!("{} calls, every sequence of {} answers ({:?}) of the sink, nothing after a failure, from each of the first {} writes on", nj, depth, ANSWERS, nf), nj * nf, move |u, cx| {
        let (what, job) = &jobs[(u % nj) as usize];
        cx.inc("states"); cx.inc("transitions");
        scripts(what, &job(), depth, &[froms[(u / nj) as usize]], cx);
    }));
    let mut texts = Words::new(&["a", "é", "\t", "\n", " "], if thorough { 5 } else { 4 }).all();
    for k in [1, 9, 10, 37, 38, 39, 75, 76, 100, 250] { texts.push(format!("{}\n{}", "b".repeat(k), "\té".repeat(k))); texts.push("\n".repeat(k) + "a" + &"\n ".repeat(k) + "b"); texts.push("𝄞".repeat(k) + &"c".repeat(k)); }
    texts.push(format!("{}\n{}x{}", "a\u{e9}\t".repeat(30), "b".repeat(90), "c".repeat(120)));
    let n = texts.len() as u64;
    fams.push(fam("reports", format!("error reports (write and write_msg, with and without preceding lines) for {} texts and every range in them of up to 3 characters", n), n, move |u, cx| {
        let t = Arc::new(texts[u as usize].clone());
        let pos: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
        for (i, a) in pos.iter().enumerate() {
            if t.len() > 100 && i % 17 != 0 { continue; }
            for b in pos.iter().skip(i).take(4) {
                let range = Range::new(*a, *b - *a);
                for k in 0..3 {
                    let t2 = t.clone();
                    let what = format!("report {} of {:?} in {:?}", ["of a missing token", "of the expected end", "message"][k], range, t);
                    let job: Job = Arc::new(move |w| {
                        let mut h = ParseErrorHandler::new(&t2);
                        match k {
                            0 => h.write(&mut Dyn(w), range.wrap(ParseError::ExpectedTag(Arc::new("é\n".into()), 5))),
                            1 => h.write(&mut Dyn(w), range.wrap(ParseError::ExpectedEnd)),
                            _ => h.write_msg(&mut Dyn(w), range, "message é"),
                        }
                    });
                    if !faults(&what, &job, cx) { return; }
                }
            }
        }
    }));
    Prop { id: "C22", level: "fault_enumeration", rule: "each call is run once per write it makes and per byte it writes, with the sink failing, accepting nothing, or asking to retry there, and with sinks that take 1 to 5 bytes at a time; non-trivial are runs in which the fault was actually met",
        assumptions: vec![], families: fams }
}
