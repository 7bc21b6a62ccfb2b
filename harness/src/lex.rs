//! Numbers and quoted strings, read without the library.

/// Length of the number-like piece at the start of the text, if any: a sign first, digits, one
/// point, one exponent mark (not first), one sign after it, underscores after a digit if allowed.
pub fn scan_number(s: &str, underscore: bool) -> Option<usize> {
    let (mut dot, mut exp, mut exp_sign, mut digit) = (false, false, false, false);
    let mut n = 0;
    for (i, c) in s.char_indices() {
        match c {
            '+' | '-' if i == 0 => {}
            '+' | '-' if exp && !exp_sign => exp_sign = true,
            '0'..='9' => digit = true,
            '_' if underscore && digit => {}
            '.' if !dot => dot = true,
            'e' | 'E' if !exp && i > 0 => exp = true,
            _ => break,
        }
        n = i + 1;
    }
    if n == 0 { None } else { Some(n) }
}

/// Value of a number-like piece: None if it is not a decimal literal with a finite value.
pub fn number_value(s: &str, underscore: bool) -> Option<f64> {
    let d: String = s.chars().filter(|c| !(underscore && *c == '_')).collect();
    let body = d.strip_prefix(['+', '-']).unwrap_or(&d);
    let (mant, exp) = match body.find(['e', 'E']) { Some(i) => (&body[..i], Some(&body[i + 1..])), None => (body, None) };
    let digits = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    let (int, frac) = mant.split_once('.').unwrap_or((mant, ""));
    if !digits(int) || !digits(frac) || int.len() + frac.len() == 0 { return None; }
    if let Some(e) = exp {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        if e.is_empty() || !digits(e) { return None; }
    }
    let v: f64 = d.parse().ok()?;
    if v.is_finite() { Some(v) } else { None }
}

/// Length of the quoted string at the start of the text, quotes included.
pub fn scan_string(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    if b.first() != Some(&b'"') { return None; }
    let mut i = 1;
    while i < b.len() {
        match b[i] { b'"' => return Some(i + 1), b'\\' => i += 2, _ => i += 1 }
    }
    None
}

/// Characters of a quoted string (with its quotes), or where the wrong escape is: (offset, length).
pub fn unescape(q: &str) -> Result<String, (usize, usize)> {
    let mut out = String::new();
    let c: Vec<(usize, char)> = q.char_indices().collect();
    let last = c.len() - 1;
    let mut k = 1;
    while k < last {
        let (i, ch) = c[k];
        k += 1;
        if ch != '\\' { out.push(ch); continue; }
        let (e, esc) = c[k];
        k += 1;
        out.push(match esc {
            '"' => '"', '\\' => '\\', '/' => '/', 'b' => '\u{8}', 'f' => '\u{c}', 'n' => '\n', 'r' => '\r', 't' => '\t',
            'u' => {
                let mut code = 0;
                for j in 0..4 {
                    match c[k + j].1.to_digit(16) {
                        Some(d) => code = code * 16 + d,
                        None => return Err((c[k + j].0, 1)),
                    }
                }
                k += 4;
                match char::from_u32(code) { Some(x) => x, None => return Err((i + 2, 3)) }
            }
            _ => return Err((e, 1)),
        });
    }
    Ok(out)
}
