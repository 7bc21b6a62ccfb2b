From bc808ed2e1da171006b15067c965157288b41bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 01/14] fix: test for the end of text in bytes, not characters

---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From f70b06a5444b12359a6e955c537d41582202c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 02/14] fix: try the tail of an optimized select at the end of
 the text

---
 src/meta_rules/fast_select.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..b961db6 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -80,8 +80,10 @@ impl FastSelect {
                     }
                 }
             } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
+                // There is no byte to look up at the end of the text,
+                // but the tail might succeed without reading anything.
+                self.args[self.args.len()-1].parse(
+                    tokens, state, read_token, refs, indent_settings)
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From 44149d7acdd2511cee2d6c5e6f27f270ebfbed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 03/14] fix: do not allow trailing separator unless the rule
 says so

---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..c3cf5cf 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -654,7 +654,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0


From 78dd1c461b09e99b2643a8bbdc2e91d491734d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 04/14] fix: refuse node numbers that are too large for a debug
 id

---
 src/bootstrap/convert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index c3cf5cf..0b0bf3c 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -834,6 +834,12 @@ pub fn convert(
         }
     }
 
+    // Leaves room for numbering the sub rules.
+    fn first_debug_id(id: Option<usize>) -> Result<usize, ()> {
+        id.unwrap_or(0).checked_mul(1000)
+            .filter(|&debug_id| debug_id <= usize::MAX / 2).ok_or(())
+    }
+
     fn read_node(
         mut convert: Convert,
         strings: &[(Arc<String>, Arc<String>)],
@@ -857,7 +863,7 @@ pub fn convert(
                 name = Some(val);
                 convert.update(range);
             } else if let Ok((range, val)) = read_rule(
-                &mut (id.unwrap_or(0) * 1000), "rule",
+                &mut first_debug_id(id)?, "rule",
                 convert, strings, ignored
             ) {
                 rule = Some(val);
-- 
2.43.0


From 432c8242e1be688a106b32c2ee3f754499e27a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 05/14] fix: report rules using undefined strings instead of
 dropping them

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5b767e6..befb0f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,6 +223,10 @@ pub fn syntax(rules: &str) -> Result<Syntax, Range<ParseError>> {
     parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;
     let mut ignored_meta_data = vec![];
     match bootstrap::convert(&tokens, &mut ignored_meta_data) {
+        // Something that was written did not end up in the rules.
+        Ok(_) if !ignored_meta_data.is_empty() => Err(
+            tokens[ignored_meta_data[0].offset].range().wrap(ParseError::Conversion(
+                format!("Could not convert rule, is a string undefined?")))),
         Ok(res) => Ok(res.optimize()),
         Err(()) => Err(Range::empty(0).wrap(ParseError::Conversion(
             format!("Bootstrapping rules are incorrect"))))
-- 
2.43.0


From 1c657e94aecee5e3a6155d9f97050595db576e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 06/14] fix: read numbers with correct rounding and without
 overflow panic

---
 src/meta_rules/number.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/number.rs b/src/meta_rules/number.rs
index 522ad4e..ada5095 100644
--- a/src/meta_rules/number.rs
+++ b/src/meta_rules/number.rs
@@ -1,5 +1,5 @@
 use range::Range;
-use read_token::{ NumberSettings, ReadToken };
+use read_token::{ NumberSettings, ParseNumberError, ReadToken };
 use std::sync::Arc;
 
 use super::{
@@ -23,6 +23,19 @@ pub struct Number {
     pub allow_underscore: bool,
 }
 
+// Parses number, rounding to the closest 64 bit float.
+fn parse_number(settings: &NumberSettings, src: &str) -> Result<f64, ParseNumberError> {
+    let digits: String = src.chars()
+        .filter(|&c| !settings.allow_underscore || c != '_').collect();
+    match digits.parse::<f64>() {
+        Ok(val) if val == ::std::f64::INFINITY => Err(ParseNumberError::OverflowInfinity),
+        Ok(val) if val == ::std::f64::NEG_INFINITY => Err(ParseNumberError::OverflowNegInfinity),
+        Ok(val) => Ok(val),
+        Err(_) if digits == "-" => Err(ParseNumberError::ExpectedDigits),
+        Err(_) => Err(ParseNumberError::Invalid),
+    }
+}
+
 impl Number {
     /// Parses number.
     pub fn parse(
@@ -35,7 +48,7 @@ impl Number {
             allow_underscore: self.allow_underscore
         };
         if let Some(range) = read_token.number(&settings) {
-            match read_token.parse_number(&settings, range.length) {
+            match parse_number(&settings, &read_token.raw_string(range.length)) {
                 Err(err) => {
                     Err(range.wrap(
                     ParseError::ParseNumberError(err, self.debug_id)))
-- 
2.43.0


From ce1eb6f45950e8a5ef3b08bc62cfa770da29d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:27 +0000
Subject: [PATCH 07/14] fix: step over multi-byte whitespace when reading lines

---
 src/meta_rules/lines.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 7a5d316..92acd0a 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -27,6 +27,40 @@ pub struct Lines {
     pub indent: bool,
 }
 
+// Like `ReadToken::lines`, but steps over whitespace of more than one byte.
+fn read_lines<F>(start: &ReadToken, mut f: F) -> Result<Range, Range>
+    where F: FnMut(&ReadToken) -> Option<Range>
+{
+    let mut read_token = *start;
+    let mut new_lines = true;
+    loop {
+        let rest = read_token.src.trim_start();
+        let space = read_token.src.len() - rest.len();
+        let line = read_token.src[..space].rfind('\n').map(|i| i + 1);
+        new_lines |= line.is_some();
+        if rest.is_empty() {
+            read_token = read_token.consume(space);
+            break;
+        }
+        read_token = read_token.consume(line.unwrap_or(0));
+        if !new_lines {
+            return Err(Range::empty(read_token.offset));
+        }
+        match f(&read_token) {
+            None => { break; }
+            Some(range) => {
+                // A new line is not required before the next item
+                // if this one ended by reading a new line.
+                new_lines = read_token.src[..range.next_offset() - read_token.offset]
+                    .trim_end_matches(|c: char| c != '\n' && c.is_whitespace())
+                    .ends_with('\n');
+                read_token = read_token.consume(range.length);
+            }
+        }
+    }
+    Ok(read_token.subtract(start))
+}
+
 impl Lines {
     /// Parses rule separated by one or more lines.
     /// Ignores lines that only contain whitespace characters.
@@ -42,7 +76,7 @@ impl Lines {
         let mut opt_error = None;
         let mut first = true;
         if self.indent {
-            match read_token.lines(|read_token| {
+            match read_lines(read_token, |read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -112,7 +146,7 @@ impl Lines {
                 }
             }
         } else {
-            match read_token.lines(|read_token| {
+            match read_lines(read_token, |read_token| {
                 match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                     Err(err) => {
                         err_update(Some(err), &mut opt_error);
-- 
2.43.0


From 23f5225ccb109835f9430c7a639b6d3fa64d2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 08/14] fix: count columns of error reports in characters, not
 bytes

---
 src/parse_error_handler.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parse_error_handler.rs b/src/parse_error_handler.rs
index 2874f8a..62ca10a 100644
--- a/src/parse_error_handler.rs
+++ b/src/parse_error_handler.rs
@@ -48,9 +48,11 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    // Count columns in characters, not bytes.
+                    let j = text.char_indices()
+                        .take_while(|&(i, _)| i < intersect.offset - r.offset).count();
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
@@ -122,9 +124,11 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    // Count columns in characters, not bytes.
+                    let j = text.char_indices()
+                        .take_while(|&(i, _)| i < intersect.offset - r.offset).count();
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
-- 
2.43.0


From 7e1ca288065fb80c546e8c5e6ffe9348d9f27b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 09/14] fix: escape control characters in JSON strings

---
 src/json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index 6e187b9..c984b14 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -83,6 +83,8 @@ pub fn write_string<W>(w: &mut W, val: &str) -> Result<(), io::Error>
             write!(w, "\\r")?;
         } else if c == '\t' {
             write!(w, "\\t")?;
+        } else if c < ' ' {
+            write!(w, "\\u{:04x}", c as u32)?;
         } else {
             write!(w, "{}", c)?;
         }
-- 
2.43.0


From cee3ef2ce1acf34f3339da224dbb8f8124e8ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 10/14] fix: do not underflow when writing meta data that ends
 nodes it did not start

---
 src/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index c984b14..2b5ef12 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -25,7 +25,7 @@ pub fn write<W>(w: &mut W, data: &[Range<MetaData>]) -> Result<(), io::Error>
     for (i, d) in data.iter().enumerate() {
         let d = &d.data;
         let is_end = if let MetaData::EndNode(_) = *d {
-            indent -= 1;
+            indent = indent.saturating_sub(1);
             true
         } else { false };
         let print_comma = !first && !is_end;
-- 
2.43.0


From af64f5c9bbaf12f01ad1176f16292d04793debe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 11/14] fix: refuse meta data with unbalanced nodes instead of
 looping forever

---
 src/bootstrap/convert.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 0b0bf3c..0453b5c 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -95,7 +95,7 @@ impl<'a> Convert<'a> {
         for item in self.data.iter() {
             match &item.data {
                 &MetaData::StartNode(_) => acc += 1,
-                &MetaData::EndNode(_) => acc -= 1,
+                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),
                 _ => {}
             }
             len += 1;
@@ -882,6 +882,18 @@ pub fn convert(
         }
     }
 
+    // Every node must end, such that ignoring data always reaches the end
+    // of the node that contains it.
+    let mut nodes: Vec<&str> = vec![];
+    for item in data {
+        match item.data {
+            MetaData::StartNode(ref name) => nodes.push(name),
+            MetaData::EndNode(ref name) => if nodes.pop() != Some(name) {return Err(());}
+            _ => {}
+        }
+    }
+    if !nodes.is_empty() {return Err(());}
+
     let mut strings: Vec<(Arc<String>, Arc<String>)> = vec![];
     let mut convert = Convert::new(data);
     loop {
-- 
2.43.0


From 922c2f6eec988ba5c36044573a77754ed733728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 12/14] fix: end repetitions and separated lists that read
 nothing

---
 src/meta_rules/repeat.rs      | 2 ++
 src/meta_rules/separate_by.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/meta_rules/repeat.rs b/src/meta_rules/repeat.rs
index 3a6b83e..c9198b0 100644
--- a/src/meta_rules/repeat.rs
+++ b/src/meta_rules/repeat.rs
@@ -53,6 +53,8 @@ impl Repeat {
                 }
                 Ok((range, state, err)) => {
                     update(range, err, &mut read_token, &mut opt_error);
+                    // Repeating a rule that read nothing would never end.
+                    if range.length == 0 { return Ok((read_token.subtract(start), state, opt_error)); }
                     state
                 }
             };
diff --git a/src/meta_rules/separate_by.rs b/src/meta_rules/separate_by.rs
index 3d7457b..1f37f3b 100644
--- a/src/meta_rules/separate_by.rs
+++ b/src/meta_rules/separate_by.rs
@@ -46,6 +46,7 @@ impl SeparateBy {
         let mut first = true;
         let mut opt_error = None;
         loop {
+            let item_offset = read_token.offset;
             state = match self.rule.parse(tokens, &state, &read_token, refs, indent_settings) {
                 Err(err) => {
                     match (first, self.optional, self.allow_trail) {
@@ -77,6 +78,8 @@ impl SeparateBy {
                     state
                 }
             };
+            // Reading the same place again would never end.
+            if read_token.offset == item_offset { break; }
             first = false;
         }
         Ok((read_token.subtract(start), state, opt_error))
-- 
2.43.0


From 9b4e154dc487e097c58f07494dd59bc575cc8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 13/14] fix: end the search for a first byte in left-recursive
 rules

---
 src/optimize.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index 5f55f09..fff9862 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -28,6 +28,12 @@ pub fn unique_table_from_select(select: &Select, refs: &[Rule]) -> ([u8; 256], u
 /// Finds a unique byte from rule that determines whether
 /// the rule will fail if it does not equals the next byte.
 pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
+    first_byte(rule, refs, refs.len())
+}
+
+// Follows at most `nodes` references, since rules that refer to
+// themselves first have no first byte.
+fn first_byte(rule: &Rule, refs: &[Rule], nodes: usize) -> Option<u8> {
     match *rule {
         Rule::Whitespace(_) => None,
         Rule::UntilAny(_) => None,
@@ -37,28 +43,28 @@ pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
         Rule::Optional(_) => None,
         Rule::FastSelect(_) => None,
         Rule::Not(ref not) => {
-            if let Rule::Not(ref r) = not.rule {unique_byte(&r.rule, refs)}
+            if let Rule::Not(ref r) = not.rule {first_byte(&r.rule, refs, nodes)}
             else {None}
         }
         Rule::Text(_) => Some(0x22),
         Rule::Select(ref sel) => {
-            if sel.args.len() == 1 {unique_byte(&sel.args[0], refs)}
+            if sel.args.len() == 1 {first_byte(&sel.args[0], refs, nodes)}
             else {None}
         }
         Rule::SeparateBy(ref sep) => {
             if sep.optional {None}
-            else {unique_byte(&sep.rule, refs)}
+            else {first_byte(&sep.rule, refs, nodes)}
         }
         Rule::Sequence(ref seq) => {
             if seq.args.len() == 0 {None}
-            else {unique_byte(&seq.args[0], refs)}
+            else {first_byte(&seq.args[0], refs, nodes)}
         }
         Rule::Repeat(ref rep) => {
             if rep.optional {None}
-            else {unique_byte(&rep.rule, refs)}
+            else {first_byte(&rep.rule, refs, nodes)}
         }
         Rule::Node(ref node) => {
-            if let Some(index) = node.index {unique_byte(&refs[index], refs)}
+            if let Some(index) = node.index {first_byte(&refs[index], refs, nodes.checked_sub(1)?)}
             else {None}
         }
         Rule::Tag(ref tag) => {
-- 
2.43.0


From 1e2cfdcae61975f0bfbbf4ae2f5f6d124a69be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 14/14] fix: restore the indentation when a block of lines ends

---
 src/meta_rules/lines.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 92acd0a..1ad5cbf 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -75,6 +75,7 @@ impl Lines {
         let mut state = state.clone();
         let mut opt_error = None;
         let mut first = true;
+        let enclosing_indent = indent_settings.indent;
         if self.indent {
             match read_lines(read_token, |read_token| {
                 let offset = read_token.offset;
@@ -137,11 +138,13 @@ impl Lines {
                 }
             }) {
                 Err(range) => {
+                    indent_settings.indent = enclosing_indent;
                     let err = range.wrap(
                         ParseError::ExpectedNewLine(self.debug_id));
                     Err(ret_err(err, opt_error))
                 }
                 Ok(range) => {
+                    indent_settings.indent = enclosing_indent;
                     Ok((range, state, opt_error))
                 }
             }
-- 
2.43.0

