#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Run after editing this file."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
MR = "src/meta_rules/"

p("C01", "A document is accepted exactly when the rules describe it",
  "Parsing a text with a set of rules succeeds if and only if the documented meaning of those rules (README rule table: sequences, first-match selection, optional, not, repeat, separated lists with and without trailing separator, lines, node references, tokens, text, numbers, until-any) reads the whole text from the first to the last byte. A rule that fails leaves no trace: alternatives tried after it see the same input position and the same indentation as if it had never been tried.",
  ["programs", "inputs"], "every rule set without left recursion, every text",
  "About 35 unit tests each run one rule on one hand-written text; composition of rules under backtracking is a product space the tests never enter (no test nests optional/not/separated list/select more than two deep).",
  [MR+"mod.rs", MR+"sequence.rs", MR+"select.rs", MR+"optional.rs", MR+"not.rs", MR+"repeat.rs", MR+"separate_by.rs", MR+"lines.rs", MR+"node.rs", MR+"tag.rs", MR+"until_any.rs", MR+"until_any_or_whitespace.rs", MR+"whitespace.rs", MR+"rule.rs"],
  [("rule dispatch", MR+"rule.rs Rule::parse"), ("end-of-text test", MR+"mod.rs parse_with_indent"), ("position bookkeeping", MR+"mod.rs update, read_token consume/subtract")],
  [("read_token", "remaining input and byte offset", "passed by value through every rule"), ("indent_settings", "current indentation, shared by mutable reference", MR+"indent_settings.rs")],
  ["Result of parse / parse_with_indent"])

p("C02", "Meta data is exactly what the successful reading produced",
  "After a successful parse the output holds, in order, exactly the named values and node starts/ends of the rules that took part in the successful reading, with the documented values (true/false for tokens, inverted where asked, the unescaped string, the number, the raw text), each over the range of text it was read from. Nothing written by an alternative, optional part, repetition or look-ahead that was later abandoned remains, and nothing that took part is missing or duplicated.",
  ["programs", "inputs"], "every rule set without left recursion, every text it accepts",
  "Unit tests check the token list after at most one failing alternative; whether stale entries survive depends on how many nested rules were abandoned at different depths of the output vector.",
  ["src/tokenizer.rs", MR+"node.rs", MR+"tag.rs", MR+"text.rs", MR+"number.rs", MR+"until_any.rs", MR+"until_any_or_whitespace.rs", MR+"optional.rs", MR+"not.rs", MR+"select.rs", MR+"separate_by.rs", MR+"repeat.rs", MR+"lines.rs", MR+"mod.rs"],
  [("truncate-on-write", "src/tokenizer.rs read_data"), ("final truncate", MR+"mod.rs parse_with_indent")],
  [("TokenizerState", "length of the valid prefix of the output vector", "src/tokenizer.rs")],
  ["contents of the output vector after Ok"])

p("C03", "Meta data forms a tree whose ranges point at the source text",
  "Output of a successful parse is properly nested (every node start has its matching end, same name), offsets never run backwards, every range lies inside the text on character boundaries, a node's end range spans its whole source and contains the ranges of everything inside it, and the text under a value's range is the source of that value. Reading the same text at a different starting offset shifts every range by exactly that offset and changes nothing else.",
  ["programs", "inputs"], "every rule set without left recursion, every accepted text, every starting offset",
  "Tests assert the range of single leaf rules at a fixed offset; range arithmetic across nested nodes, lists, lines and indentation (where ranges are recomputed) is never checked as an invariant.",
  [MR+"node.rs", MR+"lines.rs", MR+"sequence.rs", MR+"separate_by.rs", MR+"repeat.rs", MR+"optional.rs", MR+"fast_select.rs", MR+"select.rs"],
  [("start/end node ranges", MR+"node.rs Node::parse"), ("subtract from start", "all composite rules")],
  [], ["Range<MetaData> entries after Ok"])

p("C04", "Optimizing rules never changes what they do",
  "A rule set and its optimized form accept the same texts, produce the same meta data, and on failure report an error at the same place; optimizing twice is the same as once. This holds for every selection, whatever its alternatives start with: shared first characters or first bytes, multi-byte characters, alternatives that can match nothing, the end of the text, and references to other or undefined nodes.",
  ["programs", "inputs"], "every rule set without left recursion, every text",
  "Four unit tests look at two lookup tables and one text; equivalence is a statement about all rule sets and all texts, including end of text and first bytes shared by different characters.",
  ["src/optimize.rs", MR+"fast_select.rs", MR+"select.rs", "src/lib.rs"],
  [("first-byte analysis", "src/optimize.rs unique_byte / unique_table_from_select"), ("table dispatch", MR+"fast_select.rs FastSelect::parse"), ("rewrite", "src/optimize.rs optimize_rule")],
  [("table", "first byte to alternative index, 255 = none", MR+"fast_select.rs")],
  ["parse with Syntax and with Syntax::optimize()"])

p("C05", "A failed parse reports the deepest point of failure",
  "When a parse fails, the returned error is one that really occurred while reading (or 'expected end'), it ends at the furthest text position at which any rule failed outside look-ahead, and the debug id it carries belongs to the rule that failed there. The reported offset always lies inside the text on a character boundary.",
  ["programs", "inputs"], "every rule set without left recursion, every rejected text",
  "Tests check the error of one or two rules in isolation; which of several competing errors survives depends on the order in which nested optional, repeated and selected rules fail.",
  [MR+"mod.rs", MR+"select.rs", MR+"fast_select.rs", MR+"optional.rs", MR+"sequence.rs", MR+"separate_by.rs", MR+"repeat.rs", MR+"lines.rs", MR+"node.rs", "src/parse_error.rs"],
  [("deepest error wins", MR+"mod.rs err_update / ret_err")],
  [("opt_error", "deepest error seen so far", "local in every composite rule")],
  ["Err(Range<ParseError>) of parse"])

p("C06", "Parsing always ends with a result",
  "For every rule set without left recursion and every text, parsing returns Ok or Err after finitely many steps (nesting deeper than the stack allows excepted): it never panics, never loops forever (also not when a repeated or listed rule can match nothing) and never grows the output without reading input. Loading rules (compiling and optimizing them) ends for every rule set, left-recursive ones included.",
  ["programs", "inputs"], "every rule set, every Unicode text, every indentation setting",
  "Tests only contain repetitions of rules that consume input and ASCII texts; non-termination and byte/character slips appear only for particular combinations.",
  [MR+"repeat.rs", MR+"separate_by.rs", MR+"lines.rs", MR+"number.rs", MR+"text.rs", "src/optimize.rs", MR+"mod.rs", MR+"node.rs"],
  [("progress of loops", MR+"repeat.rs, separate_by.rs, lines.rs"), ("undefined reference is an error", MR+"node.rs Node::parse")],
  [], ["return of parse_with_indent / Syntax::optimize"])

p("C07", "Success means every character was read",
  "If parsing reports success then the whole text was read: appending to an accepted text, in any script, something the rules cannot read makes the parse fail. A rule set that matches a text literally, character by character, accepts that text and no proper extension, prefix or same-length variation of it.",
  ["inputs"], "all texts over characters of 1 to 4 bytes in UTF-8",
  "No test parses non-ASCII text to the end, so byte/character confusion in the end-of-text test is invisible to them.",
  [MR+"mod.rs", MR+"tag.rs", MR+"until_any.rs", MR+"until_any_or_whitespace.rs", MR+"whitespace.rs", MR+"fast_select.rs"],
  [("end-of-text test", MR+"mod.rs parse_with_indent")], [], ["Result of parse"])

p("C08", "Indented blocks follow their indentation",
  "A whitespace-sensitive line block reads exactly the lines that belong to it: the first line sets the block's indentation (if aligning is on) but never less than the enclosing one, following lines must be indented equally (a tab covers up to the configured number of spaces), a line indented less ends the block, a line indented more by further spaces is not read by it, and nested blocks need deeper indentation. Blank lines are ignored, a line or alternative that is not read does not influence indentation, and the caller's settings are never changed.",
  ["inputs", "configurations", "programs"], "all arrangements of spaces, tabs, newlines and items; all indentation settings; nested block rules",
  "Five unit tests use a single flat block of numbers; nested blocks, mixed tabs, non-default settings and backtracking across blocks are never run.",
  [MR+"lines.rs", MR+"indent_settings.rs", MR+"rule.rs", MR+"mod.rs"],
  [("indent matching and alignment", MR+"lines.rs Lines::parse (indent branch)"), ("settings copied per parse", MR+"mod.rs parse_with_indent")],
  [("indent", "required column of the current block", MR+"indent_settings.rs"), ("first", "whether the block's first line is being read", MR+"lines.rs")],
  ["Result and meta data of parse_with_indent"])

p("C09", "Line lists separate items by line breaks only",
  "A line list reads its items as long as each starts on a new line: two items on one line are an error, lines holding only whitespace (of any script, with or without carriage returns) are skipped, an item may itself span lines, and the list ends before the first line its item rule cannot read, leaving that line unread. An item that ends by reading a line break allows the next to follow directly.",
  ["inputs", "programs"], "all texts over items, separators, whitespace of 1 to 3 bytes and line breaks; item rules with and without own line breaks",
  "Four unit tests with ASCII digits and newlines; the interplay of blank lines, multi-byte whitespace and multi-line items is unexplored.",
  [MR+"lines.rs"],
  [("line scanning", MR+"lines.rs Lines::parse / read_token lines")], [], ["Result and meta data of parse"])

p("C10", "Compiling rule text yields exactly the rules that were written",
  "For every rule set expressible in the meta language, writing it as text (in any layout, with or without comments, with string constants or literals) and compiling that text yields exactly those rules: same structure, same flags, names and strings, references resolved to the first node of that name, and debug ids numbered from the node's number times 1000 in reading order. Nothing written is silently dropped or changed.",
  ["programs"], "every rule set of the meta language, every layout",
  "Tests compile a handful of rule texts and only run them on one document; flags of rules the document does not exercise are not looked at.",
  ["src/lib.rs", "src/bootstrap/convert.rs", "src/bootstrap/rules.rs", MR+"rule.rs", MR+"mod.rs"],
  [("meta rules", "src/bootstrap/rules.rs rules()"), ("conversion", "src/bootstrap/convert.rs convert"), ("reference update", MR+"rule.rs update_refs")],
  [("strings", "string constants in scope", "src/bootstrap/convert.rs"), ("debug_id", "running number of sub rules in a node", "src/bootstrap/convert.rs")],
  ["Syntax returned by bootstrap::convert / syntax"])

p("C11", "Only well-formed rule text is accepted, everything else is an error",
  "Compiling a text returns rules if and only if the text is a well-formed document of the meta language in which every string constant used is defined and every node number is a finite number whose debug ids fit (number times 1000 at most half the largest machine word); every other text, whatever its characters or numbers, yields an error value located inside the text. Compiling never panics or hangs (nesting deeper than the stack allows excepted).",
  ["inputs"], "every text",
  "One test compiles a malformed comment; malformed or truncated rule text, odd node numbers and undefined names are otherwise never tried.",
  ["src/lib.rs", "src/bootstrap/rules.rs", "src/bootstrap/convert.rs", "src/optimize.rs"],
  [("meta rules", "src/bootstrap/rules.rs rules()"), ("conversion errors", "src/bootstrap/convert.rs convert, src/lib.rs syntax")],
  [], ["Result of syntax / syntax_errstr"])

p("C12", "The meta language describes itself",
  "Reading the shipped self-syntax file with the built-in rules yields rules equal to the built-in ones (up to debug ids), reading it again with those yields the same rules (a fixed point), and on every rule text the built-in and the self-described rules agree on acceptance and on the meta data produced. The shipped older syntax files still load, and the old syntax written in itself equals the old syntax written in the new one.",
  ["inputs", "programs"], "every rule text",
  "The fixed point is only asserted by examples that the test suite does not run, and only for one input (the file itself); agreement on other rule texts is never checked.",
  ["src/bootstrap/rules.rs", "src/bootstrap/convert.rs", "src/lib.rs"],
  [("hard-coded meta rules", "src/bootstrap/rules.rs"), ("self description", "assets/self-syntax.txt")],
  [], ["parse + bootstrap::convert with both rule sets"])

p("C13", "Converting meta data to rules is total and honest",
  "Converting any sequence of meta data to rules ends with rules or an error, never a panic or endless loop. If it succeeds, the input was properly nested, the rules are those described by it, and every part it does not understand is listed among the ignored ranges. Properly nested parts it does not know inside a node, sequence, select, token, text, number, reference, until-any, separated list or repeat are skipped and listed, never a reason to refuse.",
  ["inputs", "fault_sequences"], "every sequence of meta data, in particular every truncation, deletion, duplication, swap or renaming in the meta data of a valid rule set",
  "The only input the tests convert is complete meta data produced by the built-in rules.",
  ["src/bootstrap/convert.rs"],
  [("cursor with ignore", "src/bootstrap/convert.rs Convert::ignore and read_* functions")],
  [("Convert", "remaining meta data and offset", "src/bootstrap/convert.rs"), ("ignored", "ranges of unused meta data", "src/bootstrap/convert.rs")],
  ["Result of bootstrap::convert and its ignored list"])

p("C14", "JSON output is valid and carries everything",
  "Writing properly nested meta data with finite numbers gives, wrapped in braces, a valid JSON document whose members are exactly the meta data in order: names, strings, booleans and numbers read back unchanged, whatever characters they contain. Writing any other slice of meta data still ends without a panic.",
  ["inputs"], "every properly nested meta data sequence; every slice of one; every string",
  "Four unit tests with letters, one level of nesting and three escapes.",
  ["src/json.rs"],
  [("comma and indent bookkeeping", "src/json.rs write"), ("escaping", "src/json.rs write_string")],
  [("first", "whether a comma is due", "src/json.rs"), ("indent", "nesting depth", "src/json.rs")],
  ["bytes written by json::write / write_string"])

p("C15", "Error reports show the right line, column and caret",
  "For every text and every error range in it the report starts with the error message and names the line and column (in characters, from 1) of the start of the range, shows that line (or a window of it containing the place), and puts the caret exactly under that place, with tabs preserved; after a missing-token error it first lists the lines before it, from the last one that is not blank on. The convenience functions that return errors as text return exactly this report, and succeed exactly when the plain ones do.",
  ["inputs"], "every text (line lengths, scripts, line breaks), every range in it, every kind of error",
  "No unit test looks at a formatted report; two integration tests match a substring of the message.",
  ["src/parse_error_handler.rs", "src/parse_error.rs", MR+"mod.rs", "src/lib.rs"],
  [("line table and window", "src/parse_error_handler.rs new / write / write_msg")],
  [("lines", "range and text of each line", "src/parse_error_handler.rs")],
  ["bytes written by ParseErrorHandler::write, write_msg; strings from parse_errstr, syntax_errstr"])

p("C16", "Searching meta data behaves like reading a list",
  "Reading the next value succeeds exactly when the next entry has the requested kind and name, returns its value and moves past it; otherwise it fails at the entry's range and moves nowhere. Searching finds the first later entry of the requested kind, name and value, hands the continuation everything after it, and leaves the searcher itself unchanged; when nothing is left or found the error points at the last entry read.",
  ["histories", "inputs"], "every meta data sequence, every sequence of search operations",
  "Seven tests each perform one or two reads on one document; wrong-kind, wrong-name, exhausted and nested-search histories are not covered.",
  ["src/search/src/lib.rs"],
  [("cursor", "src/search/src/lib.rs Search")],
  [("data", "entries not yet read", "src/search/src/lib.rs"), ("range", "range of the last entry read", "src/search/src/lib.rs")],
  ["results of the Search methods and its public fields"])

p("C17", "The conversion cursor only moves when told, and exactly that far",
  "Each reading operation of the conversion cursor succeeds exactly when the next entry has the requested kind and name, and then describes precisely that entry without moving; skipping describes the next entry or the whole node starting there. Updating with a described range moves to exactly its end, differences and source ranges of two positions, the earlier one first, describe exactly the entries between them, and no sequence of such operations panics.",
  ["histories", "inputs"], "every properly nested or unbalanced meta data sequence, every sequence of cursor operations",
  "The cursor is only exercised indirectly through compiling valid rule texts.",
  ["src/bootstrap/convert.rs"],
  [("cursor arithmetic", "src/bootstrap/convert.rs Convert")],
  [("data", "entries from the cursor on", "src/bootstrap/convert.rs"), ("offset", "index of the cursor", "src/bootstrap/convert.rs")],
  ["results of Convert methods"])

p("C18", "Calls do not influence each other",
  "The result of compiling, optimizing, parsing, formatting or converting depends only on its arguments: any sequence of earlier calls, successful or failed, on the same or other rules and texts, leaves later results unchanged, and using rules does not change them. Parsing appends to the output it is given: earlier entries are never altered or removed, whether the parse succeeds or fails.",
  ["histories"], "every sequence of library calls",
  "Every test makes one or two calls on fresh data; carried-over state would show only in longer histories.",
  ["src/lib.rs", MR+"mod.rs", "src/tokenizer.rs", "src/bootstrap/convert.rs", "src/optimize.rs"],
  [("no shared mutable state", "whole crate"), ("lazily built meta rules", "src/lib.rs syntax"), ("start state is current length", MR+"mod.rs parse_with_indent")],
  [("BOOTSTRAP_RULES", "lazily initialised global", "src/lib.rs")],
  ["results of public functions in call sequences"])

p("C19", "Rules can be shared between threads",
  "Threads that parse, compile or format at the same time, sharing rules or not, each get exactly the result they would get alone, under every interleaving.",
  ["schedules"], "every interleaving of two or three concurrent calls",
  "Tests only assert at compile time that the types may cross threads; no test runs two parses concurrently, and no scheduler explores interleavings.",
  ["src/lib.rs", MR+"mod.rs", MR+"rule.rs", "src/tokenizer.rs"],
  [("immutable shared rules, per-call state", "whole crate")],
  [("BOOTSTRAP_RULES", "lazily initialised global shared by all threads", "src/lib.rs")],
  ["results of parse / syntax in concurrent threads"])

p("C20", "Numbers are read in full and with their value",
  "A number rule reads the longest number-like piece of text at its position; if that is a decimal literal (optional sign, digits, optional fraction, optional exponent) whose value is finite, it succeeds with exactly that piece and the closest double to the literal. Underscores are read as separators only where the rule allows them, anything else is an error at that piece, and no digit string makes it panic or yield infinity or not-a-number.",
  ["inputs"], "every text",
  "Two tests read six short literals whose values are exact; precision, long digit strings, huge exponents and malformed literals are not tried.",
  [MR+"number.rs"],
  [("scan and convert", MR+"number.rs Number::parse")], [], ["Result and meta data of a number rule"])

p("C21", "Strings survive writing and reading",
  "A text rule accepts exactly the quoted strings with valid escapes and yields the unescaped characters, refusing empty ones where asked and pointing at the offending escape otherwise; bare and delimited reads yield precisely the source characters before the first stop character. Every string written as JSON by this library and read back by a text rule is unchanged.",
  ["inputs"], "every string",
  "Three tests with plain letters; no test contains an escape sequence read by a text rule.",
  [MR+"text.rs", MR+"until_any.rs", MR+"until_any_or_whitespace.rs", "src/json.rs"],
  [("unescape", MR+"text.rs Text::parse"), ("escape", "src/json.rs write_string")], [], ["meta data of text rules; json::write_string"])

p("C22", "Write failures are reported, short writes are completed",
  "When the output sink fails at any point while JSON or an error report is being written, the call returns that error and what was written before is a prefix of the full output; when the sink accepts data only in small pieces or asks to retry, the complete output is still delivered, exactly as to a perfect sink.",
  ["fault_sequences"], "every sequence of sink answers (error at any write, short writes, interruptions)",
  "Tests only write into a growing in-memory vector that never fails.",
  ["src/json.rs", "src/parse_error_handler.rs"],
  [("error propagation", "src/json.rs write, src/parse_error_handler.rs write")], [], ["io::Result of json::write, write_string, ParseErrorHandler::write, write_msg; bytes received by the sink"])

p("C23", "Loading from files equals compiling and parsing their text",
  "Loading data with a syntax file and a data file returns exactly the meta data that compiling the syntax text and parsing the data text gives, and panics exactly when one of the files cannot be read as UTF-8 text, the syntax does not compile, or the data does not match. It never returns partial data.",
  ["inputs", "fault_sequences"], "every pair of file contents, missing and unreadable files",
  "The function has no test.",
  ["src/lib.rs", "src/parse_error_handler.rs"],
  [("load", "src/lib.rs load_syntax_data"), ("report and panic", "src/parse_error_handler.rs stderr_unwrap")], [], ["return or panic of load_syntax_data / stderr_unwrap"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
