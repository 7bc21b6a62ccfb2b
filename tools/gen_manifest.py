#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run after editing this file."""
import json, os
PARSE = "exhaustive enumeration of rule sets x texts within bounds; each execution of the real parser compared with an explicit-state reference model"
C = [
("C01", "model_checking", PARSE, "Bounded: all rule trees up to 5 nodes over small alphabets, all short texts."),
("C02", "model_checking", PARSE, "As C01; compares the complete event list of every accepted execution."),
("C03", "model_checking", PARSE, "As C01; checks nesting, order, containment and source text on every accepted execution, compares every range with the model, and repeats it at other starting offsets."),
("C04", "model_checking", "exhaustive enumeration of rule sets x texts; plain and optimized form executed and compared with each other and the reference model", "As C01 plus all selections of 2 to 4 (thorough: 5) alternatives over 18 kinds, tables around their size limits, and idempotence of optimize."),
("C05", "model_checking", PARSE, "As C01; the model computes the set of deepest failures, the library's error must be one of them. Which of several equally deep ones is reported is left open."),
("C06", "model_checking", "exhaustive enumeration of rule sets x texts x settings; every execution of the real code must return within a step budget counted at the text-reading seam", "Step budget and output size are bounded, the process is watched for stack, memory and time; loading is run on all small (also left-recursive) sets."),
("C07", "model_checking", "exhaustive enumeration of texts over 1 to 4 byte characters; acceptance compared with a predicate on the text", "Bounded text lengths; the oracle is independent of the reference model."),
("C08", "model_checking", "exhaustive enumeration of line-block rules x settings x texts of lines with all indentations; compared with the reference model, and all call sequences for independence of settings", "Bounded: texts of a few lines over spaces, tabs and short words; nesting to three blocks."),
("C09", "model_checking", "exhaustive enumeration of texts over line breaks, whitespace of 1 to 4 bytes and items; compared with the reference model and a direct predicate on the lines", "Bounded text lengths; item rules from a list of kinds."),
("C10", "model_checking", "exhaustive enumeration of rule trees x layouts, written as text and compiled by the real code; compared with the tree that was written", "All rule trees up to a number of nodes over small vocabularies, all flag combinations, several layouts."),
("C11", "model_checking", "exhaustive enumeration of small texts and of all single and double edits of rule texts; acceptance compared with an independent reader of the meta language", "Bounded edits and lengths; one known finding (time doubles with each comment opened and never closed)."),
("C12", "model_checking", "exhaustive comparison of built-in and self-described rules on rule texts, their edits and small texts; fixed point checked", "The rule texts are the shipped ones plus all enumerated small ones."),
("C13", "model_checking", "exhaustive enumeration of meta data sequences (all balanced trees and all unbalanced sequences up to a length over the meta language's names, plus edits of real ones); result compared with a reference reading", "Bounded sequence length and vocabulary."),
("C14", "model_checking", "exhaustive enumeration of meta data sequences, strings and doubles; every output read back by an independent JSON reader and compared member by member", "All sequences of entries up to a length, every Unicode character, every exponent with a list of fractions."),
("C15", "model_checking", "exhaustive enumeration of texts x error ranges x kinds of error; each report judged by what it must say", "Bounded texts and line lengths; windows of long lines may vary."),
("C16", "model_checking", "explicit-state exploration of the searcher: all lists up to a length x all reachable states x all operations, and all operation histories up to a depth, against a list model", "Bounded lists and histories."),
("C17", "model_checking", "explicit-state exploration of the conversion cursor: all lists up to a length x all positions x all operations and jumps, against a list model", "Bounded lists; differences from earlier to later positions."),
("C18", "model_checking", "exhaustive enumeration of call sequences over a pool of calls, each in a fresh process, and histories containing every longer sequence; results compared with the call alone", "Sequences of three (thorough: four) calls out of a pool of 32."),
("C19", "model_checking", "stateless exploration of thread schedules of the real code under a controlled scheduler, with bounded preemptions", "Scheduling points are the parser's text reads and allocations; up to 2 (thorough: 3) preemptions; sequential consistency."),
("C20", "model_checking", "exhaustive enumeration of texts over the number alphabet and of doubles, midpoints and long digit strings; piece and value compared with an independent scanner and exact integer arithmetic", "Bounded text lengths; digit strings up to 1200 digits."),
("C21", "model_checking", "exhaustive enumeration of strings, escapes and stop sets; reads compared with the reference model, round trips with the original", "Bounded string lengths; every Unicode character and every four-digit escape."),
("C22", "fault_enumeration", "exhaustive enumeration of fault points: every write and every byte of every call, with errors, refusals, retries and short writes", "Bounded outputs (short lists, strings and texts)."),
("C23", "model_checking", "exhaustive enumeration of pairs of files (kinds of files, small rule sets x small texts, small byte strings); compared with compiling and parsing their text", "Files in a scratch directory; runs as root, so unreadable files are stood in for by missing ones and directories."),
]
ALL = ["C%02d" % i for i in range(1, 24)]
m = dict(version=1, setup_cmd="bash build.sh && bash build.sh threads",
  checks=[dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
    evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n) for i, l, t, n in C],
  not_applicable=[dict(property=i, reason="check under construction") for i in ALL if i not in [c[0] for c in C]],
  notes="No hooks in /repo. The checks use an instrumented copy of the read_token crate (harness/read_token, [patch.crates-io]) that counts and schedules text reads; build.sh compares it with the registry's crate.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
