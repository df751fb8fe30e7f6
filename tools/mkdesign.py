#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the table below and seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [
("C01", "all AND/OR/NOT formulas (bracketings, polarities) up to 3 leaves x all objects over 2-3 keys in every member order x all pairs of paths; look-alike pairs; indexes", "formula evaluated on the value tree", "the parse order of members decides when the tree stops; only all orders x all formulas show each early stop", "12 s", "200 s"),
("C02", "44 expressions and merged lists x 16 documents x every one-place rewriting (whitespace, spelling of each character, order, extra member) and uniform combinations", "outcome on the plain text; model", "tests use one layout per document", "5 s", "90 s"),
("C03", "bodies (10 conditions, pairs, polarities) x arrays (all sequences of up to 3 of 8 kinds of elements) x loops beside, nested 2-3 deep, negated", "quantifiers over the value tree", "leaks between elements need a particular sequence of elements", "11 s", "200 s"),
("C04", "all ordered pairs of 20 paths, arithmetic over triples, loop variables, deferred loops and comparisons (pairs, triples) x all value trees of depth 2, both orders", "meaning on the value tree", "slots and deferred positions depend on the order in which fields come", "5 s", "see evidence"),
("C05", "all histories of up to 2 of 29 documents (12 good, 17 bad) x 29 last ones x 52 expression sets; Resets at the start, doubled, unused", "a new matcher", "left-over state needs the right earlier document", "4 s", "60 s"),
("C06", "all lists of up to 4 of 21 expressions, pairs/triples of 46 others, look-alikes, long lists, on 14-49 documents", "each alone; model; disjunction", "merging shares conditions between expressions; combinations explode", "12 s", "see evidence"),
("C07", "all schedules of 2 threads with up to 1 (small: 2) preemptions at statement granularity (thorough: also 3 threads); all pairs of 12 operations and of 7 wide ones under the race detector", "each operation alone", "interleavings", "48 s", "332 s"),
("C08", "all trees up to 3-4 leaves with 2-3 unary nodes, all arrival orders and values; through the matcher, all orders, broken off everywhere", "three-valued evaluation", "early decision is a matter of order", "18 s", "see evidence"),
("C09", "all ordered pairs of 79 operands (values of every type, constants, times, DATE of values), six operators, both ways, both member orders; triples of one type; flags of conjunctions", "type table; laws of order", "a law quantifies over pairs and triples", "2 s", "3 s"),
("C10", "all pairs of about 700 numbers around type boundaries in document and constant of every Go type", "math/big and float64", "boundary pairs", "2 s", "20 s"),
("C11", "all operators and functions over boundary operands (pairs), nested", "math/big, package math", "boundary pairs, overflow", "2 s", "30 s"),
("C12", "all strings over an alphabet in all spellings, pairs, lengths around buffer sizes; keys", "decoded runes", "spelling x position x length", "20 s", "120 s"),
("C13", "all symbol sequences up to 3 (with every seek) and 4; every 2 bytes after 43 beginnings that reach every scanner state; up to 3 through the matcher", "lexer written from RFC 8259", "each scanner state x each byte", "9 s", "150 s"),
("C14", "all symbol sequences, all truncations and byte edits of documents x expressions", "json.Valid, breaking-off rule, liveness", "inputs beyond any sample", "37 s", "see evidence"),
("C15", "all filter texts of small grammar shapes x spellings of operators, paths, literals, functions x spacings", "own meaning of the text on documents", "precedence is about combinations", "22 s", "see evidence"),
("C16", "all pairs of 59 operands in every place, all token sequences, edits, size series", "no panic/hang; accepted texts compile and match", "inputs beyond any sample", "65 s", "413 s"),
("C17", "all formula shapes with parentheses, 4700 condition forms, all token sequences up to 5 (10) / 4 (18), edits, size series", "reference grammar of the simple parser", "as C15", "33 s", "331 s"),
("C18", "760 expressions; 35 replacements at every node; truncations and byte edits; all arrays of up to 3 of 16 elements", "reference reader", "each operand position x each wrong type", "4 s", "30 s"),
("C19", "all objects up to 4 members / depth 4 x 47 key lists x 4 layouts x all buffer sizes", "removal on the parsed text", "interplay of neighbours, commas and depth", "6 s", "42 s"),
("C20", "all symbol sequences up to 5; all cuts and byte edits of 300 objects; all buffer sizes", "source, keys and surrounding bytes unchanged; error rule; result", "memory effects at every size", "10 s", "100 s"),
("C21", "all formulas with constants of up to 3 leaves, in loops too, x 66 documents; about 400 conditions of all kinds, twins", "original expression; model", "each simplification rule in each context", "20 s", "see evidence"),
("C22", "AND/OR/ANY formulas of up to 3 leaves, lists, sequences of documents; all small arrays; all pairs of values", "the two matchers against each other", "differential over all combinations", "30 s", "200 s"),
("C23", "every day of 200 years, every minute/second/zone offset, edits of texts, all pairs", "own calendar", "full calendar", "16 s", "60 s"),
("C24", "all patterns of up to 2-3 parts x all strings of up to 2-3 characters in all spellings", "own matcher", "pattern x spelling", "11 s", "100 s"),
("C25", "all histories of up to 4 (5) of 11 operations on 111 lists; conversions x strange values; read-only memory; removal of items x lists of keys", "deep dump before and after", "mutation shows up only in what is done later", "14 s", "see evidence"),
("C26", "all conditions over pairs of 11 operands, formulas of up to 3, loops nested up to 4, carrying the counts of their parts; corpus; series", "counts and words composed beside the expression; texts of a set pairwise distinct; recompilation; the printed definition against the definition", "each kind of expression inside each other", "4 s", "see evidence"),
]
WIDER = {
 "c15-second-index": "C15: all spellings of paths (fePaths)",
 "c16-regex-function": "C16: 59 kinds of operands in every argument place",
 "c17-number-after-function": "C17: trees of functions with all kinds of arguments",
 "c21-dedupe": "twins.go: conditions that look alike",
 "c25-comma-date": "C25: conversions of strange values",
}
WIDER.update(json.load(open(V + "/tools/missed.json")))
rows = "\n".join("| %s | %s | %s | %s | %s | %s |" % r for r in T)
s = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = f.split("/")[-2]
    s.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], WIDER.get(n, "")))
tab = "| change | caught by | needs | missed first; widened |\n|---|---|---|---|\n" + "\n".join(s)
d = open(V + "/tools/design.md").read().replace("@@TABLE@@", rows).replace("@@SEEDED@@", tab)
open(V + "/DESIGN.md", "w").write(d)
