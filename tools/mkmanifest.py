#!/usr/bin/env python3
"""writes /verif/MANIFEST.json; CLAIMED lists what has a check"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "Verus contracts on functions extracted mechanically from /repo on every run; "
XML = "Postconditions and loop invariants relate every reader/writer to the schema in vf/schema.py; Verus/Z3 discharge every obligation for all element trees and values, no bound. Trusted: vf/prelude.rs specifications of String/Vec/HashMap/xmltree operations, derive(Clone/PartialEq), the extraction steps listed in DESIGN.md; xml text emitter/parser (xml-rs), stack and memory are outside. Failing obligations are replayed by a search against the real library; a function the verifier cannot take is checked by bounded search and reported as such."
CLAIMED = {
 "C08": (V + "reader functions ensure result == dec(element)", "proof", XML),
 "C09": (V + "writer functions ensure tree == enc(value)", "proof", XML),
 "C10": (V + "panic-freedom and termination obligations of every reader", "proof", XML),
}
UT = "Trusted: vf/prelude.rs specifications of String/Vec operations, derive(Clone/Default), the extraction steps listed in DESIGN.md; stack and memory are outside. Failing obligations are replayed by a search against the real library; a function the verifier cannot take is checked by bounded search and reported as such."
CLAIMED["C11"] = (V + "num_str ensures result == show(number), from_num_str ensures result == parse(text), and lemma parse(show(n)) == n", "proof", UT + " Decimal text of a usize is specified concretely; that str::parse::<usize> and usize::to_string follow it is assumed.")
CLAIMED["C14"] = (V + "every listing function ensures its result is the fold over the provision's children that tags each article with its enclosing numbers; paragraph groups likewise", "proof", UT)
CLAIMED["C15"] = (V + "every toc_list_* function ensures its result is the fold over the provision's children that lists each heading with its number path and title", "proof", UT)
CLAIMED["C16"] = (V + "every text function ensures its result is the recursive plain-text fold over the value", "proof", UT)
TX = UT + " The regular expressions are turned into specification functions from the pattern text in the code; that the regex crate agrees is argued from disjoint first sets and compared on random texts every run. The crates kansuji (1..9999) and roman (1..399) are assumed to convert as specified, compared exhaustively every run."
CLAIMED["C12"] = (V + "rendering ensures result == the specified text, parse_article_number ensures result == the specified reading of the text (its regular expressions generated into specification functions), and lemmas reading(text(n)) == n for each unit; panic-freedom of the reader", "proof", TX)
CLAIMED["C13"] = (V + "every table and rendering function ensures result == the style's symbol, parse_item_number ensures result == the specified reading, and lemmas reading(text(n)) == n for each of the 16 styles; panic-freedom of the reader", "proof", TX)
CLAIMED["C17"] = (V + "every builder function ensures that the events of the tree it returns, followed by those of the lines it leaves, equal the events of the lines it was given; loop invariants with a decreasing line count; parse_line_contents ensures result == the specified class of the line (patterns generated from the code)", "proof", UT + " The number texts inside a line go through the functions of C12/C13 (here by their totality only) and are compared on the real library by a search over random texts every run, labelled bounded; so is parse_text's own assembly of the law. str::lines, trim, split at regex matches and slicing at match ends are trusted specifications. Dates before Meiji or impossible dates given to parse_text are outside the domain.")
for i in range(1, 8):
  CLAIMED["C%02d" % i] = (V + "reader == dec, writer == enc for this property's types, and lemma dec(enc(x)) == x", "proof", XML + " The lemma's domain wf: ruby text holds plain strings only, and a sentence/column list of an item is non-empty.")
NA = {}
for i in range(1, 18):
  p = "C%02d" % i
  if p not in CLAIMED: NA[p] = "machinery for this property is not built yet"
if __name__ == "__main__":
  m = dict(version=1, setup_cmd="bash tools/setup.sh",
    checks=[dict(property=p, quick_cmd="python3 vf/check.py %s quick" % p, thorough_cmd="python3 vf/check.py %s thorough" % p, technique=t, level=l, level_note=n) for p, (t, l, n) in sorted(CLAIMED.items())],
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
    notes="No hooks are needed in /repo: the extractor reads private items from the source text. fix: commits are listed in known-findings.txt.")
  json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
