#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from vx import units

def P(id, title, statement, over, text, why, files, mech, obs, hook=None, note=""):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=hook)), note

PS = [
P("C01", "Spans are half-open intervals of locations",
  "For all locations up to the largest 32-bit value, constructing a span and asking for its length, emptiness, whether it contains a location, whether two spans overlap (each begins before the other ends, symmetric) and for the gap between two spans (absent unless one ends strictly before the other begins) agree with half-open interval arithmetic. None of these operations panics or wraps on valid spans, empty ones and ones at the ends of the range included.",
  ["inputs"], "all pairs of valid spans and all locations (32-bit)",
  "The tests sample a handful of small spans; the corner cases are empty spans and spans at 0 and at the maximum.",
  ["src/span.rs"], [("interval operations", "src/span.rs Span::{new,at,len,is_empty,contains,overlaps_with,between}")], ["sneturfahi::Span"]),
P("C02", "A span resolves to exactly its piece of the text",
  "For every text and every span, resolving the span (and the text before and after it) yields exactly the bytes it delineates, and yields nothing exactly when an end lies outside the text, inside a character, or out of order. The piece before, the piece and the piece after put together are the text, and the span computed for any embedded piece resolves back to that piece.",
  ["inputs"], "all texts (any Unicode) and all spans",
  "Tests use a few ASCII texts; the statement is about every text, multi-byte characters and every boundary.",
  ["src/span.rs"], [("slicing", "src/span.rs Span::{slice,slice_after,slice_before,entire_slice,from_embedded_slice}")], ["sneturfahi::Span"]),
P("C03", "Decomposition partitions the text and loses nothing",
  "For every text, the words yielded by decomposition are pieces of the text in their order, do not overlap, and each contains at least one character other than a comma and no separator (pause, whitespace, ? or !). Everything outside the words is separators and commas. Decomposition never panics.",
  ["inputs"], "all texts shorter than 4 GiB",
  "Tests compare about a hundred chosen phrases; losing or duplicating a piece can need a particular combination of word shapes, commas and multi-byte characters.",
  ["src/decompose/mod.rs"], [("chunking and span offsets", "src/decompose/mod.rs Decomposer::next"), ("splitting a chunk", "src/decompose/mod.rs decompose_single")], ["sneturfahi::decompose"]),
P("C04", "Raw and decomposing steps can be interleaved freely",
  "For every text and every interleaving of the decomposing step and the raw (no decomposition) step on one word iterator, each step continues exactly where the previous one stopped: the decomposing step gives the next word of what is left, the raw step gives the untouched remainder of the current chunk, or the next chunk even when it is empty, and both give nothing once the text is used up. The promised bounds on the number of remaining words are true at every point.",
  ["inputs", "histories"], "all texts and all sequences of the two operations",
  "Tests and examples exercise two or three fixed interleavings.",
  ["src/decompose/mod.rs"], [("shared iterator state", "src/decompose/mod.rs Decomposer::{next,next_no_decomposition,size_hint}")], ["sneturfahi::decompose::Decomposer"]),
P("C05", "Commas never change words, classes or tokens",
  "Inserting commas into a text or deleting them, anywhere, does not change the sequence of words (read without commas), the class of any word, or the sequence of tokens, including where quotations end.",
  ["inputs"], "all texts and all placements of commas",
  "Tests place commas in a few words; neutrality must hold at every position in every word shape.",
  ["src/rules.rs", "src/decompose/mod.rs", "src/lex/mod.rs", "src/lex/selmaho/classify.rs"],
  [("comma skipping", "src/rules.rs eat_commas and its uses"), ("trailing commas", "src/decompose/mod.rs decompose_single"), ("comma-free lookup", "src/lex/selmaho/classify.rs transform_for_direct_cmavo_check"), ("delimiter comparison", "src/lex/mod.rs next_delimited_quote")], ["sneturfahi::decompose", "sneturfahi::lex", "Selmaho::classify"]),
P("C06", "Word shapes are recognised as the morphology grammar says",
  "For every string, recognising a name word, a particle shape, a root word, a borrowing or a compound (and how many letters it takes) agrees with the reference morphology grammar, stress, syllables, consonant clusters and lookahead included. Recognition always terminates without panicking, and consumes a prefix of the string in place.",
  ["inputs"], "all strings",
  "Tests check chosen words for a few rules; the grammar has over a hundred mutually recursive rules with lookahead, so wrong answers hide in untested letter combinations.",
  ["src/rules.rs"], [("recognizers", "src/rules.rs (all rules)")], ["Selmaho::classify", "sneturfahi::decompose"], "cfg(sneturfahi_verif) re-export of the recognizers"),
P("C07", "Word boundaries are those of the reference decomposition",
  "For every text, each chunk between separators is split exactly where the reference says: a chunk ending in a consonant is one name word; otherwise a particle or explicitly stressed root-like word is cut off the front when what follows again starts with such a word or is a possible word start, and the rest is one word.",
  ["inputs"], "all texts",
  "Tests list about a hundred phrases with their words; the split depends on unbounded lookahead over arbitrary letter strings.",
  ["src/decompose/mod.rs", "src/rules.rs"], [("falling off of words", "src/decompose/mod.rs decompose_single, post_word, simple_cmevla_check")], ["sneturfahi::decompose"]),
P("C08", "Every word gets the one class the table and grammar give it",
  "For every word (without trailing comma), classification yields the selma'o and the experimental flag that the cmavo table lists for it, reading h as ' and ignoring commas; a word of only y is Y; any other word is a name, an unknown particle, a root word, a borrowing, a compound or plain text, tested in that order by the morphology. Words of any length are classified without panicking.",
  ["inputs"], "all words",
  "Tests look at a few words per class; the table has 1361 entries plus normalisation, length limits and a precedence order.",
  ["src/lex/selmaho/classify.rs", "src/lex/selmaho/mod.rs"], [("table and precedence", "src/lex/selmaho/classify.rs Selmaho::classify"), ("always-experimental classes", "src/lex/selmaho/mod.rs is_fundamentally_experimental")], ["Selmaho::classify"]),
P("C09", "Lexing keeps every piece of the text in order",
  "For every text, the spans of the tokens are pieces of the text, in order and not overlapping, and everything between them (and after the last one, unless an error or an end-of-text word stopped lexing) is separators and commas, also around quotations of any kind and number.",
  ["inputs"], "all texts",
  "Tests fix the token lists of a few dozen texts.",
  ["src/lex/mod.rs", "src/decompose/mod.rs"], [("token emission", "src/lex/mod.rs Lexer::{next,next_normal,next_delimited_quote,next_pause_delimited_quote}")], ["sneturfahi::lex"]),
P("C10", "Quotations follow the delimiter protocol",
  "For every text, after a word that opens a delimited quotation the tokens are exactly: opening delimiter, one token with all the text up to the next raw word equal to that delimiter (commas ignored; no such token when that delimiter is the very next raw word), closing delimiter, and for words that open two quotations the second one continues from that closing delimiter. A word that opens a pause-delimited quotation is followed by one token with the next raw chunk, and all other words become tokens of their own class and flag.",
  ["inputs"], "all texts",
  "Tests cover one or two quotations of each kind; nesting, empty text, repeated delimiters and commas combine without bound.",
  ["src/lex/mod.rs"], [("quote state machine", "src/lex/mod.rs State and Lexer::next_delimited_quote")], ["sneturfahi::lex"]),
P("C11", "Lexing ends properly: errors, end-of-text words, exhaustion",
  "For every text, lexing yields an error exactly when a quotation lacks its delimiter, its end or its text, with the spans of the initiating word and of the unmatched delimiter; after an error, an end-of-text word or the end of the text no further token is ever yielded. Lexing always ends and never panics.",
  ["inputs", "histories"], "all texts, any number of further calls",
  "Tests trigger each error once; exhaustion and error reporting must hold after every prefix of every text.",
  ["src/lex/mod.rs"], [("error states", "src/lex/mod.rs Error, State::Done")], ["sneturfahi::lex"]),
P("C12", "The syntax tree contains every token once, in order",
  "For every token sequence that parses, reading the leaves of the resulting tree from left to right gives exactly the input tokens: none lost, duplicated, invented or reordered, elided terminators and empty constructs included.",
  ["inputs"], "all token sequences",
  "Tests assert that some sentences parse and print a few trees; no test relates a whole tree to its tokens.",
  ["src/parse/cst", "macros/src"], [("generated parsers", "macros (Parse derive), src/parse/cst/rules")], ["sneturfahi::Cst", "TreeNode"]),
P("C13", "Tree nodes summarise exactly the tokens below them",
  "For every node of every tree, its start location is that of the first token below it, its end location that of the last one (both absent exactly when there is none), its experimental flag is set exactly when a token below it is experimental, and visiting its children visits everything below it once, in order.",
  ["inputs"], "all nodes of all trees",
  "Node summaries are generated for over a hundred node types and are not tested for most of them.",
  ["src/parse/tree_node.rs", "macros/src"], [("node summaries", "src/parse/tree_node.rs, macros (TreeNode derive)")], ["TreeNode"]),
P("C14", "Parsing is total",
  "For every token sequence, parsing either returns a tree or an error: it never panics and never loops, and repetition stops when nothing more is consumed.",
  ["inputs"], "all token sequences",
  "Tests parse sentences; totality is about every sequence, including ungrammatical ones.",
  ["src/parse/cst"], [("generated parsers", "macros (Parse derive), src/parse/cst/rules")], ["sneturfahi::Cst::parse"]),
P("C15", "A parse error points at the offending token",
  "For every token sequence that does not parse, the error's location is a suffix of the input, and an error about an unexpected token names exactly the first token of that location (or the end of input when the location is empty).",
  ["inputs"], "all token sequences that do not parse",
  "Tests look at one or two error values.",
  ["src/parse/cst/error.rs", "src/parse/cst/rules/selmaho.rs"], [("error construction", "src/parse/cst/rules/selmaho.rs, src/parse/cst/error.rs")], ["sneturfahi::Cst::parse"]),
P("C16", "The parser accepts exactly the reference grammar",
  "For every token sequence, parsing succeeds exactly when the reference token grammar (ordered choice, lookahead, cuts and repetition as written there) derives the whole sequence, and each construct takes exactly the tokens the reference gives it.",
  ["inputs"], "all token sequences",
  "Tests parse about a thousand sentences; acceptance and extent must agree on every sequence, including ones no one wrote down.",
  ["src/parse/cst/rules"], [("grammar", "src/parse/cst/rules")], ["sneturfahi::Cst::parse"]),
]

NA = {}
NOTES = {}

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in PS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
    checks, na = [], []
    for p, _ in PS:
        i = p["id"]
        if i in units.PROPS:
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                               technique="contract-based deductive verification (Verus) of code extracted from /repo on every run",
                               level="proof", level_note=units.PROPS[i].get("note") or "Every function the property depends on is verified against its contract for all inputs, from the current source. Assumes: " + "; ".join(units.PROPS[i]["assumes"]),
                               theorems=units.PROPS[i].get("theorems", [])))
            if not checks[-1]["theorems"]:
                del checks[-1]["theorems"]
        else:
            na.append(dict(property=i, reason=NA.get(i, "machinery not finished yet")))
    m = dict(version=1, setup_cmd="python3 setup.py",
             hooks=dict(guard="sneturfahi_verif", enable="RUSTFLAGS='--cfg sneturfahi_verif' (only the failing-input search uses it)", source_commits=hooks),
             checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)

main()
