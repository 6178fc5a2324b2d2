"""Which generated units decide which property, and which failed clauses count for it."""
import os
from . import extract

SPEC = os.path.join(extract.VERIF, "spec")

STD = [
    "std contracts are assumed: str (as_ptr, len, split_at, slicing, get, chars, contains, trim_*), Option/Vec/iterator adapters as modelled in tools/vx/prelude.rs",
    "an allocation does not wrap around the address space; str slices of one text share its base address",
    "stack and time are unbounded (deep recursion and exponential backtracking on pathological inputs are not excluded)",
]
EXTR = ["the extraction (tools/vx: macro expansion, beta-reduction of closures, erasure of shared references, log output and the debug nesting counter dropped) preserves meaning"]
REF = ["the reference grammar spec/morph.peg is the intended morphology and the reference table spec/selmaho.txt is the intended word list"]

CST = [
    "nom 7.1.1 is modelled as read: many0/many1/many_till are loops that stop at a recoverable error and fail when an element takes nothing; alt tries its parsers in order and folds their errors with the crate's `or`; opt and not pass failures on; cut makes errors failures; finish strips the wrapper",
    "a token slice handed to a parser is a suffix of the input and stands for its offset (address comparison of suffixes is offset comparison); arena allocation is the identity",
    "derived PartialEq on Token is structural; the list of expected selmaho, log output and the nesting counter are not modelled",
]
LEAVES = ["the leaves of a node are defined by its fields in declaration order"]

PROPS = {
    "C01": dict(units={"span": {"C01"}}, assumes=EXTR),
    "C02": dict(units={"span": {"C02"}}, assumes=STD + EXTR),
    "C03": dict(units={"decompose": {"C03"}, "rules": {"shape"}, "span": {"C02"}}, assumes=STD + EXTR),
    "C04": dict(units={"decompose": {"C03", "C04"}, "rules": {"shape"}, "span": {"C02"}}, assumes=STD + EXTR),
    "C07": dict(units={"decompose": {"C03", "C07"}, "rules": {"conf", "shape"}, "span": {"C02"}}, assumes=STD + EXTR + ["the reference grammar spec/morph.peg is the intended morphology"]),
    "C08": dict(units={"classify": {"C08"}, "rules": {"conf", "shape"}}, assumes=STD + EXTR + ["the reference grammar spec/morph.peg is the intended morphology and the reference table spec/selmaho.txt is the intended word list", "string literals of the word table are compared by number; the numbering is injective by construction",
        "std's UTF-8: an ASCII character is its byte, any other is 2 to 4 bytes from 128 up; from_utf8 inverts encoding"]),
    "C05": dict(units={"lexer": {"C05"}, "decompose": {"C05"}, "classify": set(), "rules": set(), "span": set()}, assumes=STD + EXTR + REF),
    "C09": dict(units={"lexer": {"C09"}, "decompose": {"C03", "C04"}, "classify": set(), "rules": {"shape"}, "span": {"C02"}}, assumes=STD + EXTR),
    "C10": dict(units={"lexer": {"C10"}, "decompose": {"C03", "C04"}, "classify": set(), "rules": {"shape"}, "span": {"C02"}}, assumes=STD + EXTR + REF),
    "C11": dict(units={"lexer": {"C11"}, "decompose": {"C03", "C04"}, "classify": set(), "rules": {"shape"}, "span": {"C02"}}, assumes=STD + EXTR),
    "C12": dict(units={"cst": {"C12"}}, assumes=EXTR + CST + LEAVES),
    "C13": dict(units={"cst": {"C13"}}, assumes=EXTR + CST + LEAVES + ["a lone AnyText or ZoiDelimiter token (the text of a quote) is never experimental (established by the lexer)", "a tree node's methods call each other on strictly smaller parts (derived from the types: a value does not contain itself)"]),
    "C14": dict(units={"cst": {"C14"}}, assumes=EXTR + CST + ["stack and time are unbounded (deep recursion on very long inputs and exponential backtracking are not excluded)"]),
    "C15": dict(units={"cst": {"C15"}}, assumes=EXTR + CST),
    "C16": dict(units={"cst": {"C16"}}, assumes=EXTR + CST + ["the reference token grammar spec/cst.peg is the intended one; its rules have the least-fixpoint meaning (checked free of left recursion and of repetition of the empty sequence)"]),
    "C06": dict(units={"rules": {"conf", "shape"}}, assumes=STD + EXTR + ["the reference grammar spec/morph.peg is the intended morphology"]),
}


SHARDED = {"cst"}


def shards(u, ast, prop):
    from . import cstgen
    g = cstgen.CstGen(ast)
    return g, g.shards(prop)


def assemble(u, ast):
    if u == "rules":
        from . import rules, peg
        items = extract.module(ast, "rules")
        ev = rules.RulesEv(items, peg.Grammar(peg.load(os.path.join(SPEC, "morph.peg"))))
        rs, lf, errs = ev.build()
        return rules.assemble(ev, rs, lf), [n for n, _ in rs if n] + [x[0] for x in lf], errs
    import importlib
    return importlib.import_module("vx." + u).assemble(ast)


def counts(prop, P, unit, f):
    """does failed obligation f of this unit count against the property?"""
    if f["tag"] is None or f["tag"] == "all":
        return True       # calls outside a contract, overflow, termination, untagged clauses
    return bool(set(f["tag"].split(",")) & P["units"][unit])
