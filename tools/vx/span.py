"""Unit `span`: src/span.rs under contract (C01, C02)."""
from .st import *
from . import extract

# spec vocabulary, independent of the code
SPEC = """
pub open spec fn valid(s: Span) -> bool { s.start <= s.end }
/// s delineates a piece of t: both ends are character boundaries of t, in order
pub open spec fn within(s: Span, t: Str<'_>) -> bool { s.start <= s.end && bnd(t@, s.start as int) && bnd(t@, s.end as int) }
/// that piece
pub open spec fn piece(s: Span, t: Str<'_>) -> Seq<char> { t@.subrange(idx(t@, s.start as int), idx(t@, s.end as int)) }
/// a location belongs to a span
pub open spec fn inside(s: Span, l: u32) -> bool { s.start <= l && l < s.end }
pub open spec fn overlap(a: Span, b: Span) -> bool { a.start < b.end && b.start < a.end }
"""

C = {
    "Span::new": Contract(["$0 <= $1"], [("C01", "$r == (Span { start: $0, end: $1 })"), ("C01", "valid($r)")]),
    "Span::at": Contract(["$0 + $1 <= u32::MAX"], [("C01", "$r.start == $0 && $r.end == $0 + $1"), ("C01", "valid($r)")]),
    "Span::len": Contract(["valid($0)"], [("C01", "$r == $0.end - $0.start")]),
    "Span::is_empty": Contract(["valid($0)"], [("C01", "$r == ($0.start == $0.end)")]),
    "Span::contains": Contract(["valid($0)"], [("C01", "$r == inside($0, $1)")]),
    "Span::overlaps_with": Contract(["valid($0)", "valid($1)"], [("C01", "$r == overlap($0, $1)")]),
    "Span::between": Contract(["valid($0)", "valid($1)"], [
        ("C01", "$r is Some <==> $0.end < $1.start"),
        ("C01", "$r is Some ==> $r->0 == (Span { start: $0.end, end: $1.start })")]),
    "Span::entire_slice": Contract(["blen($0@) <= u32::MAX"], [("C02", "$r.start == 0 && $r.end == blen($0@)")]),
    "Span::from_embedded_slice": Contract(["$0 <= addr($1)", "addr($1) - $0 + blen($1@) <= u32::MAX"],
        [("C02", "$r.start == addr($1) - $0 && $r.end == $r.start + blen($1@)"), ("C02", "valid($r)")]),
    "Span::slice": Contract([], [
        ("C02", "$r is Some <==> within($0, $1)"),
        ("C02", "$r is Some ==> $r->0@ == piece($0, $1) && addr($r->0) == addr($1) + $0.start && blen($r->0@) == $0.end - $0.start")], hints="broadcast use lemma_piece_len;"),
    "Span::slice_after": Contract([], [
        ("C02", "$r is Some <==> bnd($1@, $0.end as int)"),
        ("C02", "$r is Some ==> $r->0@ == $1@.skip(idx($1@, $0.end as int))")]),
    "Span::slice_before": Contract([], [
        ("C02", "$r is Some <==> bnd($1@, $0.start as int)"),
        ("C02", "$r is Some ==> $r->0@ == $1@.take(idx($1@, $0.start as int))")]),
}

LEMMAS = """
// consequences of the contracts, for all spans and texts
pub proof fn C01_overlap_is_symmetric_and_covers(a: Span, b: Span)
  requires valid(a), valid(b)
  ensures overlap(a, b) == overlap(b, a), //@C01
    overlap(a, b) ==> a.end > b.start && b.end > a.start, //@C01
    (exists|l: u32| #[trigger] inside(a, l) && inside(b, l)) ==> overlap(a, b), //@C01
    a.start < a.end && b.start < b.end && overlap(a, b) ==> exists|l: u32| #[trigger] inside(a, l) && inside(b, l), //@C01
    a.end <= b.start || b.end <= a.start ==> !overlap(a, b), //@C01
{
  if a.start < a.end && b.start < b.end && overlap(a, b) {
    let l = if a.start < b.start { b.start } else { a.start };
    assert(inside(a, l) && inside(b, l));
  }
}
/// before + piece + after is the text again
pub proof fn C02_pieces_rebuild_text(s: Span, t: Str<'_>)
  requires within(s, t)
  ensures t@.take(idx(t@, s.start as int)) + piece(s, t) + t@.skip(idx(t@, s.end as int)) == t@, //@C02
{
  lemma_bnd_range(t@, s.start as int); lemma_bnd_range(t@, s.end as int);
  lemma_idx_le(t@, s.start as int, s.end as int);
  assert(t@.take(idx(t@, s.start as int)) + piece(s, t) + t@.skip(idx(t@, s.end as int)) =~= t@);
}
"""


class SpanEv(StEv):
    pass


def build(ast):
    items = extract.module(ast, "span")
    ev = SpanEv([items], C)
    parse_structs(items, {"Span"}, ev)
    out, errs = [], {}
    for q in C:
        ev.emit_or_stub(q, out, errs)
    return ev, out, errs


def text(ev, out):
    return PRE_ST + struct_text(ev, "Span") + SPEC + "\n".join(t for _, t in out) + LEMMAS


PRE_ST = """
#[verifier::external_body]
pub fn panic_() -> ! requires false { unimplemented!() }
pub struct TryErr { }
pub fn res_unwrap<T, E>(r: Result<T, E>) -> (x: T) requires r is Ok ensures x == r->Ok_0 { match r { Ok(x) => x, Err(_) => panic_() } }
#[verifier::external_body]
pub fn u32_try_from(x: usize) -> (r: Result<u32, TryErr>) ensures (r is Ok) == (x <= u32::MAX), r is Ok ==> r->Ok_0 == x { unimplemented!() }
pub fn u32_saturating_sub(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn u32_saturating_add(a: u32, b: u32) -> (r: u32) ensures r == (if a + b <= u32::MAX { (a + b) as u32 } else { u32::MAX }) { if a <= u32::MAX - b { a + b } else { u32::MAX } }
pub fn u32_checked_sub(a: u32, b: u32) -> (r: Option<u32>) ensures a >= b ==> r == Some((a - b) as u32), a < b ==> r is None { if a >= b { Some(a - b) } else { None } }
pub fn u32_checked_add(a: u32, b: u32) -> (r: Option<u32>) ensures a + b <= u32::MAX ==> r == Some((a + b) as u32), a + b > u32::MAX ==> r is None { if a <= u32::MAX - b { Some(a + b) } else { None } }
pub fn u32_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn u32_max(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { b } else { a }) { if a <= b { b } else { a } }
"""


def assemble(ast):
    ev, out, errs = build(ast)
    prelude = open(__file__.rsplit("/", 1)[0] + "/prelude.rs").read()
    src = "use vstd::prelude::*;\nverus! {\n" + prelude + "\n}\npub mod m { use vstd::prelude::*; use super::*; verus! {\nbroadcast use super::grp_span;\n" + text(ev, out) + ev.lit_fns() + "\n} }\nfn main() {}\n"
    return src, [q for q, _ in out if q], errs
