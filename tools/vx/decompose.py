"""Unit `decompose`: src/decompose/mod.rs under contract (C03, C04, C05, C07).  The recognizers of
src/rules.rs enter through their contracts (verified in unit `rules`), Span through unit `span`."""
import os
import re
from .st import *
from . import extract, peg, span

SEPS = ".\t\n\r?! "
CONS = "bcdfgjklmnprstvxz"


def _any(v, chars):
    return " || ".join(f"{v} == {peg.chlit(c)}" for c in chars)


SPEC = """
// ---- reference semantics, on the text without commas ----
pub open spec fn issep(c: char) -> bool { %s }
pub open spec fn is_cons(c: char) -> bool { %s }
/// what is left after a word falls off the front
pub open spec fn falls(t: Seq<char>) -> Option<Seq<char>> {
  match p_cmavo_minimal(t) { Some(r) => Some(r), None => p_explicitly_stressed_brivla_minimal(t) }
}
/// a word may start here
pub open spec fn pw(t: Seq<char>) -> bool {
  p_nucleus(t) is None && (p_gismu(t) is Some || p_fuhivla(t) is Some || p_lujvo_minimal(t) is Some || p_cmavo_minimal(t) is Some)
}
pub open spec fn dec0(t: Seq<char>) -> Seq<Seq<char>> decreases t.len() {
  if t.len() == 0 { Seq::empty() } else { match falls(t) {
    None => seq![t],
    Some(r0) => if r0.len() >= t.len() { seq![t] } else {
      let n = t.len() - r0.len(); let r = t.skip(n);
      if falls(r) is Some || pw(r) { seq![t.take(n)] + dec0(r) } else { seq![t] } },
  } }
}
/// the words of a chunk
pub open spec fn dec(t: Seq<char>) -> Seq<Seq<char>> { if t.len() > 0 && is_cons(t.last()) { seq![t] } else { dec0(t) } }

/// end of the chunk that contains (or ends at) position i
pub open spec fn cend(t: Seq<char>, i: int) -> int decreases t.len() - i {
  if 0 <= i < t.len() && !issep(t[i]) { cend(t, i + 1) } else { i }
}
pub open spec fn letters(t: Seq<char>, i: int, j: int) -> bool { exists|k: int| i <= k < j && #[trigger] t[k] != ',' }
pub open spec fn noise(t: Seq<char>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> #[trigger] t[k] == ',' || issep(t[k]) }
/// where the next word starts, looking from position i
pub open spec fn first(t: Seq<char>, i: int) -> Option<int> decreases t.len() - i {
  if i < 0 || i > t.len() { None }
  else if letters(t, i, cend(t, i)) { Some(i) }
  else if i <= cend(t, i) < t.len() { first(t, cend(t, i) + 1) } else { None }
}
pub open spec fn nextchunk(t: Seq<char>, i: int) -> Option<int> { if cend(t, i) < t.len() { Some(cend(t, i) + 1) } else { None } }
/// position after taking a word that ends at e
pub open spec fn after(t: Seq<char>, e: int) -> Option<int> { if letters(t, e, cend(t, e)) { Some(e) } else { nextchunk(t, e) } }
pub open spec fn first_o(t: Seq<char>, p: Option<int>) -> Option<int> { match p { Some(i) => first(t, i), None => None } }
/// number of words from p on
pub open spec fn nleft(t: Seq<char>, p: Option<int>) -> nat decreases (match p { Some(i) => t.len() - i + 1, None => 0 }) {
  match p {
    Some(i) => if 0 <= i <= t.len() && i <= cend(t, i) { dec(strip(t.subrange(i, cend(t, i)))).len() + nleft(t, nextchunk(t, i)) } else { 0 },
    None => 0 }
}

// ---- spans over a text ----
pub open spec fn pc(t: Seq<char>, a: int, b: int) -> Seq<char> { t.subrange(idx(t, a), idx(t, b)) }
/// v covers the bytes from a to b without gap, in order, every span a piece with a letter in it
#[verifier::opaque]
pub open spec fn chain(t: Seq<char>, v: Seq<Span>, a: int, b: int) -> bool decreases v.len() {
  if v.len() == 0 { a == b } else {
    let s = v.last();
    s.start < s.end && s.end == b && bnd(t, s.start as int) && bnd(t, s.end as int) && strip(pc(t, s.start as int, s.end as int)).len() > 0 && ntcs(pc(t, s.start as int, s.end as int)) && chain(t, v.drop_last(), a, s.start as int)
  }
}
/// the words v delineates, without commas
#[verifier::opaque]
pub open spec fn wv(t: Seq<char>, v: Seq<Span>) -> Seq<Seq<char>> decreases v.len() {
  if v.len() == 0 { Seq::empty() } else { wv(t, v.drop_last()).push(strip(pc(t, v.last().start as int, v.last().end as int))) }
}
#[verifier::opaque]
pub open spec fn ag(full: Seq<Seq<char>>, done: Seq<Seq<char>>, todo: Seq<Seq<char>>) -> bool { full == done + todo }
/// v are the words of chunk t
pub open spec fn dec_is(t: Seq<char>, v: Seq<Seq<char>>) -> bool { if t.len() > 0 && is_cons(t.last()) { v == seq![t] } else { ag(dec0(t), v, Seq::empty()) } }
/// text without its trailing commas
pub open spec fn tc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == ',' { tc(s.drop_last()) } else { s } }
/// x is the part of T from x's position up to T's end, trailing commas dropped
#[verifier::opaque]
pub open spec fn at(T: Str<'_>, x: Str<'_>) -> bool {
  ntc(x) && addr(T) <= addr(x) && bnd(T@, addr(x) - addr(T)) && idx(T@, addr(x) - addr(T)) <= tc(T@).len() && x@ == tc(T@).skip(idx(T@, addr(x) - addr(T)))
}
pub open spec fn letters_of(c: Seq<char>) -> bool { exists|j: int| 0 <= j < c.len() && #[trigger] c[j] != ',' }
/// c is the chunk of T at character i, n what follows the separator after it
#[verifier::opaque]
pub open spec fn chunk_at(T: Str<'_>, c: Str<'_>, n: Option<Str<'_>>, i: int) -> bool {
  0 <= i <= cend(T@, i) <= T@.len() && addr(c) - addr(T) == blen(T@.take(i)) && c@ == T@.subrange(i, cend(T@, i))
  && match n { None => cend(T@, i) == T@.len(), Some(m) => cend(T@, i) < T@.len() && src(m) == src(T) && pos(m) == pos(T) + cend(T@, i) + 1 }
}
#[verifier::opaque]
pub open spec fn shifted(v: Seq<Span>, w: Seq<Span>, off: int) -> bool {
  v.len() == w.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] w[k]).start == v[k].start + off && w[k].end == v[k].end + off
}
""" % (_any("c", SEPS), _any("c", CONS + CONS.upper()))

LEMMAS = open(os.path.join(os.path.dirname(__file__), "decompose.rs")).read()

# assumed contracts of std used only here
STDX = """
pub open spec fn trimmed(s: Str<'_>, r: Str<'_>, c: char) -> bool {
  r@.len() <= s@.len() && r@ == s@.take(r@.len() as int) && (r@.len() > 0 ==> r@.last() != c) && (forall|j: int| r@.len() <= j < s@.len() ==> #[trigger] s@[j] == c)
  && addr(r) == addr(s) && src(r) == (Src { text: r@, base: addr(s) }) && pos(r) == 0
}
pub open spec fn lowerc(c: char) -> char { %s c %s }
#[verifier::external_body]
pub fn char_to_ascii_lowercase(c: char) -> (r: char) ensures r == lowerc(c) { unimplemented!() }
#[verifier::external_body]
pub fn char_to_ascii_uppercase(c: char) -> (r: char) ensures lowerc(r) == lowerc(c) { unimplemented!() }
impl<'a> Str<'a> {
  #[verifier::external_body]
  pub fn trim_end_char(self, c: char) -> (r: Str<'a>) ensures trimmed(self, r, c) { unimplemented!() }
  #[verifier::external_body]
  pub fn chars_rev_find<F: Fn(char) -> bool>(self, f: F) -> (r: Option<char>)
    requires forall|c: char| f.requires((c,))
    ensures match r {
      Some(c) => exists|k: int| 0 <= k < self@.len() && #[trigger] self@[k] == c && f.ensures((c,), true) && (forall|j: int| k < j < self@.len() ==> f.ensures((#[trigger] self@[j],), false)),
      None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false) }
  { unimplemented!() }
  /// bytes().all(f): an ASCII character is one byte, any other one several bytes from 128 up
  #[verifier::external_body]
  pub fn bytes_all<F: Fn(u8) -> bool>(self, f: F) -> (r: bool)
    requires forall|c: u8| f.requires((c,))
    ensures r ==> forall|j: int| #![trigger self@[j]] 0 <= j < self@.len() ==> exists|b: u8| f.ensures((b,), true) && #[trigger] byte_of(self@[j], b),
      !r ==> exists|j: int, b: u8| 0 <= j < self@.len() && f.ensures((b,), false) && #[trigger] byte_of(self@[j], b)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn chars_find<F: Fn(char) -> bool>(self, f: F) -> (r: Option<char>)
    requires forall|c: char| f.requires((c,))
    ensures match r {
      Some(c) => exists|k: int| 0 <= k < self@.len() && #[trigger] self@[k] == c && f.ensures((c,), true) && (forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] self@[j],), false)),
      None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn bytes_any<F: Fn(u8) -> bool>(self, f: F) -> (r: bool)
    requires forall|c: u8| f.requires((c,))
    ensures !r ==> forall|j: int| #![trigger self@[j]] 0 <= j < self@.len() ==> exists|b: u8| f.ensures((b,), false) && #[trigger] byte_of(self@[j], b),
      r ==> exists|j: int, b: u8| 0 <= j < self@.len() && f.ensures((b,), true) && #[trigger] byte_of(self@[j], b)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn chars_any<F: Fn(char) -> bool>(self, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures !r ==> forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false),
      r ==> exists|j: int| 0 <= j < self@.len() && f.ensures((#[trigger] self@[j],), true)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn chars_all<F: Fn(char) -> bool>(self, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures r ==> forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), true),
      !r ==> exists|j: int| 0 <= j < self@.len() && f.ensures((#[trigger] self@[j],), false)
  { unimplemented!() }
}
pub open spec fn byte_of(c: char, b: u8) -> bool { if (c as u32) < 128 { b as u32 == c as u32 } else { b >= 128 } }
/// std's Peekable<Split<'_, fn(char) -> bool>> over the separators: the not yet split off remainder
#[verifier::external_body]
pub struct Chunks<'a> { i: std::str::Chars<'a> }
impl<'a> Chunks<'a> {
  pub uninterp spec fn rem(&self) -> Option<Str<'a>>;
  #[verifier::external_body]
  pub fn split<F: Fn(char) -> bool>(s: Str<'a>, f: F) -> (r: Chunks<'a>)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == issep(c)
    ensures r.rem() == Some(s)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<Str<'a>>)
    ensures match old(self).rem() { None => r is None && final(self).rem() is None, Some(s) => r is Some && chunk(s, r->0, final(self).rem()) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn peek(&mut self) -> (r: Option<Str<'a>>)
    ensures final(self).rem() == old(self).rem(), r is Some == old(self).rem() is Some, r is Some ==> exists|n: Option<Str<'a>>| chunk(old(self).rem()->0, r->0, n)
  { unimplemented!() }
}
/// c is the first chunk of s, n what follows the separator after it
#[verifier::opaque]
pub open spec fn chunk(s: Str<'_>, c: Str<'_>, n: Option<Str<'_>>) -> bool {
  addr(c) == addr(s) && c@ == s@.take(cend(s@, 0))
  && match n { None => cend(s@, 0) == s@.len(), Some(m) => cend(s@, 0) < s@.len() && src(m) == src(s) && pos(m) == pos(s) + cend(s@, 0) + 1 }
}
/// std's vec::IntoIter<Span>
#[verifier::external_body]
pub struct WordIter { v: Vec<Span> }
impl View for WordIter { type V = Seq<Span>; uninterp spec fn view(&self) -> Seq<Span>; }
impl WordIter {
  #[verifier::external_body]
  pub fn new(v: Vec<Span>) -> (r: WordIter) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<Span>)
    ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
""" % ("".join(f"if c == '{chr(65+i)}' {{ '{chr(97+i)}' }} else {{ " for i in range(26)), "}" * 26)

STATE = """
// ---- the word iterator ----
pub open spec fn ce(d: Decomposer<'_>) -> int { match d.chunks.rem() { Some(r) => addr(r) - addr(d.input) - 1, None => blen(d.input@) as int } }
/// w are the words left of the chunk that ends at byte e, starting at byte a
#[verifier::opaque]
pub open spec fn wellw(t: Seq<char>, w: Seq<Span>, e: int) -> bool {
  let a = w[0].start as int; let b = w.last().end as int;
  w.len() > 0 && e <= blen(t) && chain(t, w, a, b) && bnd(t, a) && bnd(t, e) && a < b <= e && cend(t, idx(t, a)) == idx(t, e) && (forall|k: int| idx(t, b) <= k < idx(t, e) ==> t[k] == ',')
  && wv(t, w) == dec(strip(t.subrange(idx(t, a), idx(t, e))))
}
pub open spec fn wf(d: Decomposer<'_>) -> bool {
  blen(d.input@) <= u32::MAX && (d.chunks.rem() is Some ==> src(d.input) == src(d.chunks.rem()->0) && pos(d.input) <= pos(d.chunks.rem()->0)) && (d.current_chunk@.len() > 0 ==> wellw(d.input@, d.current_chunk@, ce(d)) && (d.chunks.rem() is Some ==> pos(d.chunks.rem()->0) > pos(d.input)))
}
/// position of the first character not yet given out; None when there is nothing left
pub open spec fn pend(d: Decomposer<'_>) -> Option<int> {
  if d.current_chunk@.len() > 0 { Some(idx(d.input@, d.current_chunk@[0].start as int)) }
  else { match d.chunks.rem() { Some(r) => Some(pos(r) - pos(d.input)), None => None } }
}
pub open spec fn rlen(d: Decomposer<'_>) -> int { match d.chunks.rem() { Some(r) => r@.len() as int + 1, None => 0 } }
"""

OUTIN = "$n0.input == $o0.input"
C = {
    "split_or_trim_condition": Contract([], [("C07", "$r == issep($0)")], generics=""),
    "is_consonant": Contract([], [("C07", "$r == is_cons($0)")], generics=""),
    "simple_cmevla_check": Contract([], [("C07", "$r == (strip($0@).len() > 0 && is_cons(strip($0@).last()))")], hints="broadcast use {lemma_strip_last, lemma_strip_none};"),
    "post_word": Contract(["ntc($0)"], [("C07", "$r == pw(strip($0@))")]),
    "decompose_single": Contract(["blen($0@) <= u32::MAX"], [
        ("C03", "chain($0@, $r@, 0, if $r@.len() == 0 { 0 } else { $r@.last().end as int })"),
        ("C03", "$r@.len() == 0 ==> forall|k: int| 0 <= k < $0@.len() ==> $0@[k] == ','"),
        ("C03", "$r@.len() > 0 ==> $r@[0].start == 0 && $r@.last().end <= blen($0@) && bnd($0@, $r@.last().end as int) && (forall|k: int| idx($0@, $r@.last().end as int) <= k < $0@.len() ==> $0@[k] == ',')"),
        ("C07", "dec_is(strip($0@), wv($0@, $r@))")],
        attrs="#[verifier::loop_isolation(false)]\n"),
    "Decomposer::slice_to_span": Contract(["addr($0.input) <= addr($1)", "addr($1) - addr($0.input) + blen($1@) <= u32::MAX"],
        [("C03", "$r.start == addr($1) - addr($0.input) && $r.end == $r.start + blen($1@)")]),
    "Decomposer::new": Contract(["blen($0@) <= u32::MAX"], [("C03", "wf($r) && $r.input == $0 && pend($r) == Some(0int)")]),
    "decompose": Contract(["blen($0@) <= u32::MAX"], [("C03", "wf($r) && $r.input == $0 && pend($r) == Some(0int)")]),
    "Decomposer::next": Contract(["wf(*$0)"], [
        ("C03", "wf($n0) && " + OUTIN),
        ("C03", "$r is None <==> first_o($o0.input@, pend($o0)) is None"),
        ("C03", "$r is None ==> pend($n0) is None"),
        ("C03", "$r is Some ==> within($r->0, $o0.input) && idx($o0.input@, $r->0.start as int) == first_o($o0.input@, pend($o0))->0"),
        ("C03", "$r is Some ==> strip(piece($r->0, $o0.input)).len() > 0"),
        ("C05", "$r is Some ==> ntcs(piece($r->0, $o0.input))"),
        ("C03", "$r is Some ==> idx($o0.input@, $r->0.end as int) <= cend($o0.input@, idx($o0.input@, $r->0.start as int))"),
        ("C04", "$r is Some ==> pend($n0) == after($o0.input@, idx($o0.input@, $r->0.end as int))"),
        ("C07", "$r is Some ==> ({ let t = $o0.input@; let j = idx(t, $r->0.start as int); strip(piece($r->0, $o0.input)) == dec(strip(t.subrange(j, cend(t, j))))[0] })"),
    ], attrs="#[verifier::loop_isolation(false)]\n"),
    "Decomposer::next_no_decomposition": Contract(["wf(*$0)"], [
        ("C04", "wf($n0) && " + OUTIN),
        ("C04", "$r is None <==> pend($o0) is None"),
        ("C04", "$r is None ==> pend($n0) is None"),
        ("C04", "$r is Some ==> within($r->0, $o0.input) && idx($o0.input@, $r->0.start as int) == pend($o0)->0"),
        ("C04", "$r is Some ==> idx($o0.input@, $r->0.end as int) == cend($o0.input@, pend($o0)->0)"),
        ("C04", "$r is Some ==> pend($n0) == nextchunk($o0.input@, pend($o0)->0)"),
    ]),
    "Decomposer::size_hint": Contract(["wf(*$0)"], [
        ("C04", "$r.0 <= nleft($0.input@, pend(*$0))"),
        ("C04", "$r.1 is Some ==> nleft($0.input@, pend(*$0)) <= $r.1->0")]),
}


class DecEv(StEv):
    lifetimes = ("Decomposer",)
    noncopy = (("Struct", "Decomposer"),)

    def __init__(self, mods, contracts, grammar, **kw):
        super().__init__(mods, contracts, **kw)
        self.g = grammar
        self.used_rules = set()

    def qual(self, e):
        segs = [s["id"] for s in e["path"]]
        if len(segs) >= 2 and segs[-2] == "rules":
            return "rules::" + segs[-1]
        return super().qual(e)

    def contract_fn(self, name):
        if name.startswith("rules::"):
            n = name[7:]
            if n in self.g.rules:
                self.used_rules.add(n)
                return ("r_" + n, [STR], Opt(Tup(STR, STR)))
            raise Unsupported(f"recognizer {n} has no contract")
        return super().contract_fn(name)

    def find_item(self, q):
        if q.startswith("rules::"):
            return None, None
        return super().find_item(q)

    # ---- predicates handed to std adapters
    def pred(self, a, env, fr, ty, more=()):
        f = self.static_arg(a, env, fr)
        if isinstance(f, FnRef) and not more:
            c = self.contract_fn(f.name)
            if c and len(c[1]) == 1:
                return c[0]
        ch = self.fresh("ch")
        ts = []
        for g in [f] + [self.static_arg(m, env, fr) for m in more]:
            t, _ = self.inline_value(g, [Val(ch, ty)], fr)
            ts.append(flatten(t))
        t = ts[0] if len(ts) == 1 else " && ".join(f"({x})" for x in ts)
        if "let " in t and re.search(r"\w\(|\bmut\b|\breturn\b|\bloop\b", t.replace(".contains_char(", "")):
            raise Unsupported("predicate closure too complex: " + t)
        spec = re.sub(r"(lit_\d+\(\))\.contains_char\(", r"has(\1@, ", t)
        if "let " in spec:
            spec = "{ " + spec + " }"
        return f"|{ch}: {ty[0]}| -> (b: bool) ensures b == ({spec}) {{ {t} }}"

    def ev_mcall(self, e, env, fr, k, want):
        name, r = e["name"], e["recv"]
        # s.chars().rev().find(p), s.bytes().all(p), s.chars().filter(q).last(), ... by the adapters' definitions
        if name in ("find", "rfind", "all", "any", "next", "next_back", "last"):
            preds, back, x = [], name in ("rfind", "last", "next_back"), r
            while x["k"] == "mcall" and (x["name"] == "rev" or x["name"] == "filter"):
                if x["name"] == "rev":
                    back = not back
                else:
                    preds.insert(0, x["args"][0])
                x = x["recv"]
            if x["k"] == "mcall" and x["name"] in ("chars", "bytes") and (preds or e["args"] or (name == "last" and x["name"] == "chars")):
                src, ch = x["recv"], x["name"] == "chars"
                if name in ("all", "any") and preds:
                    raise Unsupported(f"{name} after filter")
                preds = preds + e["args"]
                fn = {True: "chars_", False: "bytes_"}[ch] + (name if name in ("all", "any") else "rev_find" if back else "find")
                if fn.startswith("bytes_") and "find" in fn:
                    raise Unsupported(fn)

                def got(v):
                    if v.ty != STR:
                        raise Unsupported(f"{fn} on {v.ty}")
                    p = self.pred(preds[0], env, fr, CHAR if ch else ('u8',), preds[1:]) if preds else "|c: char| -> (b: bool) ensures b == (true) { true }"
                    return self.bind(f"{v.code}.{fn}({p})", Opt(CHAR) if "find" in fn else BOOL, k)
                return self.ev(src, env, fr, got)
        if name == "for_each" and r["k"] == "mcall" and r["name"] == "iter_mut" and e["args"][0]["k"] == "closure":
            c = e["args"][0]
            return self.ev_for({"k": "for", "pat": c["params"][0], "e": r, "body": c["body"]}, env, fr, k, want)
        if name == "collect" and r["k"] == "mcall" and r["name"] == "map":
            return self.map_collect(r, env, fr, k, want)
        if name == "len" and r["k"] == "mcall" and r["name"] == "as_slice":
            return self.ev(r["recv"], env, fr, lambda v: k(Val(f"{v.code}.len()", USIZE)))
        return super().ev_mcall(e, env, fr, k, want)

    def opt_method(self, v, name, e, env, fr, k):
        if name in ("map_or", "is_some_and"):
            f = e["args"][-1]
        return super().opt_method(v, name, e, env, fr, k)

    def method(self, v, name, e, env, fr, k):
        if not isinstance(v, Val):
            return None
        a = e["args"]
        if v.ty and v.ty[0] == "Vec":
            if name == "push":
                def got(x):
                    if v.ty[1] is None:
                        self.place(e["recv"], env).ty = ("Vec", x.ty)
                    return f"{v.code}.push({x.code});\n" + k(Val("()", UNIT))
                return self.ev(a[0], env, fr, got, v.ty[1])
            if name == "into_iter":
                return self.bind(f"WordIter::new({v.code})", ("IntoIter", v.ty[1] or ("Struct", "Span")), k, "it")
            if name == "extend":
                def got(x):
                    if not x.ty or x.ty[0] != "Opt":
                        raise Unsupported(f"extend by {x.ty}")
                    if v.ty[1] is None:
                        self.place(e["recv"], env).ty = ("Vec", x.ty[1])
                    w = self.fresh("w")
                    return f"match {x.code} {{ Some({w}) => {{ {v.code}.push({w}); }} None => {{}} }}\n" + k(Val("()", UNIT))
                return self.ev(a[0], env, fr, got, Opt(v.ty[1]))
            if name == "len":
                return k(Val(f"{v.code}.len()", USIZE))
            if name == "is_empty":
                return k(Val(f"({v.code}.len() == 0)", BOOL))
        if v.ty and v.ty[0] == "IntoIter":
            if name == "next":
                return self.bind(f"{v.code}.next()", Opt(v.ty[1]), k)
            if name == "len":
                return k(Val(f"{v.code}.len()", USIZE))
        if v.ty == ("Chunks",):
            if name == "next":
                if self.cur == "Decomposer::next" and self.selfcode(env):
                    d = self.selfcode(env)
                    g = self.fresh("was")
                    return f"let ghost {g} = pend(*{d});\n" + self.bind(f"{v.code}.next()", Opt(STR), lambda r: f"proof {{ if {r.code} is Some && letters_of({r.code}->0@) {{ assert(chunk_at({d}.input, {r.code}->0, {d}.chunks.rem(), {g}->0)); }} }}\n" + k(r))
                return self.bind(f"{v.code}.next()", Opt(STR), k)
            if name == "peek":
                return self.bind(f"{v.code}.peek()", Opt(STR), k)
            if name == "peekable":
                return k(v)
            if name == "find":
                return self.chunks_find(v, a[0], env, fr, k)
        if v.ty == STR and name == "split":
            return self.bind(f"Chunks::split({v.code}, {self.pred(a[0], env, fr, CHAR)})", ("Chunks",), k)
        if v.ty == CHAR and name in ("to_ascii_lowercase", "to_ascii_uppercase"):
            return self.bind(f"char_{name}({v.code})", CHAR, k)
        return super().method(v, name, e, env, fr, k)

    def selfcode(self, env):
        return "self_" if "self" in env else None

    def chunks_find(self, v, a, env, fr, k):
        """Iterator::find by its definition"""
        f = self.static_arg(a, env, fr)
        x, r = self.fresh("chunk"), self.fresh("found")
        t, _ = self.inline_value(f, [Val(x, STR)], fr)
        self.findvar = r
        cl = self.find_clauses(fr).replace("FOUND", r)
        s = (f"let ghost rl_ = rlen(*self_);\nlet mut {r}: Option<Str<'a>> = None;\nloop\n{cl}\n{{\nlet nx_ = {v.code}.next();\nmatch nx_ {{ None => {{ break; }} Some({x}) => {{\n"
             f"let ok_ = {{ {t} }};\nif ok_ {{ {r} = Some({x}); assert(chunk_at(self_.input, {x}, self_.chunks.rem(), first_o(self_.input@, pend(*old(self_)))->0)); assert(letters_of({x}@)); break; }}\n}} }}\n}}\n")
        return s + k(Val(r, Opt(STR)))

    def find_clauses(self, fr):
        return self.sub(FIND_LOOP)

    def for_find(self, e):
        """for x in it { if c { return .. } }  ==  if let Some(x) = it.find(|&x| c) { return .. }"""
        ss = e["body"]["stmts"]
        x = ss[0].get("e") if len(ss) == 1 and ss[0]["k"] in ("tail", "semi") else None
        if not x or x["k"] != "if" or x["e"] or x["c"]["k"] == "letcond" or e["pat"]["k"] != "pident" or e["pat"]["mutable"] or e.get("label"):
            return None
        th = x["t"]["stmts"]
        if not (th and th[-1]["k"] in ("tail", "semi") and th[-1]["e"]["k"] == "return"):
            return None
        if any(n.get("k") in ("return", "try", "break", "continue", "assign", "assignop", "loop", "while", "for") for n in walk(x["c"])):
            return None
        clo = {"k": "closure", "params": [{"k": "pref", "p": e["pat"]}], "body": x["c"]}
        src = {"k": "mcall", "recv": e["e"], "name": "find", "args": [clo]}
        pat = {"k": "pts", "path": [{"id": "Some", "args": None}], "es": [e["pat"]]}
        return {"k": "if", "c": {"k": "letcond", "pat": pat, "e": src}, "t": x["t"], "e": None}

    def one_offset(self, env):
        offs = [x for x in sorted({x.code for x in env.values() if isinstance(x, Val) and x.ty == ("u32",) and self.is_atom(x.code)})]
        if len(offs) != 1:
            raise Unsupported("for loop without one offset")
        return offs[0]

    def map_collect(self, e, env, fr, k, want):
        """vec.into_iter().map(f).collect() by index"""
        it = e["recv"]
        if not (it["k"] == "mcall" and it["name"] in ("into_iter", "iter")) or not fr.native:
            raise Unsupported("map on something else than a vector's iterator")

        def got(v):
            if not v.ty or v.ty[0] != "Vec":
                raise Unsupported(f"map over {v.ty}")
            el = v.ty[1] or ("Struct", "Span")
            i, w, g, n, out, src = (self.fresh(x) for x in ("i", "w", "g", "n", "out", "src"))
            f = self.static_arg(e["args"][0], env, fr)
            body, _ = self.inline_value(f, [Val(w, el)], fr)
            o = self.one_offset(env)
            s = (f"let {src} = {v.code};\nlet ghost {g} = {src}@;\nlet {n} = {src}.len();\nlet mut {out}: Vec<Span> = Vec::new();\nlet mut {i}: usize = 0;\nloop\n  invariant {i} <= {n}, {n} == {src}.len(), {g}.len() == {n}, {src}@ == {g}, {out}@.len() == {i},\n"
                 f"    forall|k: int| 0 <= k < {i} ==> (#[trigger] {out}@[k]).start == {g}[k].start + {o} && {out}@[k].end == {g}[k].end + {o},\n"
                 f"  decreases {n} - {i}\n{{\nif {i} >= {n} {{ break; }}\nlet {w} = {src}[{i}];\nassert({w} == {g}[{i} as int]);\nlet nw_ = {{ {body} }};\n{out}.push(nw_);\n{i} = {i} + 1;\n}}\n"
                 f"proof {{ reveal(shifted); assert(shifted({g}, {out}@, {o} as int)); }}\n")
            return s + k(Val(out, ("Vec", el)))
        return self.ev(it["recv"], env, fr, got)

    def ev_for(self, e, env, fr, k, want):
        """for x in &mut vec { .. } by index; for x in it { if c { return/break.. } } by the definition of find"""
        it = e["e"]
        d = self.for_find(e)
        if d:
            return self.ev(d, env, fr, k, want)
        if it["k"] == "mcall" and it["name"] == "iter_mut" and fr.native:
            v = self.place(it["recv"], env)
        elif it["k"] == "ref" and it["mutable"] and fr.native:
            v = self.place(it["e"], env)
        else:
            raise Unsupported("for loop")
        if v.ty[0] != "Vec":
            raise Unsupported("for loop over " + str(v.ty))
        el = v.ty[1] or ("Struct", "Span")
        en = dict(env)
        i, w, g, n = self.fresh("i"), self.fresh("w"), self.fresh("g"), self.fresh("n")
        if e["pat"]["k"] != "pident":
            raise Unsupported("for pattern")
        en[e["pat"]["name"]] = Val(w, el, mut=True)
        old, fr.in_loop = fr.in_loop, False
        body = self.ev(e["body"], en, fr, lambda x: "")
        fr.in_loop = old
        o = self.one_offset(env)
        return (f"let ghost {g} = {v.code}@;\nlet {n} = {v.code}.len();\nlet mut {i}: usize = 0;\nloop\n  invariant {i} <= {n}, {n} == {v.code}.len(), {g}.len() == {n},\n"
                f"    forall|k: int| 0 <= k < {i} ==> (#[trigger] {v.code}@[k]).start == {g}[k].start + {o} && {v.code}@[k].end == {g}[k].end + {o},\n"
                f"    forall|k: int| {i} <= k < {n} ==> (#[trigger] {v.code}@[k]) == {g}[k],\n"
                f"  decreases {n} - {i}\n{{\nif {i} >= {n} {{ break; }}\nlet mut {w} = {v.code}[{i}];\nassert({w} == {g}[{i} as int]);\n{body}\n{v.code}.set({i}, {w});\n{i} = {i} + 1;\n}}\n"
                f"proof {{ reveal(shifted); assert(shifted({g}, {v.code}@, {o} as int)); }}\n") + k(Val("()", UNIT))

    def type_of(self, t):
        if t and t["k"] == "tpath" and t["path"][-1]["id"] == "Chunks":
            return ("Chunks",)
        return super().type_of(t)


FIND_LOOP = """  invariant
    FOUND is None, self_.input == old(self_).input, self_.current_chunk@.len() == 0, wf(*self_), rlen(*self_) <= rl_,
    first_o(self_.input@, pend(*self_)) == first_o(self_.input@, pend(*old(self_))),
  decreases rlen(*self_)"""


def loop_single(ev, fr, muts, n):
    T = ev.params[0]
    strs = [v.name for v, c in muts if c.ty == STR]
    vecs = [v.name for v, c in muts if c.ty and c.ty[0] == "Vec"]
    opts = [v.name for v, c in muts if c.ty == Opt(Tup(STR, STR))]
    if len(strs) != 1 or len(vecs) != 1 or len(opts) != 1:
        raise Unsupported("loop state of decompose_single")
    r, v, o = strs[0], vecs[0], opts[0]
    cur = f"(match {o} {{ Some(p) => p.1, None => {r} }})"
    return f"""  invariant
    at({T}, {r}), //@all
    {o} is Some ==> at({T}, ({o}->0).1) && is_split(({o}->0).1, ({o}->0).0, {r}) && nolc(src(({o}->0).1).text, pos(({o}->0).1), pos({r})) && strip({r}@).len() < strip(({o}->0).1@).len(), //@all
    {o} is Some ==> falls(strip(({o}->0).1@)) == Some(strip({r}@)), //@C07
    chain({T}@, {v}@, 0, addr({cur}) - addr({T})), //@C03
    {v}@.len() > 0 ==> {v}@[0].start == 0, //@C03
    ag(dec0(strip({T}@)), wv({T}@, {v}@), dec0(strip({cur}@))), //@C07
    dec0(strip({r}@)).len() >= 0,
  decreases strip({r}@).len()
"""


def loop_next(ev, fr, muts, n):
    # the loop over the chunks, and the one inside that skips the chunks without a word
    if not any(x.get("k") == "field" and x.get("name") == "current_chunk" for x in walk(ev.loopast)):
        ev.looppre = "let ghost rl_ = rlen(*self_);\n"
        return ev.sub(FIND_LOOP).replace("    FOUND is None, ", "    ")
    return ev.sub("""  invariant
    self_.input == old(self_).input, wf(*self_), rlen(*self_) <= rlen(*old(self_)),
    first_o(self_.input@, pend(*self_)) == first_o(self_.input@, pend(*old(self_))),
  decreases rlen(*self_)
""")


C["decompose_single"].loop = loop_single
C["Decomposer::next"].loop = loop_next

HINTS = "broadcast use super::grp_dec;"


def rule_contracts(g):
    s = ""
    for n in g.rules:
        s += f"pub uninterp spec fn p_{n}(s: Seq<char>) -> Option<Seq<char>>;\n"
        nn = "" if g.null[n] else f"prog(i, r), "
        s += f"#[verifier::external_body]\npub fn r_{n}<'a>(i: Str<'a>) -> (r: Option<(Str<'a>, Str<'a>)>) requires ntc(i) ensures shp(i, r), {nn}conf(i, r, p_{n}(strip(i@))) {{ unimplemented!() }}\n"
    return s


def span_decl(ast, trusted=True):
    """Span: the type, and its methods through their contracts only (verified in unit span)"""
    items = extract.module(ast, "span")
    ev = StEv([items], {q: Contract(c.req, c.ens, trusted=True, generics=c.generics) for q, c in span.C.items()})
    parse_structs(items, {"Span"}, ev)
    out = []
    for q in span.C:
        out.append(ev.emit(q))
    return items, ev, struct_text(ev, "Span") + span.SPEC + "\n".join(out)


def assemble(ast):
    g = peg.Grammar(peg.load(os.path.join(extract.VERIF, "spec/morph.peg")))
    sitems, sev, stext = span_decl(ast)
    items = extract.module(ast, "decompose")
    ev = DecEv([items], C, g, structs=dict(sev.structs))
    ev.aliases.update(sev.aliases)
    for q in span.C:
        ev.sigs[q] = sev.contract_fn(q)
        ev.impls[tuple(q.split("::"))] = sev.impls[tuple(q.split("::"))]
    parse_structs(items, {"Decomposer"}, ev)
    out, errs = [], {}
    for q in C:
        ev.emit_or_stub(q, out, errs)
    prelude = open(os.path.join(os.path.dirname(__file__), "prelude.rs")).read()
    src = ("use vstd::prelude::*;\nverus! {\n" + prelude + span.PRE_ST + stext + rule_contracts(g) + SPEC + STDX + LEMMAS.split("//=== state")[0] + struct_text(ev, "Decomposer", copy=False) + STATE + LEMMAS.split("//=== state")[1]
           + "\n}\npub mod m { use vstd::prelude::*; use super::*; verus! {\nbroadcast use {super::grp_span, super::grp_dec, super::grp_dec2};\n" + "\n".join(t for _, t in out) + ev.lit_fns() + "\n} }\nfn main() {}\n")
    return src, [q for q, _ in out if q], errs
