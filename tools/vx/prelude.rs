// ---- model of &str: contents (Seq<char>), address, UTF-8 byte length ----------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Str<'a> { s: &'a str }
/// byte address of the first byte (assumed: allocation does not wrap, see axiom_addr)
pub uninterp spec fn addr(s: Str<'_>) -> int;
impl<'a> View for Str<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

pub open spec fn width(c: char) -> nat {
  if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
  if s.len() == 0 { 0 } else { blen(s.drop_last()) + width(s.last()) }
}
/// the text with commas deleted
#[verifier::opaque]
pub open spec fn strip(s: Seq<char>) -> Seq<char> decreases s.len() {
  if s.len() == 0 { s } else if s[0] == ',' { strip(s.skip(1)) } else { seq![s[0]] + strip(s.skip(1)) }
}
/// no trailing comma
pub open spec fn ntcs(s: Seq<char>) -> bool { s.len() == 0 || s.last() != ',' }
pub open spec fn ntc(s: Str<'_>) -> bool { ntcs(src(s).text) }

/// Provenance of a slice: the text from the start of the enclosing allocation up to the slice's
/// end, and where that text lies in memory.  Slices with equal `src` end at the same place.
pub struct Src { pub text: Seq<char>, pub base: int }
pub uninterp spec fn src(s: Str<'_>) -> Src;
/// index (in characters) of the slice's first character within src(s).text
pub uninterp spec fn pos(s: Str<'_>) -> int;
#[verifier::external_body]
pub proof fn axiom_src(s: Str<'_>)
  ensures 0 <= pos(s) <= src(s).text.len(), s@ == src(s).text.skip(pos(s)), addr(s) == src(s).base + blen(src(s).text.take(pos(s)))
{}
/// `r` is the part of `a` (in memory) from some character boundary to the end (the last four
/// conjuncts follow from the first two: lemma_suf)
pub open spec fn suf(a: Str<'_>, r: Str<'_>) -> bool {
  src(a) == src(r) && pos(a) <= pos(r) && addr(a) <= addr(r) && r@.len() <= a@.len() && strip(r@).len() <= strip(a@).len() && addr(r) + blen(r@) == addr(a) + blen(a@)
}
/// `a` is exactly `m` followed by `r`, in place
#[verifier::opaque]
pub open spec fn is_split(a: Str<'_>, m: Str<'_>, r: Str<'_>) -> bool {
  suf(a, r) && m@ == a@.take(a@.len() - r@.len()) && addr(m) == addr(a)
}
/// byte offset b is a character boundary of s, and the index of that boundary
#[verifier::opaque]
pub open spec fn bnd(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && b == #[trigger] blen(s.take(i)) }
#[verifier::opaque]
pub open spec fn idx(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && b == #[trigger] blen(s.take(i)) }

pub proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= s.len()
  ensures blen(s.take(j)) >= blen(s.take(i)) + (j - i)
  decreases j
{ reveal_with_fuel(blen, 2);
  if i < j { lemma_blen_mono(s, i, j - 1); assert(s.take(j).drop_last() =~= s.take(j - 1)); }
}
pub proof fn lemma_idx(s: Seq<char>, i: int)
  requires 0 <= i <= s.len()
  ensures bnd(s, blen(s.take(i)) as int), idx(s, blen(s.take(i)) as int) == i,
{
  reveal(bnd); reveal(idx);
  let k = idx(s, blen(s.take(i)) as int);
  if k < i { lemma_blen_mono(s, k, i); } else if i < k { lemma_blen_mono(s, i, k); }
}
pub broadcast proof fn lemma_bnd0(s: Seq<char>, x: int)
  requires x == 0 || x == blen(s)
  ensures #[trigger] bnd(s, x), x == 0 ==> idx(s, x) == 0, x == blen(s) ==> idx(s, x) == s.len()
{ reveal_with_fuel(blen, 2);
  assert(blen(s.take(0)) == 0); lemma_idx(s, 0); assert(s.take(s.len() as int) =~= s); lemma_idx(s, s.len() as int);
}
pub proof fn lemma_bnd_le(s: Seq<char>, x: int)
  requires bnd(s, x)
  ensures 0 <= idx(s, x) <= s.len(), 0 <= x <= blen(s), x == blen(s.take(idx(s, x)))
{ reveal_with_fuel(blen, 2);
  reveal(bnd); reveal(idx);
  let k = idx(s, x);
  assert(s.take(s.len() as int) =~= s);
  lemma_blen_mono(s, 0, k); lemma_blen_mono(s, k, s.len() as int);
}
pub broadcast proof fn lemma_bnd_range(s: Seq<char>, x: int)
  requires #[trigger] bnd(s, x)
  ensures 0 <= idx(s, x) <= s.len(), 0 <= x <= blen(s)
{ lemma_bnd_le(s, x); }
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
  ensures blen(a + b) == blen(a) + blen(b)
  decreases b.len()
{ reveal_with_fuel(blen, 2);
  if b.len() == 0 { assert(a + b =~= a); }
  else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_blen_add(a, b.drop_last()); }
}
pub proof fn lemma_pos(a: Str<'_>)
  ensures a@.len() == src(a).text.len() - pos(a), ntc(a) ==> ntcs(a@), ntcs(a@) && a@.len() > 0 ==> ntc(a)
{ axiom_src(a); if a@.len() > 0 { assert(a@.last() == src(a).text.last()); } }
/// facts about two slices with the same end
#[verifier::rlimit(40)]
pub proof fn lemma_suf(a: Str<'_>, b: Str<'_>)
  requires src(a) == src(b), pos(a) <= pos(b)
  ensures suf(a, b),
    b@.len() <= a@.len(), b@ == a@.skip(a@.len() - b@.len()), a@.len() - b@.len() == pos(b) - pos(a),
    addr(b) == addr(a) + blen(a@.take(a@.len() - b@.len())), addr(a) <= addr(b), (a@.len() - b@.len()) <= addr(b) - addr(a),
    addr(b) + blen(b@) == addr(a) + blen(a@), strip(b@).len() <= strip(a@).len(),
    bnd(a@, addr(b) - addr(a)), idx(a@, addr(b) - addr(a)) == a@.len() - b@.len(),
{
  reveal_with_fuel(blen, 2);
  axiom_src(a); axiom_src(b); lemma_pos(a); lemma_pos(b);
  let t = src(a).text; let i = pos(a); let j = pos(b);
  assert(a@.skip(j - i) =~= b@);
  assert(t.take(j) =~= t.take(i) + a@.take(j - i)); lemma_blen_add(t.take(i), a@.take(j - i));
  assert(a@ =~= a@.take(j - i) + b@); lemma_blen_add(a@.take(j - i), b@); lemma_blen_mono(a@, 0, j - i);
  assert(a@.take(0) =~= Seq::<char>::empty());
  lemma_idx(a@, j - i);
  lemma_strip_skip(a@, j - i);
}
pub broadcast proof fn lemma_split(a: Str<'_>, m: Str<'_>, r: Str<'_>)
  requires #[trigger] is_split(a, m, r)
  ensures suf(a, r), addr(m) == addr(a), addr(m) + blen(m@) == addr(r), m@.len() == pos(r) - pos(a),
{ reveal(is_split); lemma_suf(a, r); lemma_pos(a); lemma_pos(r); }
/// offsets of later slices are character boundaries
pub broadcast proof fn lemma_bnd_at(a: Str<'_>, x: int, b: Str<'_>)
  requires suf(a, b), addr(b) == addr(a) + x
  ensures #![trigger bnd(a@, x), addr(b)] bnd(a@, x), 0 <= x <= blen(a@)
{ lemma_suf(a, b); lemma_bnd_le(a@, x); }
pub proof fn lemma_strip_skip(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures strip(s.skip(k)).len() <= strip(s).len(), strip(s.skip(k)) == strip(s).skip(strip(s).len() - strip(s.skip(k)).len()),
  decreases k
{ reveal_with_fuel(strip, 2);
  if k == 0 { assert(s.skip(0) =~= s); assert(strip(s).skip(0) =~= strip(s)); } else {
    lemma_strip_skip(s.skip(1), k - 1);
    assert(s.skip(1).skip(k - 1) =~= s.skip(k));
    let t = strip(s.skip(1));
    if s[0] != ',' {
      let d = t.len() - strip(s.skip(k)).len();
      assert(strip(s).skip(d + 1) =~= t.skip(d));
    }
  }
}
pub proof fn lemma_strip_nonempty(s: Seq<char>)
  requires s.len() > 0, ntcs(s)
  ensures strip(s).len() > 0
  decreases s.len()
{ reveal_with_fuel(strip, 2);
  if s[0] == ',' { assert(s.skip(1).last() == s.last()); lemma_strip_nonempty(s.skip(1)); }
}
/// without trailing comma, emptiness is not affected by deleting commas
pub broadcast proof fn lemma_strip_empty(s: Str<'_>)
  requires ntc(s)
  ensures (#[trigger] strip(s@)).len() == 0 <==> s@.len() == 0, ntcs(s@)
{ reveal_with_fuel(strip, 2); lemma_pos(s); if s@.len() > 0 { lemma_strip_nonempty(s@); } }
/// the first non-comma character at index t-1
pub broadcast proof fn lemma_strip_step(s: Seq<char>, t: int)
  requires 0 < t <= s.len(), s[t - 1] != ',', forall|j: int| 0 <= j < t - 1 ==> s[j] == ','
  ensures #![trigger s.skip(t), strip(s)] strip(s) == seq![s[t - 1]] + strip(s.skip(t)), strip(s).skip(1) == strip(s.skip(t)), strip(s)[0] == s[t - 1], strip(s).len() > 0
  decreases t
{ reveal_with_fuel(strip, 2);
  if t > 1 {
    lemma_strip_step(s.skip(1), t - 1);
    assert(s.skip(1).skip(t - 1) =~= s.skip(t));
  }
  assert((seq![s[t - 1]] + strip(s.skip(t))).skip(1) =~= strip(s.skip(t)));
}
pub proof fn lemma_strip_all(s: Seq<char>)
  requires forall|j: int| 0 <= j < s.len() ==> s[j] == ','
  ensures strip(s).len() == 0
  decreases s.len()
{ reveal_with_fuel(strip, 2); if s.len() > 0 { lemma_strip_all(s.skip(1)); } }
pub open spec fn allcommas(s: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> s[j] == ',' }
/// comparing the byte lengths of two suffixes of one text is comparing how much they consumed
pub broadcast proof fn lemma_suf_cmp(b: Str<'_>, c: Str<'_>)
  requires src(b) == src(c)
  ensures #![trigger blen(b@), blen(c@)]
    blen(b@) <= blen(c@) ==> pos(b) >= pos(c) && strip(b@).len() <= strip(c@).len() && b@.len() <= c@.len(),
    blen(b@) < blen(c@) ==> b@.len() < c@.len(),
    strip(b@).len() == strip(c@).len() ==> strip(b@) == strip(c@),
{
  lemma_pos(b); lemma_pos(c);
  if pos(b) <= pos(c) {
    lemma_suf(b, c); lemma_strip_skip(b@, pos(c) - pos(b));
    if pos(b) == pos(c) { assert(b@ =~= c@); }
    assert(strip(b@).skip(0) =~= strip(b@));
  } else {
    lemma_suf(c, b); lemma_strip_skip(c@, pos(b) - pos(c)); assert(strip(c@).skip(0) =~= strip(c@));
  }
}
pub proof fn lemma_idx_le(s: Seq<char>, x: int, y: int)
  requires bnd(s, x), bnd(s, y), x <= y
  ensures idx(s, x) <= idx(s, y), blen(s.subrange(idx(s, x), idx(s, y))) == y - x, 0 <= idx(s, x), idx(s, y) <= s.len()
{
  lemma_bnd_le(s, x); lemma_bnd_le(s, y);
  let i = idx(s, x); let j = idx(s, y);
  if j < i { lemma_blen_mono(s, j, i); }
  assert(s.take(j) =~= s.take(i) + s.subrange(i, j)); lemma_blen_add(s.take(i), s.subrange(i, j));
}
pub broadcast proof fn lemma_piece_len(s: Seq<char>, x: int, y: int)
  requires bnd(s, x), bnd(s, y), x <= y
  ensures blen(#[trigger] s.subrange(idx(s, x), idx(s, y))) == y - x
{ lemma_idx_le(s, x, y); }
#[verifier::external_body]
pub broadcast proof fn axiom_addr(s: Str<'_>) ensures #[trigger] addr(s) >= 0, addr(s) + blen(s@) <= usize::MAX {}
pub broadcast proof fn lemma_blen_ge(s: Seq<char>) ensures #[trigger] blen(s) >= s.len()
{ reveal_with_fuel(blen, 2); assert(s.take(s.len() as int) =~= s); lemma_blen_mono(s, 0, s.len() as int); assert(blen(s.take(0)) == 0); }

impl<'a> Str<'a> {
  // assumed contracts of std's str
  #[verifier::external_body]
  pub fn as_ptr(self) -> (r: usize) ensures r == addr(self) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(self) -> (r: usize) ensures r == blen(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn split_at(self, i: usize) -> (r: (Str<'a>, Str<'a>))
    requires bnd(self@, i as int)
    ensures is_split(self, r.0, r.1), pos(r.1) == pos(self) + idx(self@, i as int), addr(r.1) == addr(self) + i,
      i == 0 ==> r.1@ == self@, forall|x: Str| suf(self, x) && #[trigger] addr(x) == addr(self) + i ==> r.1@ == x@ && pos(r.1) == pos(x)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn slice(self, i: usize, j: usize) -> (r: Str<'a>)
    requires i <= j, bnd(self@, i as int), bnd(self@, j as int)
    ensures r@ == self@.subrange(idx(self@, i as int), idx(self@, j as int)), addr(r) == addr(self) + i,
      forall|x: Str| suf(self, x) && i == 0 && addr(self) <= #[trigger] addr(x) && addr(x) == addr(self) + j ==> is_split(self, r, x),
      j == blen(self@) ==> src(r) == src(self) && pos(r) == pos(self) + idx(self@, i as int)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn starts_with_char(self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() }
  #[verifier::external_body]
  pub fn ends_with_char(self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@.last() == c) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_char(self, c: char) -> (r: bool) ensures r == has(self@, c) { unimplemented!() }
  #[verifier::external_body]
  pub fn chars(self) -> (r: Chars<'a>) ensures r.cur() == self { unimplemented!() }
  #[verifier::external_body]
  pub fn trim_start_char(self, c: char) -> (r: Str<'a>)
    ensures suf(self, r), r@.len() > 0 ==> r@[0] != c, forall|j: int| 0 <= j < self@.len() - r@.len() ==> self@[j] == c
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_range(self, i: usize, j: usize) -> (r: Option<Str<'a>>)
    ensures r is Some <==> i <= j && bnd(self@, i as int) && bnd(self@, j as int),
      r is Some ==> r->0@ == self@.subrange(idx(self@, i as int), idx(self@, j as int)) && addr(r->0) == addr(self) + i
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_from(self, i: usize) -> (r: Option<Str<'a>>)
    ensures r is Some <==> bnd(self@, i as int), r is Some ==> r->0@ == self@.skip(idx(self@, i as int)) && addr(r->0) == addr(self) + i && suf(self, r->0)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_to(self, j: usize) -> (r: Option<Str<'a>>)
    ensures r is Some <==> bnd(self@, j as int), r is Some ==> r->0@ == self@.take(idx(self@, j as int)) && addr(r->0) == addr(self)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn eq_str(self, o: Str<'_>) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
pub open spec fn has(s: Seq<char>, c: char) -> bool { s.contains(c) }

#[verifier::external_body]
pub fn char_len_utf8(c: char) -> (r: usize) ensures r == width(c) { unimplemented!() }
/// std's Chars: a cursor over the not yet visited suffix
#[verifier::external_body]
pub struct Chars<'a> { i: std::str::Chars<'a> }
impl<'a> Chars<'a> {
  pub uninterp spec fn cur(&self) -> Str<'a>;
  #[verifier::external_body]
  pub fn as_str(&self) -> (r: Str<'a>) ensures r == self.cur() { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<char>)
    ensures suf(old(self).cur(), final(self).cur()), match r {
      Some(c) => old(self).cur()@.len() > 0 && old(self).cur()@[0] == c && final(self).cur()@ == old(self).cur()@.skip(1) && addr(final(self).cur()) == addr(old(self).cur()) + width(c),
      None => old(self).cur()@.len() == 0 && final(self).cur()@.len() == 0 }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn find<F: Fn(char) -> bool>(&mut self, f: F) -> (r: Option<char>)
    requires forall|c: char| f.requires((c,))
    ensures suf(old(self).cur(), final(self).cur()), match r {
      Some(c) => exists|k: int| 0 <= k < old(self).cur()@.len() && old(self).cur()@[k] == c && f.ensures((c,), true)
        && (forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] old(self).cur()@[j],), false))
        && final(self).cur()@ == #[trigger] old(self).cur()@.skip(k + 1),
      None => (forall|j: int| 0 <= j < old(self).cur()@.len() ==> f.ensures((#[trigger] old(self).cur()@[j],), false)) && final(self).cur()@.len() == 0 }
  { unimplemented!() }
}
// ---- PEG combinators (spec) ---------------------------------------------------------------------
pub open spec fn peof(s: Seq<char>) -> Option<Seq<char>> { if s.len() == 0 { Some(s) } else { None } }
pub open spec fn plonger(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> {
  match a { None => b, Some(x) => match b { None => a, Some(y) => if y.len() < x.len() { b } else { a } } }
}
/// a recogniser's result `r` on `i` agrees with the reference result `sp` on the comma-free text
pub open spec fn conf(i: Str<'_>, r: Option<(Str<'_>, Str<'_>)>, sp: Option<Seq<char>>) -> bool {
  match r { Some((m, rest)) => sp == Some(strip(rest@)), None => sp is None }
}
/// matched part and rest partition the input in place
pub open spec fn shp(i: Str<'_>, r: Option<(Str<'_>, Str<'_>)>) -> bool {
  match r { Some((m, rest)) => is_split(i, m, rest) && nolc(src(i).text, pos(i), pos(rest)), None => true }
}
/// the part of t from i to j does not end in a comma
#[verifier::opaque]
pub open spec fn nolc(t: Seq<char>, i: int, j: int) -> bool { j > i ==> t[j - 1] != ',' }
pub broadcast proof fn lemma_nolc_trans(t: Seq<char>, i: int, j: int, k: int)
  requires #[trigger] nolc(t, i, j), #[trigger] nolc(t, j, k), i <= j <= k
  ensures nolc(t, i, k)
{ reveal(nolc); }
pub broadcast proof fn lemma_nolc_same(t: Seq<char>, i: int)
  ensures #[trigger] nolc(t, i, i)
{ reveal(nolc); }
/// consumes at least one letter when it succeeds
pub open spec fn prog(i: Str<'_>, r: Option<(Str<'_>, Str<'_>)>) -> bool {
  match r { Some((m, rest)) => strip(rest@).len() < strip(i@).len() && rest@.len() < i@.len(), None => true }
}
pub broadcast group grp { lemma_nolc_trans, lemma_nolc_same, axiom_addr, lemma_split, lemma_bnd_at, lemma_bnd0, lemma_strip_empty }
pub broadcast proof fn lemma_prev(a: Str<'_>, b: Str<'_>)
  requires suf(a, b), b@.len() < a@.len(), a@[a@.len() - b@.len() - 1] != ','
  ensures #![trigger nolc(src(a).text, pos(a), pos(b))] #![trigger suf(a, b)] nolc(src(a).text, pos(a), pos(b))
{ reveal(nolc); axiom_src(a); lemma_suf(a, b); assert(a@[pos(b) - pos(a) - 1] == src(a).text[pos(b) - 1]); }
/// leading commas dropped
pub broadcast proof fn lemma_trim(a: Str<'_>, u: Str<'_>)
  requires suf(a, u), forall|j: int| 0 <= j < a@.len() - u@.len() ==> a@[j] == ','
  ensures #![trigger suf(a, u), strip(a@)] strip(u@) == strip(a@), u@ == a@.skip(a@.len() - u@.len()), u@.len() > 0 ==> u@[0] == a@[a@.len() - u@.len()]
{ lemma_suf(a, u); lemma_strip_commas(a@, a@.len() - u@.len()); }
pub proof fn lemma_strip_commas(s: Seq<char>, n: int)
  requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> s[j] == ','
  ensures strip(s.skip(n)) == strip(s)
  decreases n
{ reveal_with_fuel(strip, 2);
  if n > 0 { lemma_strip_commas(s.skip(1), n - 1); assert(s.skip(1).skip(n - 1) =~= s.skip(n)); } else { assert(s.skip(0) =~= s); } }
pub broadcast group grp_trim { lemma_trim }
pub broadcast group grp_find { lemma_prev, lemma_strip_step, lemma_blen_ge }
pub broadcast group grp_cmp { lemma_suf_cmp, lemma_blen_ge }
pub broadcast group grp_span { axiom_addr, lemma_bnd0, lemma_bnd_range }
