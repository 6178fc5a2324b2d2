#[derive(Clone, Copy)] pub struct Loc { pub l: u32 }
#[derive(Clone, Copy)] pub struct Span { pub start: u32, pub end: u32 }
/// lex::Token; the selmaho is its number in the list of lex::Selmaho's variants
#[derive(Clone, Copy)] pub struct Tok { pub selmaho: u32, pub experimental: bool, pub span: Span }
/// parse::cst::error::Error (the list of expected selmaho and the texts are not modelled)
#[derive(Clone, Copy)] pub enum Er { ExpectedGot { got: Option<Tok> }, PostConditionFailed, Nom, ZoQuoteEof, Empty }
/// a token slice that is a suffix of the input is its offset
#[derive(Clone, Copy)] pub struct WL { pub location: usize, pub error: Er }
#[derive(Clone, Copy)] pub enum NErr { Error(WL), Failure(WL) }
#[derive(Clone, Copy)] pub enum Ord3 { Less, Equal, Greater }
pub fn cmp3(a: usize, b: usize) -> (r: Ord3) ensures r is Less <==> a < b, r is Equal <==> a == b, r is Greater <==> a > b { if a < b { Ord3::Less } else if a == b { Ord3::Equal } else { Ord3::Greater } }
pub type PR<T> = Result<(usize, T), NErr>;

/// the outcome of a grammar expression at a position: matched up to; did not match; failed for good (after a cut)
pub enum Out { Ok(int), No, Cut }
pub open spec fn out<T>(r: PR<T>) -> Out { match r { Ok(p) => Out::Ok(p.0 as int), Err(NErr::Error(_)) => Out::No, Err(NErr::Failure(_)) => Out::Cut } }
pub open spec fn one(t: Seq<Tok>, i: int, s: u32) -> Out { if 0 <= i < t.len() && t[i].selmaho == s { Out::Ok(i + 1) } else { Out::No } }
pub open spec fn any1(t: Seq<Tok>, i: int) -> Out { if 0 <= i < t.len() { Out::Ok(i + 1) } else { Out::No } }

pub open spec fn at(t: Seq<Tok>, i: int) -> Option<Tok> { if 0 <= i < t.len() { Some(t[i]) } else { None } }
/// the error lies between `i` and the end, and what it says it got is what is there
pub open spec fn good(t: Seq<Tok>, i: int, w: WL) -> bool {
  i <= w.location <= t.len() && (match w.error { Er::ExpectedGot { got } => got == at(t, w.location as int), _ => true })
}
pub open spec fn goode(t: Seq<Tok>, i: int, e: NErr) -> bool { match e { NErr::Error(w) => good(t, i, w), NErr::Failure(w) => good(t, i, w) } }

#[verifier::inline] pub open spec fn sg(x: Tok) -> Seq<Tok> { seq![x] }
pub open spec fn nil() -> Seq<Tok> { Seq::empty() }
pub broadcast proof fn cat(t: Seq<Tok>, a: int, b: int, c: int)
  requires 0 <= a <= b <= c <= t.len()
  ensures #[trigger] (t.subrange(a, b) + t.subrange(b, c)) == t.subrange(a, c)
{ assert(t.subrange(a, b) + t.subrange(b, c) =~= t.subrange(a, c)); }
pub broadcast proof fn sub0(t: Seq<Tok>, a: int, b: int)
  requires a == b, 0 <= a <= t.len()
  ensures #[trigger] t.subrange(a, b) == nil()
{ assert(t.subrange(a, b) =~= nil()); }
pub broadcast proof fn sub1(t: Seq<Tok>, a: int, b: int)
  requires b == a + 1, 0 <= a < t.len()
  ensures #[trigger] t.subrange(a, b) == seq![t[a]]
{ assert(t.subrange(a, b) =~= seq![t[a]]); }
pub broadcast proof fn nil_l(a: Seq<Tok>) ensures #[trigger] (nil() + a) == a { assert(nil() + a =~= a); }
pub broadcast proof fn nil_r(a: Seq<Tok>) ensures #[trigger] (a + nil()) == a { assert(a + nil() =~= a); }

/// summaries of a token sequence
#[verifier::opaque] pub open spec fn exp(s: Seq<Tok>) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).experimental }
pub open spec fn first(s: Seq<Tok>) -> Option<u32> { if s.len() > 0 { Some(s[0].span.start) } else { None } }
pub open spec fn last(s: Seq<Tok>) -> Option<u32> { if s.len() > 0 { Some(s[s.len() - 1].span.end) } else { None } }
/// tokens of a quote are never experimental (established by the lexer)
#[verifier::opaque] pub open spec fn quiet(s: Seq<Tok>) -> bool {
  forall|k: int| 0 <= k < s.len() && ((#[trigger] s[k]).selmaho == SEL_ZOIDELIMITER || s[k].selmaho == SEL_ANYTEXT) ==> !s[k].experimental
}
pub broadcast proof fn exp_nil() ensures !(#[trigger] exp(nil())) { reveal(exp); }
pub broadcast proof fn exp_one(x: Tok) ensures #[trigger] exp(seq![x]) == x.experimental { reveal(exp); if x.experimental { assert(seq![x][0].experimental); } }
pub broadcast proof fn exp_add(a: Seq<Tok>, b: Seq<Tok>) ensures #[trigger] exp(a + b) == (exp(a) || exp(b)) {
  reveal(exp);
  if exp(a) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).experimental; assert((a + b)[k].experimental); }
  if exp(b) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).experimental; assert((a + b)[a.len() + k].experimental); }
  if exp(a + b) { let k = choose|k: int| 0 <= k < (a + b).len() && (#[trigger] (a + b)[k]).experimental; if k < a.len() { assert(a[k].experimental); } else { assert(b[k - a.len()].experimental); } }
}
pub broadcast proof fn first_add(a: Seq<Tok>, b: Seq<Tok>) ensures #[trigger] first(a + b) == (if a.len() > 0 { first(a) } else { first(b) }) { if a.len() > 0 { assert((a + b)[0] == a[0]); } else { assert(a + b =~= b); } }
pub broadcast proof fn last_add(a: Seq<Tok>, b: Seq<Tok>) ensures #[trigger] last(a + b) == (if b.len() > 0 { last(b) } else { last(a) }) { if b.len() > 0 { assert((a + b)[a.len() + b.len() - 1] == b[b.len() - 1]); } else { assert(a + b =~= a); } }
pub broadcast proof fn quiet_add(a: Seq<Tok>, b: Seq<Tok>)
  requires quiet(#[trigger] (a + b))
  ensures quiet(a), quiet(b)
{
  reveal(quiet);
  assert forall|k: int| 0 <= k < a.len() && ((#[trigger] a[k]).selmaho == SEL_ZOIDELIMITER || a[k].selmaho == SEL_ANYTEXT) implies !a[k].experimental by { assert((a + b)[k] == a[k]); }
  assert forall|k: int| 0 <= k < b.len() && ((#[trigger] b[k]).selmaho == SEL_ZOIDELIMITER || b[k].selmaho == SEL_ANYTEXT) implies !b[k].experimental by { assert((a + b)[a.len() + k] == b[k]); }
}
pub broadcast proof fn quiet_one(x: Tok) ensures #[trigger] quiet(seq![x]) == ((x.selmaho == SEL_ZOIDELIMITER || x.selmaho == SEL_ANYTEXT) ==> !x.experimental) { reveal(quiet); assert(seq![x][0] == x); }
pub broadcast proof fn assoc(a: Seq<Tok>, b: Seq<Tok>, c: Seq<Tok>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn assoc_l(a: Seq<Tok>, b: Seq<Tok>, c: Seq<Tok>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast group toks { cat, sub0, sub1, nil_l, nil_r }
pub broadcast group sums { exp_nil, exp_one, exp_add, first_add, last_add, quiet_add, quiet_one, nil_l, nil_r }

/// the leaves of a list of subtrees
#[verifier::opaque] pub open spec fn flat(ss: Seq<Seq<Tok>>) -> Seq<Tok> decreases ss.len() {
  if ss.len() == 0 { nil() } else { flat(ss.drop_last()) + ss.last() }
}
pub proof fn flat0(ss: Seq<Seq<Tok>>) requires ss.len() == 0 ensures flat(ss) == nil() { reveal(flat); }
pub proof fn flat_push(ss: Seq<Seq<Tok>>, s: Seq<Tok>) ensures flat(ss.push(s)) == flat(ss) + s { reveal(flat); assert(ss.push(s).drop_last() =~= ss); }
pub proof fn flat_cat(a: Seq<Seq<Tok>>, b: Seq<Seq<Tok>>)
  ensures flat(a + b) == flat(a) + flat(b)
  decreases b.len()
{
  reveal(flat);
  if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + nil() =~= flat(a)); }
  else { flat_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
    assert(flat(a) + (flat(b.drop_last()) + b.last()) =~= (flat(a) + flat(b.drop_last())) + b.last()); }
}
pub proof fn flat_one(s: Seq<Tok>) ensures flat(seq![s]) == s { reveal(flat); reveal_with_fuel(flat, 2); assert(seq![s].drop_last() =~= Seq::<Seq<Tok>>::empty()); assert(nil() + s =~= s); }
/// the part from k on: its first element, then the rest
pub proof fn flat_front(ss: Seq<Seq<Tok>>, k: int)
  requires 0 <= k < ss.len()
  ensures flat(ss.skip(k)) == ss[k] + flat(ss.skip(k + 1))
{ assert(ss.skip(k) =~= seq![ss[k]] + ss.skip(k + 1)); flat_cat(seq![ss[k]], ss.skip(k + 1)); flat_one(ss[k]); }
/// the part before k+1: the part before k, then element k
pub proof fn flat_back(ss: Seq<Seq<Tok>>, k: int)
  requires 0 <= k < ss.len()
  ensures flat(ss.take(k + 1)) == flat(ss.take(k)) + ss[k]
{ assert(ss.take(k + 1) =~= ss.take(k).push(ss[k])); flat_push(ss.take(k), ss[k]); }
pub proof fn flat_all(ss: Seq<Seq<Tok>>) ensures ss.skip(0) == ss, ss.take(ss.len() as int) == ss, flat(ss.skip(ss.len() as int)) == nil(), flat(ss.take(0)) == nil()
{ assert(ss.skip(0) =~= ss); assert(ss.take(ss.len() as int) =~= ss); flat0(ss.skip(ss.len() as int)); flat0(ss.take(0)); }

/// what a visitor has been shown so far
pub struct Vis { pub seen: Ghost<Seq<Tok>> }
impl Vis {
  #[verifier::external_body]
  pub fn visit(&mut self, l: Ghost<Seq<Tok>>) ensures final(self).seen@ == old(self).seen@ + l@ { unimplemented!() }
}
#[verifier::external_body]
pub fn eq_ot(a: &Option<Tok>, b: &Option<Tok>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn panics() requires false { unimplemented!() }
/// std::vec::Vec::new for an empty `&[]`
#[verifier::external_body]
pub fn some_bool() -> (r: bool) { unimplemented!() }

pub fn to_failure(e: NErr) -> (r: NErr)
  ensures (match e { NErr::Error(w) => r == NErr::Failure(w), NErr::Failure(w) => r == e })
{ match e { NErr::Error(w) => NErr::Failure(w), q => q } }
/// what stands before element k, the element, what stands after it
pub proof fn flat_split(ss: Seq<Seq<Tok>>, k: int)
  requires 0 <= k < ss.len()
  ensures flat(ss) == flat(ss.take(k)) + (ss[k] + flat(ss.skip(k + 1))), flat(ss.take(k + 1)) == flat(ss.take(k)) + ss[k], flat(ss.skip(k)) == ss[k] + flat(ss.skip(k + 1))
{ flat_back(ss, k); flat_front(ss, k); assert(ss =~= ss.take(k) + ss.skip(k)); flat_cat(ss.take(k), ss.skip(k)); }

// iterator adaptors over a whole list
pub fn vtake<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures r@ == v@.subrange(0, if n <= v@.len() { n as int } else { v@.len() as int }),
{ let mut v = v; if n < v.len() { v.truncate(n); } assert(v@ =~= v@.subrange(0, v@.len() as int)); v }
pub fn vskip<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures r@ == v@.subrange(if n <= v@.len() { n as int } else { v@.len() as int }, v@.len() as int),
{ let mut v = v; if n < v.len() { v.split_off(n) } else { v.clear(); v } }
pub fn vrev<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@.reverse(),
{
  let mut v = v; let mut r = Vec::new(); let ghost o = v@;
  while v.len() > 0
    invariant v@.len() <= o.len(), v@ == o.subrange(0, v@.len() as int), r@ == o.subrange(v@.len() as int, o.len() as int).reverse()
    decreases v@.len()
  { let ghost l = v@.len(); let x = v.pop().unwrap(); r.push(x); assert(r@ =~= o.subrange(l - 1, o.len() as int).reverse()); }
  assert(r@ =~= o.reverse());
  r
}
