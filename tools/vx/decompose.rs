// ---- lemmas for unit decompose ----
pub proof fn lemma_strip_add(a: Seq<char>, b: Seq<char>)
  ensures strip(a + b) == strip(a) + strip(b)
  decreases a.len()
{ reveal_with_fuel(strip, 2);
  if a.len() == 0 { assert(a + b =~= b); assert(strip(a) + strip(b) =~= strip(b)); }
  else { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_strip_add(a.skip(1), b);
    assert(strip(a + b) =~= strip(a) + strip(b)); }
}
pub proof fn lemma_strip_len(a: Seq<char>) ensures strip(a).len() <= a.len() decreases a.len()
{ reveal_with_fuel(strip, 2); if a.len() > 0 { lemma_strip_len(a.skip(1)); } }
pub broadcast proof fn lemma_strip_last(s: Seq<char>, k: int)
  requires 0 <= k < s.len(), s[k] != ',', forall|j: int| k < j < s.len() ==> s[j] == ','
  ensures #![trigger s[k], strip(s)] strip(s).len() > 0 && strip(s).last() == s[k]
{ reveal_with_fuel(strip, 3);
  let a = s.take(k); let b = s.skip(k);
  assert(s =~= a + b); lemma_strip_add(a, b);
  assert(forall|j: int| 0 <= j < b.skip(1).len() ==> b.skip(1)[j] == s[k + 1 + j]);
  lemma_strip_all(b.skip(1));
  assert(strip(b) =~= seq![b[0]]);
}
pub broadcast proof fn lemma_strip_none(s: Seq<char>)
  requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == ','
  ensures (#[trigger] strip(s)).len() == 0
{ lemma_strip_all(s); }
pub proof fn lemma_letters_strip(t: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= t.len()
  ensures letters(t, i, j) == (strip(t.subrange(i, j)).len() > 0)
  decreases j - i
{ reveal_with_fuel(strip, 2);
  if i < j {
    lemma_letters_strip(t, i + 1, j);
    assert(t.subrange(i, j).skip(1) =~= t.subrange(i + 1, j));
    if t[i] != ',' { assert(letters(t, i, j)); }
    if letters(t, i + 1, j) { let k = choose|k: int| i + 1 <= k < j && t[k] != ','; assert(letters(t, i, j)); }
  }
}
// trailing commas
pub proof fn lemma_tc(s: Seq<char>)
  ensures tc(s).len() <= s.len(), tc(s) == s.take(tc(s).len() as int), ntcs(tc(s)), forall|j: int| tc(s).len() <= j < s.len() ==> s[j] == ',', strip(tc(s)) == strip(s)
  decreases s.len()
{ reveal_with_fuel(strip, 2);
  if s.len() > 0 && s.last() == ',' {
    lemma_tc(s.drop_last());
    assert(s.take(tc(s).len() as int) =~= s.drop_last().take(tc(s).len() as int));
    assert(s =~= s.drop_last() + seq![',']); lemma_strip_add(s.drop_last(), seq![',']);
    assert(seq![','].skip(1).len() == 0);
    assert(strip(s) =~= strip(s.drop_last()));
    assert forall|j: int| tc(s).len() <= j < s.len() implies s[j] == ',' by { if j < s.len() - 1 { assert(s[j] == s.drop_last()[j]); } }
  } else { assert(s.take(s.len() as int) =~= s); }
}
pub proof fn lemma_tc_unique(s: Seq<char>, k: int)
  requires 0 <= k <= s.len(), ntcs(s.take(k)), forall|j: int| k <= j < s.len() ==> s[j] == ','
  ensures tc(s) == s.take(k)
  decreases s.len()
{
  if s.len() > k { assert(s.drop_last().take(k) =~= s.take(k)); lemma_tc_unique(s.drop_last(), k); }
  else { assert(s.take(k) =~= s); }
}
pub broadcast proof fn lemma_at_trim(T: Str<'_>, r: Str<'_>)
  requires trimmed(T, r, ',')
  ensures #[trigger] at(T, r) == true, strip(r@) == strip(T@)
{ reveal(at); lemma_tc_unique(T@, r@.len() as int); lemma_tc(T@); lemma_bnd0(T@, 0); assert(tc(T@).skip(0) =~= tc(T@)); }
pub broadcast proof fn lemma_trim_at(T: Str<'_>, r: Str<'_>)
  requires #[trigger] trimmed(T, r, ',')
  ensures at(T, r), strip(r@) == strip(T@), addr(r) == addr(T)
{ lemma_at_trim(T, r); }
pub broadcast proof fn lemma_at_retrim(T: Str<'_>, x: Str<'_>, r: Str<'_>)
  requires #[trigger] at(T, x), #[trigger] trimmed(x, r, ',')
  ensures at(T, r), r@ == x@, addr(r) == addr(x)
{ reveal(at); lemma_pos(x); 
  if r@.len() < x@.len() { assert(x@[x@.len() - 1] == ','); }
  assert(x@.take(x@.len() as int) =~= x@);
}
pub broadcast proof fn lemma_at_facts(T: Str<'_>, x: Str<'_>)
  requires #[trigger] at(T, x)
  ensures ntc(x), addr(T) <= addr(x), bnd(T@, addr(x) - addr(T))
{ reveal(at); }
pub proof fn lemma_idx_add(T: Seq<char>, a: int, f: Seq<char>)
  requires bnd(T, a), idx(T, a) + f.len() <= T.len(), T.subrange(idx(T, a), idx(T, a) + f.len()) == f
  ensures bnd(T, a + blen(f)), idx(T, a + blen(f)) == idx(T, a) + f.len(), pc(T, a, a + blen(f)) == f
{
  lemma_bnd_le(T, a);
  let i = idx(T, a); let j = i + f.len();
  assert(T.take(j) =~= T.take(i) + f); lemma_blen_add(T.take(i), f);
  lemma_idx(T, j);
}
pub broadcast proof fn lemma_at_split(T: Str<'_>, o: Str<'_>, f: Str<'_>, r: Str<'_>)
  requires #[trigger] at(T, o), #[trigger] is_split(o, f, r)
  ensures at(T, r), addr(f) == addr(o), addr(r) == addr(o) + blen(f@), addr(r) - addr(T) <= blen(T@), bnd(T@, addr(o) - addr(T)), bnd(T@, addr(r) - addr(T)),
    pc(T@, addr(o) - addr(T), addr(r) - addr(T)) == f@, strip(o@) == strip(f@) + strip(r@),
    strip(f@) == strip(o@).take(strip(o@).len() - strip(r@).len()), strip(r@) == strip(o@).skip(strip(o@).len() - strip(r@).len()), f@.len() > 0 ==> addr(o) < addr(r), strip(f@).len() > 0 ==> f@.len() > 0, nolc(src(o).text, pos(o), pos(r)) ==> ntcs(f@)
{ reveal(at); reveal(is_split);
  lemma_suf(o, r); lemma_pos(o); lemma_pos(r); lemma_split(o, f, r);
  let a = addr(o) - addr(T); let i = idx(T@, a); let t = tc(T@);
  lemma_tc(T@); lemma_bnd_le(T@, a);
  assert(f@ =~= T@.subrange(i, i + f@.len()));
  lemma_idx_add(T@, a, f@);
  lemma_bnd_le(T@, a + blen(f@));
  assert(r@ =~= t.skip(i + f@.len()));
  assert(o@ =~= f@ + r@); lemma_strip_add(f@, r@);
  assert(strip(f@) =~= strip(o@).take(strip(o@).len() - strip(r@).len()));
  assert(strip(r@) =~= strip(o@).skip(strip(o@).len() - strip(r@).len()));
  reveal(nolc); axiom_src(o); if f@.len() > 0 { assert(f@.last() == o@[f@.len() - 1]); assert(o@[f@.len() - 1] == src(o).text[pos(r) - 1]); }
  lemma_strip_len(f@); lemma_blen_ge(f@);
}
pub broadcast proof fn lemma_at_end(T: Str<'_>, x: Str<'_>)
  requires at(T, x)
  ensures #![trigger at(T, x), blen(x@)] addr(x) + blen(x@) - addr(T) == blen(tc(T@)), blen(tc(T@)) <= blen(T@), bnd(T@, addr(x) - addr(T)), bnd(T@, blen(tc(T@)) as int), idx(T@, blen(tc(T@)) as int) == tc(T@).len(),
    pc(T@, addr(x) - addr(T), addr(x) - addr(T) + blen(x@)) == x@, ntcs(x@), x@.len() > 0 ==> blen(x@) > 0, forall|j: int| tc(T@).len() <= j < T@.len() ==> T@[j] == ','
{ reveal(at); lemma_pos(x); let a = addr(x) - addr(T); let i = idx(T@, a);
  lemma_tc(T@); lemma_bnd_le(T@, a);
  assert(x@ =~= T@.subrange(i, i + x@.len()));
  lemma_idx_add(T@, a, x@); lemma_bnd_le(T@, a + blen(x@));
  assert(T@.take(tc(T@).len() as int) =~= T@.take(i) + x@); lemma_blen_add(T@.take(i), x@);
  lemma_blen_ge(x@);
}
// chains of spans
pub broadcast proof fn lemma_chain_push(t: Seq<char>, v: Seq<Span>, s: Span, a: int, b: int)
  ensures #[trigger] chain(t, v.push(s), a, b) == (s.start < s.end && s.end == b && bnd(t, s.start as int) && bnd(t, s.end as int) && strip(pc(t, s.start as int, s.end as int)).len() > 0 && ntcs(pc(t, s.start as int, s.end as int)) && chain(t, v, a, s.start as int))
{ reveal_with_fuel(chain, 2); assert(v.push(s).drop_last() =~= v); }
pub broadcast proof fn lemma_chain_empty(t: Seq<char>, v: Seq<Span>, a: int, b: int)
  requires v.len() == 0
  ensures #[trigger] chain(t, v, a, b) == (a == b)
{ reveal_with_fuel(chain, 2); }
pub broadcast proof fn lemma_wv_push(t: Seq<char>, v: Seq<Span>, s: Span)
  ensures #[trigger] wv(t, v.push(s)) == wv(t, v).push(strip(pc(t, s.start as int, s.end as int)))
{ reveal_with_fuel(wv, 2); assert(v.push(s).drop_last() =~= v); }
pub broadcast proof fn lemma_wv_empty(t: Seq<char>, v: Seq<Span>)
  requires v.len() == 0
  ensures #[trigger] wv(t, v) == Seq::<Seq<char>>::empty()
{ reveal_with_fuel(wv, 2); }
pub proof fn lemma_wv_len(t: Seq<char>, v: Seq<Span>)
  ensures wv(t, v).len() == v.len()
  decreases v.len()
{ reveal_with_fuel(wv, 2); if v.len() > 0 { lemma_wv_len(t, v.drop_last()); } }
pub broadcast proof fn lemma_ag_push(full: Seq<Seq<char>>, v: Seq<Seq<char>>, x: Seq<char>, d: Seq<Seq<char>>)
  ensures #[trigger] ag(full, v.push(x), d) == ag(full, v, seq![x] + d)
{ reveal(ag); assert(v.push(x) + d =~= v + (seq![x] + d)); }
pub broadcast proof fn lemma_ag_ends(full: Seq<Seq<char>>, v: Seq<Seq<char>>, d: Seq<Seq<char>>)
  requires #[trigger] ag(full, v, d)
  ensures d.len() == 0 ==> full == v, d.len() == 1 ==> full == v.push(d[0])
{ reveal(ag); if d.len() == 0 { assert(v + d =~= v); } if d.len() == 1 { assert(v + d =~= v.push(d[0])); } }
pub broadcast proof fn lemma_ag_start(full: Seq<Seq<char>>, v: Seq<Seq<char>>)
  requires v.len() == 0
  ensures #[trigger] ag(full, v, full)
{ reveal(ag); assert(v + full =~= full); }

pub broadcast proof fn lemma_chain_bounds(t: Seq<char>, v: Seq<Span>, a: int, b: int)
  requires #[trigger] chain(t, v, a, b)
  ensures v.len() == 0 ==> a == b, v.len() > 0 ==> v[0].start == a && v.last().end == b && a < b && bnd(t, a) && bnd(t, b),
    forall|k: int| 0 <= k < v.len() ==> a <= (#[trigger] v[k]).start < v[k].end <= b
  decreases v.len()
{ reveal_with_fuel(chain, 2);
  if v.len() > 0 {
    lemma_chain_bounds(t, v.drop_last(), a, v.last().start as int);
    assert forall|k: int| 0 <= k < v.len() implies a <= (#[trigger] v[k]).start < v[k].end <= b by { if k < v.len() - 1 { assert(v[k] == v.drop_last()[k]); } }
    if v.len() > 1 { assert(v.drop_last()[0] == v[0]); }
  }
}
pub proof fn lemma_chain_tail(t: Seq<char>, v: Seq<Span>, a: int, b: int)
  requires chain(t, v, a, b), v.len() > 0
  ensures chain(t, v.skip(1), v[0].end as int, b), wv(t, v) == seq![strip(pc(t, v[0].start as int, v[0].end as int))] + wv(t, v.skip(1)),
    strip(pc(t, v[0].start as int, v[0].end as int)).len() > 0, ntcs(pc(t, v[0].start as int, v[0].end as int)), bnd(t, v[0].end as int), bnd(t, v[0].start as int)
  decreases v.len()
{ reveal_with_fuel(chain, 2); reveal_with_fuel(wv, 2);
  if v.len() == 1 { assert(v.skip(1).len() == 0); assert(v.drop_last().len() == 0); assert(wv(t, v) =~= seq![strip(pc(t, v[0].start as int, v[0].end as int))] + wv(t, v.skip(1))); }
  else {
    lemma_chain_tail(t, v.drop_last(), a, v.last().start as int);
    assert(v.drop_last().skip(1) =~= v.skip(1).drop_last()); assert(v.skip(1).last() == v.last()); assert(v.drop_last()[0] == v[0]);
    assert(wv(t, v) =~= seq![strip(pc(t, v[0].start as int, v[0].end as int))] + wv(t, v.skip(1)));
  }
}
// chunks
pub proof fn lemma_cend(t: Seq<char>, i: int)
  requires 0 <= i <= t.len()
  ensures i <= cend(t, i) <= t.len(), forall|k: int| i <= k < cend(t, i) ==> !issep(#[trigger] t[k]), cend(t, i) < t.len() ==> issep(t[cend(t, i)])
  decreases t.len() - i
{ if i < t.len() && !issep(t[i]) { lemma_cend(t, i + 1); } }
pub proof fn lemma_cend_mid(t: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= cend(t, i), i <= t.len()
  ensures cend(t, j) == cend(t, i)
  decreases j - i
{ if i < j { lemma_cend(t, i); lemma_cend_mid(t, i + 1, j); } }
pub proof fn lemma_cend_skip(t: Seq<char>, i: int, k: int)
  requires 0 <= i, 0 <= k, i + k <= t.len()
  ensures i + cend(t.skip(i), k) == cend(t, i + k)
  decreases t.len() - i - k
{ if i + k < t.len() && !issep(t[i + k]) { lemma_cend_skip(t, i, k + 1); } }
pub broadcast proof fn lemma_chunk(T: Str<'_>, s: Str<'_>, c: Str<'_>, n: Option<Str<'_>>)
  requires #[trigger] chunk(s, c, n), #[trigger] src(T) == src(s), pos(T) <= pos(s)
  ensures chunk_at(T, c, n, pos(s) - pos(T)), addr(c) == addr(s), n is Some ==> n->0@.len() < s@.len()
{ reveal(chunk); reveal(chunk_at); lemma_suf(T, s); lemma_cend_skip(T@, pos(s) - pos(T), 0); lemma_pos(s); lemma_cend(s@, 0);
  let i = pos(s) - pos(T);
  lemma_pos(T);
  assert(s@.take(cend(s@, 0)) =~= T@.subrange(i, cend(T@, i)));
  if n is Some { lemma_pos(n->0); }
}
pub broadcast proof fn lemma_chunk_facts(T: Str<'_>, c: Str<'_>, n: Option<Str<'_>>, i: int)
  requires #[trigger] chunk_at(T, c, n, i)
  ensures 0 <= i <= cend(T@, i) <= T@.len(), 0 <= addr(c) - addr(T), addr(c) - addr(T) + blen(c@) <= blen(T@),
    bnd(T@, addr(c) - addr(T)), idx(T@, addr(c) - addr(T)) == i,
    bnd(T@, addr(c) - addr(T) + blen(c@)), idx(T@, addr(c) - addr(T) + blen(c@)) == cend(T@, i),
    letters_of(c@) == letters(T@, i, cend(T@, i)), letters_of(c@) ==> first(T@, i) == Some(i), !letters_of(c@) ==> first(T@, i) == first_o(T@, nextchunk(T@, i)),
    c@.len() == 0 ==> !letters_of(c@),
    match n { None => nextchunk(T@, i) is None && blen(T@) == addr(c) - addr(T) + blen(c@),
      Some(m) => nextchunk(T@, i) == Some(pos(m) - pos(T)) && src(m) == src(T) && pos(m) > pos(T) && addr(m) - addr(T) - 1 == addr(c) - addr(T) + blen(c@) && blen(c@) + addr(c) - addr(T) < blen(T@) }
{ reveal(chunk_at);
  let t = T@; let j = cend(t, i);
  lemma_cend(t, i);
  lemma_idx(t, i); lemma_bnd_le(t, addr(c) - addr(T));
  assert(t.subrange(i, i + c@.len()) =~= c@);
  lemma_idx_add(t, addr(c) - addr(T), c@);
  lemma_bnd_le(t, addr(c) - addr(T) + blen(c@));
  if letters_of(c@) { let k = choose|k: int| 0 <= k < c@.len() && #[trigger] c@[k] != ','; assert(t[i + k] == c@[k]); assert(letters(t, i, j)); }
  if letters(t, i, j) { let k = choose|k: int| i <= k < j && #[trigger] t[k] != ','; assert(c@[k - i] == t[k]); }
  match n {
    None => { assert(t.take(t.len() as int) =~= t); }
    Some(m) => {
      lemma_pos(T); lemma_pos(m); axiom_src(T); lemma_suf(T, m);
      assert(t.take(j + 1).drop_last() =~= t.take(j)); reveal_with_fuel(blen, 2);
      assert(t.take(j + 1).last() == t[j]);
      assert(blen(t.take(j + 1)) == blen(t.take(j)) + 1);
      lemma_blen_mono(t, j + 1, t.len() as int); assert(t.take(t.len() as int) =~= t);
    }
  }
}
/// inside a chunk
pub proof fn lemma_sub(T: Seq<char>, i: int, j: int, x: int)
  requires 0 <= i <= j <= T.len(), bnd(T.subrange(i, j), x)
  ensures bnd(T, blen(T.take(i)) + x), idx(T, blen(T.take(i)) + x) == i + idx(T.subrange(i, j), x), 0 <= idx(T.subrange(i, j), x) <= j - i
{
  let C = T.subrange(i, j); lemma_bnd_le(C, x); let k = idx(C, x);
  assert(T.take(i + k) =~= T.take(i) + C.take(k)); lemma_blen_add(T.take(i), C.take(k)); lemma_idx(T, i + k);
}
pub proof fn lemma_shift(T: Seq<char>, i: int, j: int, v: Seq<Span>, w: Seq<Span>, a: int, b: int)
  requires 0 <= i <= j <= T.len(), chain(T.subrange(i, j), v, a, b), shifted(v, w, blen(T.take(i)) as int)
  ensures chain(T, w, a + blen(T.take(i)), b + blen(T.take(i))), wv(T, w) == wv(T.subrange(i, j), v)
  decreases v.len()
{ reveal_with_fuel(chain, 2); reveal_with_fuel(wv, 2); reveal(shifted);
  if v.len() > 0 {
    let C = T.subrange(i, j); let s = v.last(); let r = w.last();
    assert(w[w.len() - 1].start == v[v.len() - 1].start + blen(T.take(i)));
    assert(shifted(v.drop_last(), w.drop_last(), blen(T.take(i)) as int)) by {
      assert forall|k: int| 0 <= k < v.drop_last().len() implies (#[trigger] w.drop_last()[k]).start == v.drop_last()[k].start + blen(T.take(i)) && w.drop_last()[k].end == v.drop_last()[k].end + blen(T.take(i)) by { assert(w[k].start == v[k].start + blen(T.take(i))); }
    }
    lemma_shift(T, i, j, v.drop_last(), w.drop_last(), a, s.start as int);
    lemma_sub(T, i, j, s.start as int); lemma_sub(T, i, j, s.end as int);
    lemma_idx_le(C, s.start as int, s.end as int);
    assert(pc(T, r.start as int, r.end as int) =~= pc(C, s.start as int, s.end as int));
  }
}
pub proof fn lemma_dec_tail(S: Seq<char>, X: Seq<char>, R: Seq<char>)
  requires S == X + R, dec(S).len() > 1, dec(S)[0] == X
  ensures dec(S).skip(1) == dec(R), R.len() > 0
{
  assert(dec(S) == dec0(S));
  let r0 = falls(S)->0; let n = S.len() - r0.len(); let r = S.skip(n);
  assert(dec0(S) == seq![S.take(n)] + dec0(r));
  assert(dec0(S)[0] =~= S.take(n));
  assert(R =~= r);
  assert(dec0(S).skip(1) =~= dec0(r));
  if r.len() == 0 { assert(dec0(r).len() == 0); }
  assert(r.last() == S.last());
}
pub proof fn lemma_nleft(t: Seq<char>, i: int)
  requires 0 <= i <= t.len()
  ensures nleft(t, Some(i)) >= dec(strip(t.subrange(i, cend(t, i)))).len()
{ lemma_cend(t, i); }

pub broadcast group grp_dec { lemma_at_facts, lemma_trim_at, lemma_at_retrim, lemma_at_split, lemma_at_end, lemma_chain_push, lemma_chain_empty, lemma_wv_push, lemma_wv_empty, lemma_ag_push, lemma_ag_ends, lemma_ag_start, lemma_strip_empty, lemma_chain_bounds }
//=== state
pub broadcast proof fn lemma_wellw_new(T: Str<'_>, c: Str<'_>, n: Option<Str<'_>>, i: int, v: Seq<Span>, w: Seq<Span>, off: int)
  requires #[trigger] chunk_at(T, c, n, i), #[trigger] shifted(v, w, off), off == addr(c) - addr(T), letters_of(c@),
    chain(c@, v, 0, if v.len() == 0 { 0 } else { v.last().end as int }), dec_is(strip(c@), #[trigger] wv(c@, v)),
    v.len() == 0 ==> forall|k: int| 0 <= k < c@.len() ==> c@[k] == ',',
    v.len() > 0 ==> forall|k: int| idx(c@, v.last().end as int) <= k < c@.len() ==> c@[k] == ','
  ensures wellw(T@, w, off + blen(c@)), idx(T@, w[0].start as int) == i, w.len() > 0
{
  lemma_chunk_facts(T, c, n, i); lemma_wv_len(c@, v);
  if !(strip(c@).len() > 0 && is_cons(strip(c@).last())) { lemma_ag_ends(dec0(strip(c@)), wv(c@, v), Seq::empty()); }
  if v.len() == 0 { assert(!letters_of(c@)); }
  reveal(chunk_at); reveal(wellw); reveal(shifted);
  let j = cend(T@, i); let b = v.last().end as int;
  lemma_chain_bounds(c@, v, 0, b);
  lemma_shift(T@, i, j, v, w, 0, b);
  lemma_chain_bounds(T@, w, off, off + b);
  lemma_sub(T@, i, j, b); lemma_bnd_le(c@, b);
  assert forall|k: int| idx(T@, off + b) <= k < idx(T@, off + blen(c@)) implies T@[k] == ',' by { assert(c@[k - i] == T@[k]); }
}
pub broadcast proof fn lemma_wellw_facts(t: Seq<char>, w: Seq<Span>, e: int)
  requires #[trigger] wellw(t, w, e)
  ensures w.len() > 0, e <= blen(t), bnd(t, e), bnd(t, w[0].start as int), bnd(t, w[0].end as int), w[0].start < w[0].end <= e,
    ({ let a = idx(t, w[0].start as int); let b = idx(t, w[0].end as int);
      &&& strip(t.subrange(a, b)).len() > 0 &&& ntcs(t.subrange(a, b)) &&& strip(t.subrange(a, b)) == dec(strip(t.subrange(a, cend(t, a))))[0] &&& dec(strip(t.subrange(a, cend(t, a)))).len() == w.len()
      &&& 0 <= a < b <= cend(t, a) &&& cend(t, a) == idx(t, e) &&& first(t, a) == Some(a) &&& cend(t, b) == cend(t, a) &&& w.len() == 1 ==> after(t, b) == nextchunk(t, a)
      &&& nleft(t, Some(a)) >= w.len() })
{ reveal(wellw);
  lemma_chain_bounds(t, w, w[0].start as int, w.last().end as int);
  lemma_chain_tail(t, w, w[0].start as int, w.last().end as int);
  let a = idx(t, w[0].start as int); let b = idx(t, w[0].end as int);
  lemma_idx_le(t, w[0].start as int, w[0].end as int); lemma_idx_le(t, w[0].end as int, w.last().end as int); lemma_idx_le(t, w.last().end as int, e);
  if a == b { assert(t.subrange(a, b).len() == 0); lemma_strip_len(t.subrange(a, b)); }
  lemma_cend(t, a); lemma_cend_mid(t, a, b);
  lemma_letters_strip(t, a, b); let k = choose|k: int| a <= k < b && t[k] != ','; assert(letters(t, a, cend(t, a)));
  lemma_wv_len(t, w);
  assert(wv(t, w)[0] == strip(t.subrange(a, b)));
  lemma_nleft(t, a);
}
pub broadcast proof fn lemma_wellw_tail(t: Seq<char>, w: Seq<Span>, e: int)
  requires #[trigger] wellw(t, w, e), w.len() > 1
  ensures wellw(t, #[trigger] w.skip(1), e), w.skip(1)[0].start == w[0].end, after(t, idx(t, w[0].end as int)) == Some(idx(t, w[0].end as int))
{
  lemma_wellw_facts(t, w, e); reveal(wellw);
  let a = w[0].start as int; let z = w.last().end as int; let b = w[0].end as int;
  lemma_chain_bounds(t, w, a, z);
  lemma_chain_tail(t, w, a, z); lemma_chain_bounds(t, w.skip(1), b, z);
  lemma_idx_le(t, a, b); lemma_idx_le(t, b, e);
  let S = strip(t.subrange(idx(t, a), idx(t, e))); let X = strip(t.subrange(idx(t, a), idx(t, b))); let R = strip(t.subrange(idx(t, b), idx(t, e)));
  assert(t.subrange(idx(t, a), idx(t, e)) =~= t.subrange(idx(t, a), idx(t, b)) + t.subrange(idx(t, b), idx(t, e)));
  lemma_strip_add(t.subrange(idx(t, a), idx(t, b)), t.subrange(idx(t, b), idx(t, e)));
  lemma_wv_len(t, w);
  lemma_dec_tail(S, X, R);
  assert(wv(t, w).skip(1) =~= wv(t, w.skip(1)));
  lemma_letters_strip(t, idx(t, b), idx(t, e));
}
/// the remainder's position, from the address where the chunk before it ends
pub broadcast proof fn lemma_wf_next(t: Seq<char>, w: Seq<Span>, e: int, T: Str<'_>, m: Str<'_>)
  requires #[trigger] wellw(t, w, e), t == T@, #[trigger] src(T) == #[trigger] src(m), pos(T) <= pos(m), e == addr(m) - addr(T) - 1
  ensures nextchunk(t, idx(t, w[0].start as int)) == Some(pos(m) - pos(T))
{
  lemma_wellw_facts(t, w, e); lemma_suf(T, m); lemma_pos(T); lemma_pos(m);
  let j = idx(t, e); let k = pos(m) - pos(T);
  lemma_bnd_le(t, e); lemma_bnd_le(t, e + 1);
  if k < j + 1 { lemma_blen_mono(t, k, j); } else if k > j + 1 { lemma_blen_mono(t, j, k); }
}
pub broadcast group grp_dec2 { lemma_chunk, lemma_chunk_facts, lemma_wellw_new, lemma_wellw_facts, lemma_wellw_tail, lemma_wf_next }

// ---- what the contracts of Decomposer add up to, for all texts and histories ----
pub proof fn lemma_strip_idem(s: Seq<char>)
  ensures strip(strip(s)) == strip(s)
  decreases s.len()
{ reveal_with_fuel(strip, 2);
  if s.len() > 0 { lemma_strip_idem(s.skip(1)); if s[0] != ',' { assert(strip(s).skip(1) =~= strip(s.skip(1))); } }
}
/// the words from position p on
pub open spec fn wfrom(t: Seq<char>, p: Option<int>) -> Seq<Seq<char>> decreases (match p { Some(i) => t.len() - i + 1, None => 0 }) {
  match p {
    Some(i) => if 0 <= i <= t.len() && i <= cend(t, i) { dec(strip(t.subrange(i, cend(t, i)))) + wfrom(t, nextchunk(t, i)) } else { Seq::empty() },
    None => Seq::empty() }
}
pub proof fn lemma_dec_empty(t: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= t.len(), !letters(t, i, j)
  ensures dec(strip(t.subrange(i, j))).len() == 0
{ lemma_letters_strip(t, i, j); }
/// before the next word, after the last one and after a word's end there is only noise, and no word contains a separator
pub proof fn C03_only_noise_is_skipped(t: Seq<char>, i: int)
  requires 0 <= i <= t.len()
  ensures first(t, i) is Some ==> i <= first(t, i)->0 < t.len() && noise(t, i, first(t, i)->0), //@C03
    first(t, i) is None ==> noise(t, i, t.len() as int), //@C03
  decreases t.len() - i
{ lemma_cend(t, i);
  if !letters(t, i, cend(t, i)) && cend(t, i) < t.len() { C03_only_noise_is_skipped(t, cend(t, i) + 1); }
}
pub proof fn C03_words_have_no_separator(t: Seq<char>, j: int, e: int)
  requires 0 <= j <= e <= cend(t, j), j <= t.len()
  ensures forall|k: int| j <= k < e ==> !issep(#[trigger] t[k]), //@C03
    after(t, e) is Some ==> e <= after(t, e)->0 <= t.len() && noise(t, e, after(t, e)->0), //@C03
    after(t, e) is None ==> noise(t, e, t.len() as int), //@C03
{ lemma_cend(t, j); lemma_cend_mid(t, j, e); }
pub proof fn lemma_wfrom_first(t: Seq<char>, i: int)
  requires 0 <= i <= t.len()
  ensures wfrom(t, Some(i)) == (match first(t, i) { Some(j) => wfrom(t, Some(j)), None => Seq::empty() })
  decreases t.len() - i
{ lemma_cend(t, i);
  if !letters(t, i, cend(t, i)) {
    lemma_dec_empty(t, i, cend(t, i));
    if cend(t, i) < t.len() { lemma_wfrom_first(t, cend(t, i) + 1); assert(wfrom(t, Some(i)) =~= wfrom(t, Some(cend(t, i) + 1))); }
    else { assert(wfrom(t, None) =~= Seq::empty()); assert(wfrom(t, Some(i)) =~= Seq::empty()); }
  }
}
/// each decomposing step yields the first of the words that are left, and leaves the others
pub proof fn C07_steps_yield_the_words(t: Seq<char>, i: int, j: int, e: int)
  requires 0 <= i <= t.len(), first(t, i) == Some(j), 0 <= j < e <= cend(t, j), strip(t.subrange(j, e)).len() > 0, strip(t.subrange(j, e)) == dec(strip(t.subrange(j, cend(t, j))))[0]
  ensures wfrom(t, Some(i)) == seq![strip(t.subrange(j, e))] + wfrom(t, after(t, e)), //@C07
{
  C03_only_noise_is_skipped(t, i); lemma_wfrom_first(t, i); lemma_cend(t, j); lemma_cend_mid(t, j, e);
  let c = cend(t, j); let S = strip(t.subrange(j, c)); let X = strip(t.subrange(j, e)); let R = strip(t.subrange(e, c));
  assert(t.subrange(j, c) =~= t.subrange(j, e) + t.subrange(e, c)); lemma_strip_add(t.subrange(j, e), t.subrange(e, c));
  lemma_letters_strip(t, e, c);
  if dec(S).len() > 1 {
    lemma_dec_tail(S, X, R);
    assert(wfrom(t, Some(e)) == dec(R) + wfrom(t, nextchunk(t, e)));
    assert(wfrom(t, Some(i)) =~= seq![X] + wfrom(t, Some(e)));
  } else {
    assert(dec(S).len() == 1 && dec(S)[0] == S) by {
      if !(S.len() > 0 && is_cons(S.last())) {
        if falls(S) is Some && falls(S)->0.len() < S.len() {
          let n = S.len() - falls(S)->0.len(); let r = S.skip(n as int);
          if falls(r) is Some || pw(r) { assert(dec0(S) == seq![S.take(n as int)] + dec0(r)); if r.len() == 0 { assert(S.take(n as int) =~= S); assert(dec0(S) =~= seq![S]); } else { assert(dec0(r).len() > 0) by { lemma_dec0_some(r); } } }
        }
      }
    }
    assert(R.len() == 0);
    assert(wfrom(t, Some(i)) =~= seq![X] + wfrom(t, nextchunk(t, j)));
  }
}
pub proof fn lemma_dec0_some(r: Seq<char>) requires r.len() > 0 ensures dec0(r).len() > 0 {}
pub proof fn C07_no_word_left(t: Seq<char>, i: int)
  requires 0 <= i <= t.len(), first(t, i) is None
  ensures wfrom(t, Some(i)).len() == 0, //@C07
{ lemma_wfrom_first(t, i); }
pub proof fn C04_nleft_counts_words(t: Seq<char>, p: Option<int>)
  requires p is Some ==> 0 <= p->0 <= t.len()
  ensures nleft(t, p) == wfrom(t, p).len(), //@C04
  decreases (match p { Some(i) => t.len() - i + 1, None => 0 })
{ if p is Some { lemma_cend(t, p->0); C04_nleft_counts_words(t, nextchunk(t, p->0)); } }
pub proof fn lemma_wfrom_skip(t: Seq<char>, i: int, k: int)
  requires 0 <= i, 0 <= k, i + k <= t.len()
  ensures wfrom(t, Some(i + k)) == wfrom(t.skip(i), Some(k))
  decreases t.len() - i - k
{ let u = t.skip(i); lemma_cend_skip(t, i, k); lemma_cend(u, k);
  assert(t.subrange(i + k, cend(t, i + k)) =~= u.subrange(k, cend(u, k)));
  if cend(u, k) < u.len() { lemma_wfrom_skip(t, i, cend(u, k) + 1); } else { assert(wfrom(t, None) == wfrom(u, None)); }
}
pub proof fn lemma_cend_is(t: Seq<char>, i: int, c: int)
  requires 0 <= i <= c <= t.len(), forall|k: int| i <= k < c ==> !issep(#[trigger] t[k]), c < t.len() ==> issep(t[c])
  ensures cend(t, i) == c
  decreases c - i
{ if i < c { lemma_cend_is(t, i + 1, c); } }
pub proof fn lemma_strip_from(s: Seq<char>, k: int)
  requires 0 <= k < strip(s).len()
  ensures exists|j: int| 0 <= j < s.len() && strip(s)[k] == #[trigger] s[j]
  decreases s.len()
{ reveal_with_fuel(strip, 2);
  if s.len() > 0 {
    if s[0] == ',' { lemma_strip_from(s.skip(1), k); let j = choose|j: int| 0 <= j < s.skip(1).len() && strip(s)[k] == #[trigger] s.skip(1)[j]; assert(s[j + 1] == strip(s)[k]); }
    else if k > 0 { lemma_strip_from(s.skip(1), k - 1); let j = choose|j: int| 0 <= j < s.skip(1).len() && strip(s.skip(1))[k - 1] == #[trigger] s.skip(1)[j]; assert(s[j + 1] == strip(s)[k]); }
    else { assert(s[0] == strip(s)[0]); }
  }
}
/// commas play no role: a text has the words of the text without its commas
pub proof fn C05_words_do_not_depend_on_commas(t: Seq<char>)
  ensures wfrom(t, Some(0)) == wfrom(strip(t), Some(0)), //@C05
  decreases t.len()
{
  let c = cend(t, 0); lemma_cend(t, 0); let a = t.take(c); let u = strip(t); let d = strip(a).len() as int;
  assert(t.subrange(0, c) =~= a);
  assert(t =~= a + t.skip(c)); lemma_strip_add(a, t.skip(c)); lemma_strip_idem(a);
  assert forall|k: int| 0 <= k < d implies !issep(#[trigger] u[k]) by { lemma_strip_from(a, k); let j = choose|j: int| 0 <= j < a.len() && strip(a)[k] == #[trigger] a[j]; assert(!issep(t[j])); }
  if c < t.len() {
    assert(t.skip(c) =~= seq![t[c]] + t.skip(c + 1)); lemma_strip_add(seq![t[c]], t.skip(c + 1));
    reveal_with_fuel(strip, 3); assert(strip(seq![t[c]]) =~= seq![t[c]]);
    assert(u[d] == t[c]);
    lemma_cend_is(u, 0, d);
    assert(u.subrange(0, d) =~= strip(a));
    lemma_wfrom_skip(t, c + 1, 0); lemma_wfrom_skip(u, d + 1, 0);
    assert(u.skip(d + 1) =~= strip(t.skip(c + 1)));
    C05_words_do_not_depend_on_commas(t.skip(c + 1));
  } else {
    reveal_with_fuel(strip, 2); assert(t.skip(c).len() == 0);
    lemma_cend_is(u, 0, d);
    assert(u.subrange(0, d) =~= strip(a));
    assert(wfrom(t, None) == wfrom(u, None));
  }
}
pub proof fn C05_same_text_up_to_commas(s: Seq<char>, t: Seq<char>)
  requires strip(s) == strip(t)
  ensures wfrom(s, Some(0)) == wfrom(t, Some(0)), //@C05
{ C05_words_do_not_depend_on_commas(s); C05_words_do_not_depend_on_commas(t); }
