// ---- reference lexing, as a relation between states ----
// t: the text, p: position of the first character not yet given out (None: nothing left), st: state
pub open spec fn isq(c: Selmaho) -> bool { c is Zoi || c is Muhoi || c is Sohehai }
pub open spec fn isp(c: Selmaho) -> bool { c is Mehoi || c is Zohoi || c is Dohoi }
pub open spec fn isend(c: Selmaho) -> bool { c is Faho || c is Fahoho }
/// the span of characters i to j
pub open spec fn spn(t: Seq<char>, i: int, j: int) -> Span { Span { start: blen(t.take(i)) as u32, end: blen(t.take(j)) as u32 } }
/// the word at j, without commas, and where it ends
pub open spec fn word(t: Seq<char>, j: int) -> Seq<char> { dec(strip(t.subrange(j, cend(t, j))))[0] }
pub open spec fn wend_is(t: Seq<char>, j: int, e: int) -> bool { j < e <= cend(t, j) && ntcs(t.subrange(j, e)) && strip(t.subrange(j, e)) == word(t, j) }
#[verifier::opaque]
pub open spec fn wend(t: Seq<char>, j: int) -> int { choose|e: int| wend_is(t, j, e) }
/// start of the first raw chunk from p on that equals D up to commas
pub open spec fn qclose(t: Seq<char>, p: Option<int>, D: Seq<char>) -> Option<int> decreases (match p { Some(i) => t.len() - i + 1, None => 0 }) {
  match p {
    Some(i) => if !(0 <= i <= t.len() && i <= cend(t, i)) { None } else if strip(t.subrange(i, cend(t, i))) == D { Some(i) } else { qclose(t, nextchunk(t, i), D) },
    None => None }
}
pub open spec fn left(t: Seq<char>, p: Option<int>) -> int { match p { Some(i) => t.len() - i + 1, None => 0 } }
pub open spec fn tokin(t: Seq<char>, s: Span) -> bool { s.start <= s.end && bnd(t, s.start as int) && bnd(t, s.end as int) }
/// what a delimited quotation remembers
pub struct Q { pub n: int, pub ini: Span, pub first: bool, pub delim: Span }
pub open spec fn gq(q: DelimitedQuoteState) -> Q { Q { n: nz(q.how_many) as int, ini: q.initiator_span, first: q.is_first, delim: q.starting_delimiter_span } }
pub open spec fn gqo(q: Option<DelimitedQuoteState>) -> Option<Q> { match q { Some(q) => Some(gq(q)), None => None } }
/// tokens already decided on but not yet yielded, and the quotation that follows them
pub open spec fn qtoks(st: State) -> Seq<Token> { match st { State::TwoMoreTokensThen(a, q) => seq![a@[0], a@[1]], State::OneMoreTokenThen(a, q) => seq![a], _ => Seq::empty() } }
pub open spec fn qthen(st: State) -> Option<Q> { match st { State::TwoMoreTokensThen(a, q) => gqo(q), State::OneMoreTokenThen(a, q) => gqo(q), State::DelimitedQuote(q) => Some(gq(q)), _ => None } }
pub open spec fn queue(st: State, toks: Seq<Token>, q: Option<Q>) -> bool { !(st is Done) && !(st is PauseDelimitedQuote) && qtoks(st) =~= toks && qthen(st) == q }
pub open spec fn queued(st: State) -> bool { st is TwoMoreTokensThen || st is OneMoreTokenThen }
pub open spec fn qnext(q: Q, end: Span) -> Option<Q> { if q.n > 1 { Some(Q { n: q.n - 1, ini: q.ini, first: false, delim: end }) } else { None } }
pub open spec fn zd(s: Span) -> Token { Token { experimental: false, selmaho: Selmaho::ZoiDelimiter, span: s } }
pub open spec fn anyt(s: Span) -> Token { Token { experimental: false, selmaho: Selmaho::AnyText, span: s } }
pub open spec fn dpiece(t: Seq<char>, s: Span) -> Seq<char> { strip(pc(t, s.start as int, s.end as int)) }
pub open spec fn quoted(t: Seq<char>, st: State) -> Seq<char> { match st { State::DelimitedQuote(q) => dpiece(t, q.starting_delimiter_span), _ => Seq::empty() } }
pub open spec fn dead(p: Option<int>, st: State) -> bool { st is Done || (st is Normal && p is None) }
pub open spec fn ended(t: Seq<char>, p: Option<int>, st: State) -> bool { st is Done || (st is Normal && first_o(t, p) is None) }
pub open spec fn error(t: Seq<char>, p: Option<int>, st: State) -> Option<Error> {
  match st {
    State::Normal => match first_o(t, p) {
      Some(j) => if isq(cls(word(t, j))) && first_o(t, after(t, wend(t, j))) is None { Some(Error::DelimitedQuoteMissingSeparator { initiator_span: spn(t, j, wend(t, j)) }) } else { None },
      None => None },
    State::DelimitedQuote(q) => if qclose(t, p, quoted(t, st)) is None { Some(Error::DelimitedQuoteUnclosed { initiator_span: q.initiator_span, starting_delimiter_span: q.starting_delimiter_span }) } else { None },
    State::PauseDelimitedQuote { initiator_span } => if p is None { Some(Error::PauseDelimitedQuoteEof { initiator_span: initiator_span }) } else { None },
    _ => None }
}
pub type R = Option<Result<Token, Error>>;
/// an ordinary word
pub open spec fn s_word(t: Seq<char>, p: Option<int>, st: State, r: R, p2: Option<int>, st2: State) -> bool {
  st is Normal && first_o(t, p) is Some && error(t, p, st) is None ==> {
    let j = first_o(t, p)->0; let e = wend(t, j); let c = cls(word(t, j));
    &&& r == Some(Ok::<Token, Error>(Token { experimental: cexp(word(t, j)), selmaho: c, span: spn(t, j, e) }))
    &&& isq(c) ==> { let d = first_o(t, after(t, e))->0;
          p2 == after(t, wend(t, d)) && queue(st2, Seq::empty(), Some(Q { n: if c is Sohehai { 2 } else { 1 }, ini: spn(t, j, e), first: true, delim: spn(t, d, wend(t, d)) })) }
    &&& !isq(c) && !isend(c) ==> p2 == after(t, e)
    &&& isp(c) ==> st2 == (State::PauseDelimitedQuote { initiator_span: spn(t, j, e) })
    &&& !isq(c) && !isp(c) && !isend(c) ==> st2 is Normal
  }
}
/// an end-of-text word
pub open spec fn s_end(t: Seq<char>, p: Option<int>, st: State, r: R, p2: Option<int>, st2: State) -> bool {
  st is Normal && first_o(t, p) is Some && isend(cls(word(t, first_o(t, p)->0))) ==> dead(p2, st2)
}
/// a quotation that is closed by the chunk at i
pub open spec fn s_quote(t: Seq<char>, p: Option<int>, st: State, r: R, p2: Option<int>, st2: State) -> bool {
  st is DelimitedQuote && qclose(t, p, quoted(t, st)) is Some ==> {
    let q = gq(st->DelimitedQuote_0); let i = qclose(t, p, quoted(t, st))->0; let end = spn(t, i, cend(t, i));
    let text = anyt(spn(t, p->0, i - 1)); let n = qnext(q, end);
    if q.first { r == Some(Ok::<Token, Error>(zd(q.delim))) && queue(st2, if i == p->0 { seq![zd(end)] } else { seq![text, zd(end)] }, n) }
    else if i == p->0 { r == Some(Ok::<Token, Error>(zd(end))) && queue(st2, Seq::empty(), n) }
    else { r == Some(Ok::<Token, Error>(text)) && queue(st2, seq![zd(end)], n) }
  }
}
/// ... and where lexing continues after it
pub open spec fn s_close(t: Seq<char>, p: Option<int>, st: State, r: R, p2: Option<int>, st2: State) -> bool {
  st is DelimitedQuote && qclose(t, p, quoted(t, st)) is Some ==> p2 == nextchunk(t, qclose(t, p, quoted(t, st))->0)
}
pub open spec fn s_queue(t: Seq<char>, p: Option<int>, st: State, r: R, p2: Option<int>, st2: State) -> bool {
  queued(st) ==> r == Some(Ok::<Token, Error>(qtoks(st)[0])) && p2 == p && queue(st2, qtoks(st).skip(1), qthen(st))
}
pub open spec fn s_pause(t: Seq<char>, p: Option<int>, st: State, r: R, p2: Option<int>, st2: State) -> bool {
  st is PauseDelimitedQuote && p is Some ==> r == Some(Ok::<Token, Error>(anyt(spn(t, p->0, cend(t, p->0))))) && p2 == nextchunk(t, p->0) && st2 is Normal
}
// nothing but separators and commas from a to b
#[verifier::opaque]
pub open spec fn gap(t: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= t.len() && noise(t, a, b) }
#[verifier::opaque]
pub open spec fn gapo(t: Seq<char>, a: int, p: Option<int>) -> bool { match p { Some(i) => gap(t, a, i), None => gap(t, a, t.len() as int) } }
pub open spec fn six(t: Seq<char>, s: Span) -> int { idx(t, s.start as int) }
pub open spec fn eix(t: Seq<char>, s: Span) -> int { idx(t, s.end as int) }
/// e is where the last token ended
pub open spec fn inv09(t: Seq<char>, e: int, p: Option<int>, st: State) -> bool {
  match st {
    State::Normal => gapo(t, e, p),
    State::PauseDelimitedQuote { initiator_span } => gapo(t, e, p),
    State::DelimitedQuote(q) => if q.is_first { tokin(t, q.starting_delimiter_span) && gap(t, e, six(t, q.starting_delimiter_span)) && gapo(t, eix(t, q.starting_delimiter_span), p) } else { gapo(t, e, p) },
    State::OneMoreTokenThen(a, q) => (q is Some ==> !q->0.is_first) && tokin(t, a.span) && gap(t, e, six(t, a.span)) && gapo(t, eix(t, a.span), p),
    State::TwoMoreTokensThen(a, q) => (q is Some ==> !q->0.is_first) && tokin(t, a@[0].span) && gap(t, e, six(t, a@[0].span)) && tokin(t, a@[1].span) && gap(t, eix(t, a@[0].span), six(t, a@[1].span)) && gapo(t, eix(t, a@[1].span), p),
    State::Done => true }
}
pub open spec fn s09(t: Seq<char>, p: Option<int>, st: State, r: R, p2: Option<int>, st2: State, e: int) -> bool {
  match r {
    Some(Ok(k)) => tokin(t, k.span) && gap(t, e, six(t, k.span)) && inv09(t, eix(t, k.span), p2, st2),
    Some(Err(_)) => true,
    None => !(st is Done) ==> gap(t, e, t.len() as int) }
}
pub open spec fn wst(t: Seq<char>, st: State) -> bool {
  match st {
    State::DelimitedQuote(q) => tokin(t, q.starting_delimiter_span),
    State::OneMoreTokenThen(a, q) => q is Some ==> tokin(t, q->0.starting_delimiter_span),
    State::TwoMoreTokensThen(a, q) => q is Some ==> tokin(t, q->0.starting_delimiter_span),
    _ => true }
}
pub open spec fn wfl(l: Lexer<'_>) -> bool { wf(l.words) && l.words.input == l.input && wst(l.input@, l.state) }
/// scanning for the closing delimiter got from p0 to p, chunk by chunk
#[verifier::opaque]
pub open spec fn passed(t: Seq<char>, p0: Option<int>, p: Option<int>) -> bool {
  p == p0 || (p0 is Some && (p is Some ==> p0->0 < p->0 <= t.len() && issep(t[p->0 - 1])))
}
pub open spec fn qleft(t: Seq<char>, p: Option<int>) -> int { left(t, p) }

// ---- lemmas ----
pub proof fn lemma_wend_unique(t: Seq<char>, j: int, e: int, f: int)
  requires 0 <= j, cend(t, j) <= t.len(), wend_is(t, j, e), wend_is(t, j, f), e < f
  ensures false
{
  assert(t.subrange(j, f) =~= t.subrange(j, e) + t.subrange(e, f)); lemma_strip_add(t.subrange(j, e), t.subrange(e, f));
  assert(strip(t.subrange(e, f)).len() == 0);
  assert(t.subrange(e, f).last() == t.subrange(j, f).last());
  lemma_strip_nonempty(t.subrange(e, f));
}
pub broadcast proof fn lemma_spn(s: Span, T: Str<'_>)
  requires #[trigger] within(s, T), blen(T@) <= u32::MAX
  ensures tokin(T@, s), s == spn(T@, six(T@, s), eix(T@, s)), 0 <= six(T@, s) <= eix(T@, s) <= T@.len()
{ lemma_bnd_le(T@, s.start as int); lemma_bnd_le(T@, s.end as int); lemma_idx_le(T@, s.start as int, s.end as int); }
pub broadcast proof fn lemma_word(s: Span, T: Str<'_>)
  requires #[trigger] within(s, T), strip(piece(s, T)).len() > 0, ntcs(piece(s, T)), eix(T@, s) <= cend(T@, six(T@, s)),
    strip(piece(s, T)) == word(T@, six(T@, s))
  ensures eix(T@, s) == wend(T@, six(T@, s)), six(T@, s) < eix(T@, s)
{
  lemma_bnd_le(T@, s.start as int); lemma_idx_le(T@, s.start as int, s.end as int);
  let j = six(T@, s); let e = eix(T@, s);
  if j == e { lemma_strip_len(piece(s, T)); }
  lemma_cend(T@, j); reveal(wend);
  assert(wend_is(T@, j, e));
  let f = wend(T@, j);
  if e < f { lemma_wend_unique(T@, j, e, f); } else if f < e { lemma_wend_unique(T@, j, f, e); }
}
pub broadcast proof fn lemma_pend(d: Decomposer<'_>)
  requires wf(d)
  ensures match #[trigger] pend(d) { Some(i) => 0 <= i <= cend(d.input@, i) <= d.input@.len(), None => true }
{
  if d.current_chunk@.len() > 0 { lemma_wellw_facts(d.input@, d.current_chunk@, ce(d)); lemma_cend(d.input@, pend(d)->0); }
  else if d.chunks.rem() is Some { lemma_suf(d.input, d.chunks.rem()->0); lemma_pos(d.input); lemma_pos(d.chunks.rem()->0); lemma_cend(d.input@, pend(d)->0); }
}
pub broadcast proof fn lemma_gap_trans(t: Seq<char>, a: int, b: int, c: int)
  requires #[trigger] gap(t, a, b), #[trigger] gap(t, b, c)
  ensures gap(t, a, c)
{ reveal(gap); assert forall|k: int| a <= k < c implies #[trigger] t[k] == ',' || issep(t[k]) by { if k < b {} } }
pub broadcast proof fn lemma_gap0(t: Seq<char>, a: int, b: int)
  requires a == b, 0 <= a <= t.len()
  ensures #[trigger] gap(t, a, b)
{ reveal(gap); }
pub broadcast proof fn lemma_gapo_first(t: Seq<char>, a: int, p: Option<int>)
  requires #[trigger] gapo(t, a, p)
  ensures match #[trigger] first_o(t, p) { Some(j) => gap(t, a, j) && j < t.len(), None => gap(t, a, t.len() as int) }
{ reveal(gapo); reveal(gap);
  if p is Some { C03_only_noise_is_skipped(t, p->0); let i = p->0;
    match first_o(t, p) {
      Some(j) => { assert(gap(t, i, j)); lemma_gap_trans(t, a, i, j); }
      None => { assert(gap(t, i, t.len() as int)); lemma_gap_trans(t, a, i, t.len() as int); } } }
}
pub broadcast proof fn lemma_gapo_none(t: Seq<char>, a: int)
  ensures #[trigger] gapo(t, a, None) == gap(t, a, t.len() as int)
{ reveal(gapo); }
pub broadcast proof fn lemma_gapo_some(t: Seq<char>, a: int, i: int)
  ensures #[trigger] gapo(t, a, Some(i)) == gap(t, a, i)
{ reveal(gapo); }
pub proof fn lemma_gapo_trans(t: Seq<char>, a: int, b: int, p: Option<int>)
  requires gap(t, a, b), gapo(t, b, p)
  ensures gapo(t, a, p)
{ reveal(gapo); match p { Some(i) => lemma_gap_trans(t, a, b, i), None => lemma_gap_trans(t, a, b, t.len() as int) } }
pub broadcast proof fn lemma_gapo_after(t: Seq<char>, e: int)
  requires 0 <= e <= t.len()
  ensures gapo(t, e, #[trigger] after(t, e)), after(t, e) is Some ==> e <= after(t, e)->0
{ reveal(gapo); reveal(gap); lemma_cend(t, e);
  if letters(t, e, cend(t, e)) { } else if cend(t, e) < t.len() {
    assert forall|k: int| e <= k < cend(t, e) + 1 implies #[trigger] t[k] == ',' || issep(t[k]) by { if k < cend(t, e) { if t[k] != ',' { assert(letters(t, e, cend(t, e))); } } }
  } else { assert forall|k: int| e <= k < t.len() implies #[trigger] t[k] == ',' || issep(t[k]) by { if t[k] != ',' { assert(letters(t, e, cend(t, e))); } } }
}
pub broadcast proof fn lemma_gapo_next(t: Seq<char>, i: int)
  requires 0 <= i <= t.len()
  ensures gapo(t, cend(t, i), #[trigger] nextchunk(t, i)), nextchunk(t, i) is Some ==> nextchunk(t, i)->0 == cend(t, i) + 1 && cend(t, i) < t.len()
{ reveal(gapo); reveal(gap); lemma_cend(t, i); }
pub broadcast proof fn lemma_passed_refl(t: Seq<char>, p: Option<int>)
  ensures #[trigger] passed(t, p, p)
{ reveal(passed); }
pub broadcast proof fn lemma_passed_step(t: Seq<char>, p: Option<int>, i: int)
  requires #[trigger] passed(t, p, Some(i)), 0 <= i <= t.len()
  ensures passed(t, p, #[trigger] nextchunk(t, i)), nextchunk(t, i) != p, nextchunk(t, i) is Some ==> p is Some && p->0 < nextchunk(t, i)->0
{ reveal(passed); lemma_cend(t, i); }
pub broadcast proof fn lemma_passed(t: Seq<char>, p: Option<int>, i: int)
  requires #[trigger] passed(t, p, Some(i)), p != Some(i), p is Some ==> 0 <= p->0
  ensures p is Some, 0 <= p->0 <= i - 1, i <= t.len(), gap(t, i - 1, i)
{ reveal(passed); reveal(gap); }
pub broadcast proof fn lemma_bidx(t: Seq<char>, i: int)
  requires 0 <= i <= t.len()
  ensures #![trigger blen(t.take(i))] bnd(t, blen(t.take(i)) as int), idx(t, blen(t.take(i)) as int) == i, blen(t.take(i)) <= blen(t)
{ lemma_idx(t, i); lemma_bnd_le(t, blen(t.take(i)) as int); }
pub broadcast proof fn lemma_bmono(t: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= t.len()
  ensures #![trigger blen(t.take(i)), blen(t.take(j))] blen(t.take(i)) <= blen(t.take(j))
{ lemma_blen_mono(t, i, j); }
pub broadcast proof fn lemma_ntc(s: Str<'_>)
  requires ntcs(s@), strip(s@).len() > 0
  ensures #[trigger] ntc(s)
{ lemma_pos(s); lemma_strip_len(s@); }
pub broadcast group grp_lex { lemma_ntc, lemma_spn, lemma_word, lemma_pend, lemma_gap_trans, lemma_gap0, lemma_gapo_first, lemma_gapo_none, lemma_gapo_some, lemma_gapo_after, lemma_gapo_next, lemma_passed_refl, lemma_passed_step, lemma_passed, lemma_bidx, lemma_bmono }

// ---- what the contract of Lexer::next adds up to, for every text and any number of calls ----
pub struct S { pub p: Option<int>, pub st: State }
/// one call of Lexer::next, as its contract has it
pub open spec fn step(t: Seq<char>, a: S, r: R, b: S) -> bool {
  &&& ended(t, a.p, a.st) ==> r is None && dead(b.p, b.st)
  &&& !ended(t, a.p, a.st) ==> r is Some
  &&& error(t, a.p, a.st) is Some ==> r == Some(Err::<Token, Error>(error(t, a.p, a.st)->0)) && dead(b.p, b.st)
  &&& (r is Some && r->0 is Err) ==> error(t, a.p, a.st) is Some
  &&& s_word(t, a.p, a.st, r, b.p, b.st) && s_end(t, a.p, a.st, r, b.p, b.st) && s_quote(t, a.p, a.st, r, b.p, b.st) && s_close(t, a.p, a.st, r, b.p, b.st) && s_queue(t, a.p, a.st, r, b.p, b.st) && s_pause(t, a.p, a.st, r, b.p, b.st)
  &&& (b.p is Some ==> 0 <= b.p->0 <= t.len())
}
/// a sequence of calls on a fresh lexer: ss[k] is the state before call k, rs[k] its result
pub open spec fn run(t: Seq<char>, ss: Seq<S>, rs: Seq<R>) -> bool {
  &&& ss.len() == rs.len() + 1
  &&& ss[0].p == Some(0int) && ss[0].st is Normal
  &&& forall|k: int| 0 <= k < rs.len() ==> step(t, #[trigger] ss[k], rs[k], ss[k + 1])
}
pub open spec fn inr(t: Seq<char>, a: S) -> bool { a.p is Some ==> 0 <= a.p->0 <= t.len() }
pub proof fn lemma_run_inr(t: Seq<char>, ss: Seq<S>, rs: Seq<R>, k: int)
  requires run(t, ss, rs), 0 <= k < ss.len()
  ensures inr(t, ss[k])
{ if k > 0 { assert(step(t, ss[k - 1], rs[k - 1], ss[k])); } }

// C11
pub open spec fn rank(t: Seq<char>, a: S) -> int {
  if dead(a.p, a.st) { 0 } else {
    4 * left(t, a.p) + match a.st { State::Normal => 0, State::Done => 0, State::DelimitedQuote(_) => 1, State::PauseDelimitedQuote { initiator_span } => 1, State::OneMoreTokenThen(_, _) => 2int, State::TwoMoreTokensThen(_, _) => 3 } }
}
pub proof fn lemma_wend(t: Seq<char>, j: int)
  requires 0 <= j <= t.len(), letters(t, j, cend(t, j))
  ensures wend_is(t, j, wend(t, j))
{
  reveal(wend); lemma_cend(t, j);
  let c = cend(t, j); let s = t.subrange(j, c);
  lemma_letters_strip(t, j, c); lemma_word_pre(strip(s));
  let n = word(t, j).len() as int;
  lemma_strip_cut(s, n);
  let e = choose|e: int| 0 < e <= s.len() && ntcs(s.take(e)) && #[trigger] strip(s.take(e)) == strip(s).take(n);
  assert(s.take(e) =~= t.subrange(j, j + e));
  assert(wend_is(t, j, j + e));
}
/// the first word of a chunk is a nonempty prefix of it
pub proof fn lemma_word_pre(s: Seq<char>)
  requires s.len() > 0
  ensures dec(s).len() > 0, 0 < dec(s)[0].len() <= s.len(), dec(s)[0] == s.take(dec(s)[0].len() as int)
{
  assert(s.take(s.len() as int) =~= s);
  if !(is_cons(s.last())) { if falls(s) is Some && falls(s)->0.len() < s.len() { let n = s.len() - falls(s)->0.len(); let r = s.skip(n); if falls(r) is Some || pw(r) { assert(dec0(s) == seq![s.take(n)] + dec0(r)); assert(dec0(s)[0] == s.take(n)); } } }
}
/// a prefix of the comma-free text ends somewhere in the text, just behind a letter
pub proof fn lemma_strip_cut(s: Seq<char>, n: int)
  requires 0 < n <= strip(s).len()
  ensures exists|e: int| 0 < e <= s.len() && ntcs(s.take(e)) && #[trigger] strip(s.take(e)) == strip(s).take(n)
  decreases s.len()
{ reveal_with_fuel(strip, 2);
  let u = s.drop_last(); let z = s.last();
  assert(s =~= u + seq![z]); lemma_strip_add(u, seq![z]); assert(seq![z].skip(1).len() == 0);
  assert(s.take(s.len() as int) =~= s);
  if n <= strip(u).len() {
    lemma_strip_cut(u, n);
    let e = choose|e: int| 0 < e <= u.len() && ntcs(u.take(e)) && #[trigger] strip(u.take(e)) == strip(u).take(n);
    assert(u.take(e) =~= s.take(e)); assert(strip(u).take(n) =~= strip(s).take(n));
    assert(strip(s.take(e)) == strip(s).take(n));
  } else { assert(z != ','); assert(strip(s).take(n) =~= strip(s)); assert(strip(s.take(s.len() as int)) == strip(s).take(n)); }
}
pub proof fn lemma_first(t: Seq<char>, p: Option<int>)
  requires p is Some ==> 0 <= p->0 <= t.len()
  ensures first_o(t, p) is Some ==> p is Some && p->0 <= first_o(t, p)->0 < t.len() && letters(t, first_o(t, p)->0, cend(t, first_o(t, p)->0)) && wend_is(t, first_o(t, p)->0, wend(t, first_o(t, p)->0)) && wend(t, first_o(t, p)->0) <= t.len()
  decreases left(t, p)
{ if p is Some { let i = p->0; lemma_cend(t, i); if letters(t, i, cend(t, i)) { lemma_wend(t, i); } else if cend(t, i) < t.len() { lemma_first(t, Some(cend(t, i) + 1)); } } }
pub proof fn lemma_qclose(t: Seq<char>, p: Option<int>, D: Seq<char>)
  requires p is Some ==> 0 <= p->0 <= t.len()
  ensures qclose(t, p, D) is Some ==> p is Some && p->0 <= qclose(t, p, D)->0 <= t.len()
  decreases left(t, p)
{ if p is Some { lemma_cend(t, p->0); lemma_gapo_next(t, p->0); if strip(t.subrange(p->0, cend(t, p->0))) != D { lemma_qclose(t, nextchunk(t, p->0), D); } } }
/// every call that yields something brings the end nearer
pub proof fn C11_rank_decreases(t: Seq<char>, a: S, r: R, b: S)
  requires step(t, a, r, b), inr(t, a)
  ensures rank(t, b) >= 0, r is Some ==> rank(t, b) < rank(t, a), //@C11
{
  lemma_first(t, a.p);
  match a.st {
    State::Normal => { if first_o(t, a.p) is Some { let j = first_o(t, a.p)->0; let e = wend(t, j); lemma_gapo_after(t, e); lemma_first(t, after(t, e));
      if first_o(t, after(t, e)) is Some { lemma_gapo_after(t, wend(t, first_o(t, after(t, e))->0)); } } }
    State::DelimitedQuote(q) => { lemma_qclose(t, a.p, quoted(t, a.st)); if qclose(t, a.p, quoted(t, a.st)) is Some { let i = qclose(t, a.p, quoted(t, a.st))->0; lemma_cend(t, i); lemma_gapo_next(t, i); } }
    State::PauseDelimitedQuote { initiator_span } => { if a.p is Some { lemma_cend(t, a.p->0); lemma_gapo_next(t, a.p->0); } }
    _ => {}
  }
}
pub proof fn lemma_runs_down(t: Seq<char>, ss: Seq<S>, rs: Seq<R>, k: int)
  requires run(t, ss, rs), 0 <= k < ss.len(), forall|i: int| 0 <= i < k ==> (#[trigger] rs[i]) is Some
  ensures rank(t, ss[k]) + k <= rank(t, ss[0]), rank(t, ss[k]) >= 0
  decreases k
{ if k > 0 { lemma_runs_down(t, ss, rs, k - 1); assert(step(t, ss[k - 1], rs[k - 1], ss[k])); lemma_run_inr(t, ss, rs, k - 1); C11_rank_decreases(t, ss[k - 1], rs[k - 1], ss[k]); assert(rs[k - 1] is Some); } }
/// lexing ends: among the first 4 * (length + 1) + 1 calls one yields nothing
pub proof fn C11_lexing_ends(t: Seq<char>, ss: Seq<S>, rs: Seq<R>)
  requires run(t, ss, rs), rs.len() > 4 * (t.len() + 1)
  ensures exists|k: int| 0 <= k <= 4 * (t.len() + 1) && (#[trigger] rs[k]) is None, //@C11
{ if forall|k: int| 0 <= k <= 4 * (t.len() + 1) ==> (#[trigger] rs[k]) is Some { lemma_runs_down(t, ss, rs, (4 * (t.len() + 1) + 1) as int); } }
/// after nothing, or an error, or an end-of-text word, nothing more is ever yielded
pub proof fn C11_nothing_after_the_end(t: Seq<char>, ss: Seq<S>, rs: Seq<R>, i: int, k: int)
  requires run(t, ss, rs), 0 <= i < k < rs.len(),
    rs[i] is None || rs[i]->0 is Err || (ss[i].st is Normal && isend(rs[i]->0->Ok_0.selmaho))
  ensures rs[k] is None && dead(ss[k].p, ss[k].st), //@C11
  decreases k
{
  assert(step(t, ss[k - 1], rs[k - 1], ss[k])); assert(step(t, ss[k], rs[k], ss[k + 1]));
  if k > i + 1 { C11_nothing_after_the_end(t, ss, rs, i, k - 1); }
}
// C09
/// pieces in order: behind the previous token (or the start) there are only separators and commas up to the next one
pub proof fn C09_tokens_follow_each_other(t: Seq<char>, ss: Seq<S>, rs: Seq<R>, es: Seq<int>, k: int)
  requires ss.len() == rs.len() + 1, es.len() == ss.len(), es[0] == 0, inv09(t, 0, ss[0].p, ss[0].st), 0 <= k < rs.len(),
    forall|i: int, e: int| 0 <= i < rs.len() && #[trigger] inv09(t, e, ss[i].p, ss[i].st) ==> s09(t, ss[i].p, ss[i].st, rs[i], ss[i + 1].p, ss[i + 1].st, e),
    forall|i: int| 0 <= i <= k ==> (#[trigger] rs[i]) is Some && rs[i]->0 is Ok,
    forall|i: int| 0 <= i < rs.len() && rs[i] is Some && rs[i]->0 is Ok ==> #[trigger] es[i + 1] == eix(t, rs[i]->0->Ok_0.span)
  ensures ({ let s = rs[k]->0->Ok_0.span; tokin(t, s) && es[k] <= six(t, s) <= eix(t, s) <= t.len() && noise(t, es[k], six(t, s)) }), //@C09
    inv09(t, es[k + 1], ss[k + 1].p, ss[k + 1].st), //@C09
  decreases k
{
  if k > 0 { C09_tokens_follow_each_other(t, ss, rs, es, k - 1); }
  assert(rs[k] is Some); assert(es[k + 1] == eix(t, rs[k]->0->Ok_0.span));
  assert(inv09(t, es[k], ss[k].p, ss[k].st));
  reveal(gap); let s = rs[k]->0->Ok_0.span; lemma_idx_le(t, s.start as int, s.end as int);
}
// C10
/// a closed quotation comes out as: opening delimiter, the text if any, closing delimiter, then what follows
pub proof fn C10_quotation(t: Seq<char>, a: S, r1: R, b: S, r2: R, c: S, r3: R, d: S)
  requires step(t, a, r1, b), step(t, b, r2, c), step(t, c, r3, d), inr(t, a), a.st is DelimitedQuote, gq(a.st->DelimitedQuote_0).first, qclose(t, a.p, quoted(t, a.st)) is Some
  ensures ({
    let q = gq(a.st->DelimitedQuote_0); let i = qclose(t, a.p, quoted(t, a.st))->0; let end = spn(t, i, cend(t, i));
    &&& r1 == Some(Ok::<Token, Error>(zd(q.delim)))
    &&& i > a.p->0 ==> r2 == Some(Ok::<Token, Error>(anyt(spn(t, a.p->0, i - 1)))) && r3 == Some(Ok::<Token, Error>(zd(end))) && queue(d.st, Seq::empty(), qnext(q, end)) && d.p == nextchunk(t, i)
    &&& i == a.p->0 ==> r2 == Some(Ok::<Token, Error>(zd(end))) && queue(c.st, Seq::empty(), qnext(q, end)) && c.p == nextchunk(t, i)
  }), //@C10
{
  lemma_qclose(t, a.p, quoted(t, a.st));
  assert(qtoks(b.st).len() == 1 || qtoks(b.st).len() == 2);
  assert(queued(b.st));
  assert(qtoks(b.st).skip(1).len() == qtoks(b.st).len() - 1);
}
/// and a second quotation as: the text if any, closing delimiter
pub proof fn C10_second_quotation(t: Seq<char>, a: S, r1: R, b: S, r2: R, c: S)
  requires step(t, a, r1, b), step(t, b, r2, c), inr(t, a), a.st is DelimitedQuote, !gq(a.st->DelimitedQuote_0).first, qclose(t, a.p, quoted(t, a.st)) is Some
  ensures ({
    let q = gq(a.st->DelimitedQuote_0); let i = qclose(t, a.p, quoted(t, a.st))->0; let end = spn(t, i, cend(t, i));
    &&& i > a.p->0 ==> r1 == Some(Ok::<Token, Error>(anyt(spn(t, a.p->0, i - 1)))) && r2 == Some(Ok::<Token, Error>(zd(end))) && queue(c.st, Seq::empty(), qnext(q, end)) && c.p == nextchunk(t, i)
    &&& i == a.p->0 ==> r1 == Some(Ok::<Token, Error>(zd(end))) && queue(b.st, Seq::empty(), qnext(q, end)) && b.p == nextchunk(t, i)
  }), //@C10
{
  lemma_qclose(t, a.p, quoted(t, a.st));
  if qclose(t, a.p, quoted(t, a.st))->0 > a.p->0 { assert(queued(b.st)); assert(qtoks(b.st).skip(1).len() == 0); }
}
// C05
/// what is left of the text, without commas
pub open spec fn restv(t: Seq<char>, p: Option<int>) -> Option<Seq<char>> { match p { Some(i) => Some(strip(t.skip(i))), None => None } }
/// what one sees of a token: class, flag, text without commas
pub struct TV { pub c: Selmaho, pub x: bool, pub s: Seq<char> }
pub struct QV { pub n: int, pub first: bool, pub ini: Seq<char>, pub delim: Seq<char> }
pub enum RV { Nothing, Tok(TV), NoSep(Seq<char>), Unclosed(Seq<char>, Seq<char>), NoChunk(Seq<char>) }
pub open spec fn tv(t: Seq<char>, k: Token) -> TV { TV { c: k.selmaho, x: k.experimental, s: dpiece(t, k.span) } }
pub open spec fn tvs(t: Seq<char>, ks: Seq<Token>) -> Seq<TV> { Seq::new(ks.len(), |i: int| tv(t, ks[i])) }
pub open spec fn qv(t: Seq<char>, q: Option<Q>) -> Option<QV> { match q { Some(q) => Some(QV { n: q.n, first: q.first, ini: dpiece(t, q.ini), delim: dpiece(t, q.delim) }), None => None } }
pub open spec fn rv(t: Seq<char>, r: R) -> RV { match r {
  None => RV::Nothing, Some(Ok(k)) => RV::Tok(tv(t, k)),
  Some(Err(Error::DelimitedQuoteMissingSeparator { initiator_span: a })) => RV::NoSep(dpiece(t, a)),
  Some(Err(Error::DelimitedQuoteUnclosed { initiator_span: a, starting_delimiter_span: b })) => RV::Unclosed(dpiece(t, a), dpiece(t, b)),
  Some(Err(Error::PauseDelimitedQuoteEof { initiator_span: a })) => RV::NoChunk(dpiece(t, a)) } }
pub open spec fn same(t: Seq<char>, a: S, u: Seq<char>, b: S) -> bool {
  if dead(a.p, a.st) || dead(b.p, b.st) { dead(a.p, a.st) && dead(b.p, b.st) } else {
    &&& restv(t, a.p) == restv(u, b.p)
    &&& match a.st {
      State::PauseDelimitedQuote { initiator_span: x } => match b.st { State::PauseDelimitedQuote { initiator_span: y } => dpiece(t, x) == dpiece(u, y), _ => false },
      _ => !(b.st is PauseDelimitedQuote) && tvs(t, qtoks(a.st)) == tvs(u, qtoks(b.st)) && qv(t, qthen(a.st)) == qv(u, qthen(b.st)) } }
}
pub proof fn lemma_chunk_canon(t: Seq<char>, i: int)
  requires 0 <= i <= t.len()
  ensures ({ let w = strip(t.skip(i)); let c = strip(t.subrange(i, cend(t, i)));
    &&& 0 <= cend(w, 0) <= w.len() &&& c == w.take(cend(w, 0))
    &&& restv(t, nextchunk(t, i)) == (if cend(w, 0) < w.len() { Some(w.skip(cend(w, 0) + 1)) } else { None })
    &&& letters(t, i, cend(t, i)) == (c.len() > 0) })
{
  let s = t.skip(i); let u = strip(s); let c = cend(s, 0);
  lemma_cend(s, 0); lemma_cend_skip(t, i, 0); lemma_cend(t, i);
  let a = s.take(c); let d = strip(a).len() as int;
  assert(t.subrange(i, cend(t, i)) =~= a); lemma_letters_strip(t, i, cend(t, i));
  assert(s =~= a + s.skip(c)); lemma_strip_add(a, s.skip(c));
  assert forall|k: int| 0 <= k < d implies !issep(#[trigger] u[k]) by { lemma_strip_from(a, k); let j = choose|j: int| 0 <= j < a.len() && strip(a)[k] == #[trigger] a[j]; assert(!issep(s[j])); }
  if c < s.len() {
    assert(s.skip(c) =~= seq![s[c]] + s.skip(c + 1)); lemma_strip_add(seq![s[c]], s.skip(c + 1));
    reveal_with_fuel(strip, 3); assert(strip(seq![s[c]]) =~= seq![s[c]]);
    assert(u[d] == s[c]);
    lemma_cend_is(u, 0, d);
    assert(u.take(d) =~= strip(a));
    assert(t.skip(cend(t, i) + 1) =~= s.skip(c + 1));
    assert(u.skip(d + 1) =~= strip(s.skip(c + 1)));
  } else {
    reveal_with_fuel(strip, 2); assert(s.skip(c).len() == 0);
    lemma_cend_is(u, 0, d);
    assert(u.take(d) =~= strip(a));
  }
}
pub open spec fn inp(t: Seq<char>, p: Option<int>) -> bool { p is Some ==> 0 <= p->0 <= t.len() }
pub proof fn lemma_chunk2(t: Seq<char>, i: int, u: Seq<char>, j: int)
  requires 0 <= i <= t.len(), 0 <= j <= u.len(), strip(t.skip(i)) == strip(u.skip(j))
  ensures strip(t.subrange(i, cend(t, i))) == strip(u.subrange(j, cend(u, j))), restv(t, nextchunk(t, i)) == restv(u, nextchunk(u, j)),
    letters(t, i, cend(t, i)) == letters(u, j, cend(u, j)), inp(t, nextchunk(t, i)), inp(u, nextchunk(u, j))
{ lemma_chunk_canon(t, i); lemma_chunk_canon(u, j); lemma_cend(t, i); lemma_cend(u, j); }
pub proof fn lemma_first2(t: Seq<char>, p: Option<int>, u: Seq<char>, q: Option<int>)
  requires inp(t, p), inp(u, q), restv(t, p) == restv(u, q)
  ensures restv(t, first_o(t, p)) == restv(u, first_o(u, q)), inp(t, first_o(t, p)), inp(u, first_o(u, q))
  decreases left(t, p)
{ if p is Some { let i = p->0; let j = q->0; lemma_chunk2(t, i, u, j); lemma_cend(t, i); lemma_cend(u, j);
    if !letters(t, i, cend(t, i)) && cend(t, i) < t.len() { lemma_first2(t, nextchunk(t, i), u, nextchunk(u, j)); } } }
pub proof fn lemma_cut2(t: Seq<char>, i: int, e: int)
  requires 0 <= i <= e <= t.len()
  ensures strip(t.skip(i)) == strip(t.subrange(i, e)) + strip(t.skip(e)), strip(t.skip(e)) == strip(t.skip(i)).skip(strip(t.subrange(i, e)).len() as int),
    strip(t.subrange(i, e)) == strip(t.skip(i)).take(strip(t.skip(i)).len() - strip(t.skip(e)).len())
{ assert(t.skip(i) =~= t.subrange(i, e) + t.skip(e)); lemma_strip_add(t.subrange(i, e), t.skip(e));
  assert(strip(t.skip(e)) =~= strip(t.skip(i)).skip(strip(t.subrange(i, e)).len() as int));
  assert(strip(t.subrange(i, e)) =~= strip(t.skip(i)).take(strip(t.skip(i)).len() - strip(t.skip(e)).len())); }
pub proof fn lemma_after2(t: Seq<char>, i: int, u: Seq<char>, j: int)
  requires 0 <= i <= t.len(), 0 <= j <= u.len(), strip(t.skip(i)) == strip(u.skip(j))
  ensures restv(t, after(t, i)) == restv(u, after(u, j)), inp(t, after(t, i)), inp(u, after(u, j))
{ lemma_chunk2(t, i, u, j); }
/// a word and what follows it
pub proof fn lemma_word2(t: Seq<char>, i: int, u: Seq<char>, j: int)
  requires 0 <= i <= t.len(), 0 <= j <= u.len(), strip(t.skip(i)) == strip(u.skip(j)), letters(t, i, cend(t, i))
  ensures word(t, i) == word(u, j), strip(t.subrange(i, wend(t, i))) == word(t, i), strip(u.subrange(j, wend(u, j))) == word(u, j),
    i < wend(t, i) <= t.len(), j < wend(u, j) <= u.len(), restv(t, after(t, wend(t, i))) == restv(u, after(u, wend(u, j))),
    inp(t, after(t, wend(t, i))), inp(u, after(u, wend(u, j)))
{
  lemma_chunk2(t, i, u, j); lemma_wend(t, i); lemma_wend(u, j); lemma_cend(t, i); lemma_cend(u, j);
  lemma_cut2(t, i, wend(t, i)); lemma_cut2(u, j, wend(u, j));
  lemma_after2(t, wend(t, i), u, wend(u, j));
}
pub proof fn lemma_qclose2(t: Seq<char>, p: Option<int>, u: Seq<char>, q: Option<int>, D: Seq<char>)
  requires inp(t, p), inp(u, q), restv(t, p) == restv(u, q)
  ensures restv(t, qclose(t, p, D)) == restv(u, qclose(u, q, D)), inp(t, qclose(t, p, D)), inp(u, qclose(u, q, D)),
    qclose(t, p, D) is Some ==> (qclose(t, p, D)->0 == p->0 <==> qclose(u, q, D)->0 == q->0),
    qclose(t, p, D) is Some && qclose(t, p, D)->0 != p->0 ==> p->0 < qclose(t, p, D)->0 && issep(t[qclose(t, p, D)->0 - 1]) && q->0 < qclose(u, q, D)->0 && issep(u[qclose(u, q, D)->0 - 1])
  decreases left(t, p)
{ if p is Some { let i = p->0; let j = q->0; lemma_chunk2(t, i, u, j); lemma_cend(t, i); lemma_cend(u, j);
    if strip(t.subrange(i, cend(t, i))) != D { lemma_qclose2(t, nextchunk(t, i), u, nextchunk(u, j), D);
      lemma_qclose(t, nextchunk(t, i), D); lemma_qclose(u, nextchunk(u, j), D); } } }
pub proof fn lemma_pair2(t: Seq<char>, i: int, k: int)
  requires 0 <= i < k <= t.len(), issep(t[k - 1])
  ensures strip(t.skip(i)).len() == strip(t.subrange(i, k - 1)).len() + 1 + strip(t.skip(k)).len(), strip(t.subrange(i, k - 1)) == strip(t.skip(i)).take(strip(t.skip(i)).len() - strip(t.skip(k)).len() - 1)
{ lemma_cut2(t, i, k - 1); lemma_cut2(t, k - 1, k); reveal_with_fuel(strip, 3); assert(t.subrange(k - 1, k) =~= seq![t[k - 1]]); assert(strip(seq![t[k - 1]]) =~= seq![t[k - 1]]); }
/// the text of a span of characters
pub proof fn lemma_dpiece(t: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= t.len(), blen(t) <= u32::MAX
  ensures dpiece(t, spn(t, i, j)) == strip(t.subrange(i, j))
{ lemma_bidx(t, i); lemma_bidx(t, j); }
pub open spec fn tvz(c: Selmaho, s: Seq<char>) -> TV { TV { c: c, x: false, s: s } }
/// one step of lexing on two texts that differ in commas only
pub proof fn C05_steps_agree(t: Seq<char>, a: S, r: R, a2: S, u: Seq<char>, b: S, q: R, b2: S)
  requires step(t, a, r, a2), step(u, b, q, b2), inr(t, a), inr(u, b), blen(t) <= u32::MAX, blen(u) <= u32::MAX, same(t, a, u, b)
  ensures rv(t, r) == rv(u, q), //@C05
    same(t, a2, u, b2), //@C05
{
  if dead(a.p, a.st) {} else {
    lemma_first2(t, a.p, u, b.p); lemma_first(t, a.p); lemma_first(u, b.p);
    match a.st {
      State::Normal => { assert(tvs(u, qtoks(b.st)).len() == 0); assert(b.st is Normal);
        if first_o(t, a.p) is Some { C05_word_step(t, a, r, a2, u, b, q, b2); } }
      State::PauseDelimitedQuote { initiator_span } => { if a.p is Some { lemma_chunk2(t, a.p->0, u, b.p->0); lemma_cend(t, a.p->0); lemma_cend(u, b.p->0); lemma_dpiece(t, a.p->0, cend(t, a.p->0)); lemma_dpiece(u, b.p->0, cend(u, b.p->0)); assert(tvs(t, qtoks(a2.st)) =~= tvs(u, qtoks(b2.st))); } }
      State::DelimitedQuote(_) => { assert(tvs(u, qtoks(b.st)).len() == 0); assert(b.st is DelimitedQuote); C05_quote_step(t, a, r, a2, u, b, q, b2); }
      _ => { assert(tvs(u, qtoks(b.st)).len() == qtoks(a.st).len()); assert(queued(a.st)); assert(queued(b.st));
        assert(tvs(t, qtoks(a.st))[0] == tvs(u, qtoks(b.st))[0]);
        assert(tvs(t, qtoks(a.st).skip(1)) =~= tvs(t, qtoks(a.st)).skip(1)); assert(tvs(u, qtoks(b.st).skip(1)) =~= tvs(u, qtoks(b.st)).skip(1)); }
    }
  }
}
pub proof fn C05_word_step(t: Seq<char>, a: S, r: R, a2: S, u: Seq<char>, b: S, q: R, b2: S)
  requires step(t, a, r, a2), step(u, b, q, b2), inr(t, a), inr(u, b), blen(t) <= u32::MAX, blen(u) <= u32::MAX, restv(t, a.p) == restv(u, b.p), a.st is Normal, b.st is Normal, first_o(t, a.p) is Some
  ensures rv(t, r) == rv(u, q), //@C05
    same(t, a2, u, b2), //@C05
{
  lemma_first2(t, a.p, u, b.p); lemma_first(t, a.p); lemma_first(u, b.p);
  let i = first_o(t, a.p)->0; let j = first_o(u, b.p)->0;
  lemma_word2(t, i, u, j); lemma_dpiece(t, i, wend(t, i)); lemma_dpiece(u, j, wend(u, j));
  let c = cls(word(t, i));
  let p = after(t, wend(t, i)); let o = after(u, wend(u, j));
  lemma_first2(t, p, u, o); lemma_first(t, p); lemma_first(u, o);
  if isq(c) {
    if first_o(t, p) is Some {
      let k = first_o(t, p)->0; let l = first_o(u, o)->0;
      lemma_word2(t, k, u, l); lemma_dpiece(t, k, wend(t, k)); lemma_dpiece(u, l, wend(u, l));
      assert(tvs(t, qtoks(a2.st)) =~= tvs(u, qtoks(b2.st)));
    }
  } else { assert(tvs(t, qtoks(a2.st)) =~= tvs(u, qtoks(b2.st))); }
}
pub proof fn C05_quote_step(t: Seq<char>, a: S, r: R, a2: S, u: Seq<char>, b: S, q: R, b2: S)
  requires step(t, a, r, a2), step(u, b, q, b2), inr(t, a), inr(u, b), blen(t) <= u32::MAX, blen(u) <= u32::MAX, restv(t, a.p) == restv(u, b.p), a.st is DelimitedQuote, b.st is DelimitedQuote, qv(t, qthen(a.st)) == qv(u, qthen(b.st))
  ensures rv(t, r) == rv(u, q), //@C05
    same(t, a2, u, b2), //@C05
{
  let D = quoted(t, a.st); assert(D == quoted(u, b.st));
  lemma_qclose2(t, a.p, u, b.p, D); lemma_qclose(t, a.p, D); lemma_qclose(u, b.p, D);
  if qclose(t, a.p, D) is Some {
    let i = qclose(t, a.p, D)->0; let j = qclose(u, b.p, D)->0;
    lemma_chunk2(t, i, u, j); lemma_cend(t, i); lemma_cend(u, j); lemma_dpiece(t, i, cend(t, i)); lemma_dpiece(u, j, cend(u, j));
    if i != a.p->0 { lemma_pair2(t, a.p->0, i); lemma_pair2(u, b.p->0, j); lemma_dpiece(t, a.p->0, i - 1); lemma_dpiece(u, b.p->0, j - 1); }
    assert(tvs(t, qtoks(a2.st)) =~= tvs(u, qtoks(b2.st)));
  }
}
/// lexing two texts that differ in commas only gives the same tokens and the same errors
pub proof fn C05_lexing_does_not_depend_on_commas(t: Seq<char>, ss: Seq<S>, rs: Seq<R>, u: Seq<char>, zs: Seq<S>, qs: Seq<R>, k: int)
  requires run(t, ss, rs), run(u, zs, qs), strip(t) == strip(u), blen(t) <= u32::MAX, blen(u) <= u32::MAX, 0 <= k < rs.len(), k < qs.len()
  ensures rv(t, rs[k]) == rv(u, qs[k]), same(t, ss[k + 1], u, zs[k + 1]), //@C05
  decreases k
{
  assert(t.skip(0) =~= t); assert(u.skip(0) =~= u);
  if k > 0 { C05_lexing_does_not_depend_on_commas(t, ss, rs, u, zs, qs, k - 1); } else { assert(tvs(t, qtoks(ss[0].st)) =~= tvs(u, qtoks(zs[0].st))); }
  lemma_run_inr(t, ss, rs, k); lemma_run_inr(u, zs, qs, k);
  assert(step(t, ss[k], rs[k], ss[k + 1])); assert(step(u, zs[k], qs[k], zs[k + 1]));
  C05_steps_agree(t, ss[k], rs[k], ss[k + 1], u, zs[k], qs[k], zs[k + 1]);
}
