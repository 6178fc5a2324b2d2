"""Unit `classify`: src/lex/selmaho/{mod,classify}.rs under contract (C08, C05).  The recognizers of
src/rules.rs enter through their contracts (verified in unit `rules`).  String literals are matched by
number: wid(s) is the number of the literal equal to s (negative: none); the numbering is injective
because it is made from a dictionary of the literals' texts."""
import os
import re
from .st import *
from . import extract, peg, span, decompose
from .decompose import DecEv, rule_contracts, STDX, SPEC as DSPEC, LEMMAS as DLEM


def load_table():
    groups, fund = [], []
    for line in open(os.path.join(extract.VERIF, "spec/selmaho.txt")):
        line = line.split("#")[0].strip()
        if not line:
            continue
        f = line.split()
        if f[0] == "!fundamental":
            fund += f[1:]
        else:
            groups.append((f[0], f[1] == "e", f[2:]))
    return groups, fund


def runs_pat(ids):
    runs = []
    for i in ids:
        if runs and runs[-1][1] == i - 1:
            runs[-1][1] = i
        else:
            runs.append([i, i])
    return " | ".join(f"{a}i32" if a == b else f"{a}i32..={b}i32" for a, b in runs)


class ClsEv(DecEv):
    lifetimes = ()
    noncopy = ()

    def __init__(self, mods, contracts, grammar, rules_items, **kw):
        super().__init__(mods, contracts, grammar, **kw)
        self.ids = {}
        self.tables = []
        # trait methods on parse results
        for i in rules_items:
            if i["k"] == "impl" and i["tr"] and i["tr"][-1]["id"] == "ParseResultExt":
                for m in i["items"]:
                    self.pr_methods[m["sig"]["name"]] = m

    pr_methods = {}

    def lid(self, v):
        return self.ids.setdefault(v, len(self.ids))

    def ty_text(self, t):
        if t and t[0] == "Slice" and t[1] == ("u8",):
            return "&mut ByteBuf"
        if t and t[0] == "Buf":
            return "ByteBuf"
        return super().ty_text(t)

    def isbuf(self, t):
        return t and (t[0] == "Buf" or (t[0] == "Slice" and t[1] == ("u8",)))

    # ---- match on text
    def strpats(self, p):
        """literals of a pattern, or None"""
        if p["k"] == "por":
            out = []
            for x in p["es"]:
                y = self.strpats(x)
                if y is None:
                    return None
                out += y
            return out
        if p["k"] == "plit" and p["e"]["t"] == "str":
            return [p["e"]["v"]]
        if p["k"] == "pref":
            return self.strpats(p["p"])
        n = p["name"] if p["k"] == "pident" else (p["path"][-1]["id"] if p["k"] == "ppath" else None)
        if n in self.consts:
            e = self.consts[n]["e"]
            while e["k"] == "ref":
                e = e["e"]
            if e["k"] == "lit" and e["t"] == "str":
                return [e["v"]]
        return None

    def ev_match(self, e, env, fr, k, want):
        if any(a["guard"] is not None for a in e["arms"]):
            return self.unguard(e, env, fr, k, want)

        def got(v):
            if not (isinstance(v, Val) and v.ty == STR and any(self.strpats(a["pat"]) for a in e["arms"])):
                return self.match_on(v, e, env, fr, k, want)
            i = self.fresh("id")
            arms = []
            for a in e["arms"]:
                en = dict(env)
                ls = self.strpats(a["pat"])
                if ls is not None:
                    p = runs_pat(sorted({self.lid(x) for x in ls}))
                elif a["pat"]["k"] == "pwild":
                    p = "_"
                elif a["pat"]["k"] == "pident" and a["pat"]["sub"] is None:
                    p = "_"
                    en[a["pat"]["name"]] = v
                else:
                    raise Unsupported("pattern on text")
                arms.append((p, en, a["body"]))
            exits = any(has_exit(a["body"]) for a in e["arms"])
            if len(arms) > 20:
                return f"let {i} = {v.code}.lit_id();\n" + self.table(i, arms, fr, k, exits, want)
            return f"let {i} = {v.code}.lit_id();\n" + self.arms_emit(f"match {i}", arms, fr, k, exits, want)
        return self.ev(e["e"], env, fr, lambda v: self.atomize(v, got) if isinstance(v, Val) else got(v))

    def table(self, i, arms, fr, k, exits, want):
        """the arms that are constants, as one function from the literal's number (a decision tree)"""
        rows, rest, seen, flag = [], [], set(), None
        for n, (p, en, body) in enumerate(arms):
            if p == "_":
                rest += arms[n:]
                break
            ids = [x for r in p.split(" | ") for x in range(int(r.split("..=")[0][:-3]), int(r.split("..=")[-1][:-3]) + 1)]
            ids = [x for x in ids if x not in seen]
            seen |= set(ids)
            t = flatten(self.value_text(body, en, fr, want)[0])
            m = re.fullmatch(r"(?:(\w+) = true;\s*)?Selmaho::(\w+)", t)
            if m and (m[1] is None or flag in (None, m[1])):
                flag = m[1] or flag
                rows += [(x, (m[2], bool(m[1]))) for x in ids]
            elif ids:
                rest.append((runs_pat(ids), en, body))
        rows.sort()
        runs = []
        for x, y in rows:
            if runs and runs[-1][1] == x - 1 and runs[-1][2] == y:
                runs[-1][1] = x
            else:
                runs.append([x, x, y])

        def go(rs):
            if len(rs) == 1:
                a, b, (sel, e) = rs[0]
                return f"if {a} <= k && k <= {b} {{ return Some((Selmaho::{sel}, {str(e).lower()})); }}\n"
            m = len(rs) // 2
            return f"if k < {rs[m][0]} {{\n{go(rs[:m])}}} else {{\n{go(rs[m:])}}}\n"
        name = self.fresh("words_table")
        inn = " || ".join(f"{a} <= k < {b}" for a, b, y in ranges(lambda x, have=frozenset(y for y, _ in rows): x in have, len(self.ids)) if y) or "false"
        self.tables.append(f"""fn {name}(k: i32) -> (r: Option<(Selmaho, bool)>)
  ensures
    r is Some <==> ({inn}), //@all
    r is Some ==> intable(k as int) && r == Some((tab(k as int), tabe(k as int))), //@C08
{{
{go(runs)}None
}}
""")
        sel, ex = self.fresh("sel"), self.fresh("ex")
        s = f"let {sel} = {name}({i});\n"
        r = self.fresh("r")
        exits_ = self.arms_emit(f"match {i}", rest, fr, lambda v: v.code, False, want)
        t = self.fresh()
        fl = f"if {ex} {{ {flag} = true; }}\n" if flag else ""
        return s + f"let {t} = match {sel} {{\nSome(({r}, {ex})) => {{\n{fl}{r}\n}}\nNone => {{\n{exits_}\n}}\n}};\n" + k(Val(t, ("Enum", "Selmaho")))

    def match_on(self, v, e, env, fr, k, want):
        en = dict(env)
        en["#m"] = v
        e2 = dict(e, e={"k": "path", "qself": None, "path": [{"id": "#m", "args": None}]})
        return StEv.ev_match(self, e2, en, fr, k, want)

    def unguard(self, e, env, fr, k, want):
        """guards as nested matches"""
        s = {"k": "path", "qself": None, "path": [{"id": "#s", "args": None}]}

        def irref(p):
            return p["k"] == "pwild" or (p["k"] == "pident" and p["sub"] is None and not p["name"][0].isupper())

        saved = {}

        def build(arms):
            pre = []
            for i, a in enumerate(arms):
                if a["guard"] is None:
                    pre.append(a)
                    if irref(a["pat"]):
                        return {"k": "match", "e": s, "arms": pre}
                    continue
                rest = {"k": "inenv", "e": build(arms[i + 1:]), "env": saved}
                body = {"k": "if", "c": a["guard"], "t": a["body"], "e": rest}
                pre.append({"pat": a["pat"], "guard": None, "body": body})
                if not irref(a["pat"]):
                    pre.append({"pat": {"k": "pwild"}, "guard": None, "body": rest})
                return {"k": "match", "e": s, "arms": pre}
            return {"k": "match", "e": s, "arms": pre}
        m = build(e["arms"])

        def got(v):
            en = dict(env)
            en["#s"] = v
            saved.update(en)
            return self.ev(m, en, fr, k, want)
        return self.ev(e["e"], env, fr, lambda v: self.atomize(v, got) if isinstance(v, Val) else got(v))

    def ev_inenv(self, e, env, fr, k, want):
        return self.ev(e["e"], dict(e["env"]), fr, k, want)

    # ---- byte buffers
    def ev_array(self, e, env, fr, k, want):
        return super().ev_array(e, env, fr, k, want)

    def ev_repeat(self, e, env, fr, k, want):
        x = e["e"]
        if x["k"] == "lit" and x.get("v") == "0" and e["n"]["k"] == "lit":
            return self.bind(f"ByteBuf::zero({e['n']['v']})", ("Buf",), k, "buf")
        raise Unsupported("array repeat")

    def ev_ref(self, e, env, fr, k, want):
        if e["mutable"] and e["e"]["k"] == "path":
            v = env.get(pname(e["e"]))
            if isinstance(v, Val) and self.isbuf(v.ty):
                return k(Val(f"&mut {v.code}", ("Slice", ("u8",)), lit=True))
        if e["e"]["k"] == "index" and e["e"]["i"]["k"] == "range":
            return self.ev_index(e["e"], env, fr, k, want)
        return super().ev_ref(e, env, fr, k, want)

    def ev_index(self, e, env, fr, k, want):
        t = self.static_type(e["e"], env)
        if self.isbuf(t):
            b = env[pname(e["e"])].code
            r = e["i"]
            if r["k"] != "range" or r["a"] is not None or r["b"] is None:
                raise Unsupported("buffer index")
            return self.ev(r["b"], env, fr, lambda n: self.bind(f"{b}.{'to_incl' if r['incl'] else 'to'}({n.code})", ("Bytes",), k), USIZE)
        return super().ev_index(e, env, fr, k, want)

    def ev_assign(self, e, env, fr, k, want):
        a = e["a"]
        if a["k"] == "unary" and a["op"] == "*":
            t = self.static_type(a["e"], env)
            if t and t[0] == "Slot":
                return self.ev(e["b"], env, fr, lambda v: f"{t[1]}.set({env[pname(a['e'])].code}, {v.code});\n" + k(Val("()", UNIT)), ("u8",))
        if a["k"] == "index" and self.isbuf(self.static_type(a["e"], env)) and a["i"]["k"] != "range":
            b = env[pname(a["e"])].code
            return self.ev(a["i"], env, fr, lambda i: self.ev(e["b"], env, fr, lambda v: f"{b}.set({i.code}, {v.code});\n" + k(Val("()", UNIT)), ("u8",)), USIZE)
        return super().ev_assign(e, env, fr, k, want)

    def call_hook(self, n, e, env, fr, k, want):
        if n.endswith("str::from_utf8") or n == "from_utf8":
            def got(v):
                if v.ty != ("Bytes",):
                    raise Unsupported("from_utf8")
                return self.bind(f"from_utf8({v.code})", ("Res", STR, ("TryErr",)), k)
            return self.ev(e["args"][0], env, fr, got)
        return super().call_hook(n, e, env, fr, k, want)

    def method(self, v, name, e, env, fr, k):
        a = e["args"]
        if isinstance(v, Val):
            if self.isbuf(v.ty):
                if name == "len":
                    return k(Val(f"{v.code}.len()", USIZE))
                if name == "get" and a[0]["k"] == "range" and a[0]["a"] is None and a[0]["b"] is not None:
                    f = "get_incl" if a[0]["incl"] else "get_to"
                    return self.ev(a[0]["b"], env, fr, lambda i: self.bind(f"{v.code}.{f}({i.code})", Opt(("Bytes",)), k), USIZE)
                if name == "get_mut":
                    return self.ev(a[0], env, fr, lambda i: self.bind(f"{v.code}.slot({i.code})", Opt(("Slot", v.code)), k), USIZE)
            if v.ty == ("Bytes",) and name == "len":
                return k(Val(f"{v.code}.len()", USIZE))
            if v.ty == Opt(Tup(STR, STR)) and name in self.pr_methods:
                m = self.pr_methods[name]
                clo = Clo([p["pat"] for p in m["sig"]["params"][1:]], m["body"], {"self": v}, origin=name)
                clo.rty = self.type_of(m["sig"]["ret"])
                return self.evs(a, env, fr, lambda vs: self.apply(clo, vs, fr, k))
        return super().method(v, name, e, env, fr, k)

    def opt_method(self, v, name, e, env, fr, k):
        if isinstance(v, Val) and v.ty == Opt(Tup(STR, STR)) and name in self.pr_methods:
            return self.method(v, name, e, env, fr, k)
        return super().opt_method(v, name, e, env, fr, k)

    # ---- for over an adapter chain on bytes, by the definition of the adapters
    def ev_for(self, e, env, fr, k, want):
        ad, x = [], e["e"]
        while x["k"] == "mcall" and x["name"] in ("filter", "map", "enumerate", "filter_map"):
            ad.insert(0, x)
            x = x["recv"]
        if not (x["k"] == "mcall" and x["name"] == "bytes") or not fr.native:
            return super().ev_for(e, env, fr, k, want)

        def got(v):
            j, n, cnt = self.fresh("j"), self.fresh("n"), self.fresh("cnt")
            muts = list(fr.muts)
            old, fr.in_loop = fr.in_loop, True
            ch = self.fresh("ch")
            pre = f"let mut {j}: usize = 0;\nlet {n} = {v.code}.len();\n" + (f"let mut {cnt}: usize = 0;\n" if any(a["name"] == "enumerate" for a in ad) else "")

            def step(i, cur):
                if i == len(ad):
                    en = dict(env)
                    p = self.pat(e["pat"], cur.ty, en, fr)
                    return f"let {p} = {cur.code};\n" + self.ev(e["body"], en, fr, lambda u: "" if u.ty == UNIT else u.code if u.ty == NEVER else f"let _ = {u.code};\n")
                a = ad[i]
                if a["name"] == "enumerate":
                    ix = self.fresh("ix")
                    return f"let {ix} = {cnt};\n{cnt} = {cnt} + 1;\n" + step(i + 1, Val(f"({ix}, {cur.code})", Tup(USIZE, cur.ty)))
                f = self.static_arg(a["args"][0], env, fr)
                if a["name"] == "filter":
                    t, _ = self.inline_value(f, [cur], fr)
                    return f"let keep_ = {{ {t} }};\nif !keep_ {{ continue; }}\n" + step(i + 1, cur)
                t, ty = self.inline_value(f, [cur], fr)
                y = self.fresh("y")
                if a["name"] == "filter_map":
                    ty = ty[1] if ty and ty[0] == "Opt" and ty[1] and ty[1] != ("int",) else cur.ty
                    return f"let {y}: Option<{self.ty_text(ty)}> = {{ {t} }};\nlet {y} = match {y} {{ Some(y_) => y_, None => {{ continue; }} }};\n" + step(i + 1, Val(y, ty))
                return f"let {y} = {{ {t} }};\n" + step(i + 1, Val(y, ty if ty and ty != ("int",) else cur.ty))
            body = step(0, Val(ch, ("u8",)))
            fr.in_loop = old
            cl = self.for_clauses(v, muts, j, n, cnt, env)
            return pre + f"loop\n{cl}\n{{\nif {j} >= {n} {{ break; }}\nlet {ch} = {v.code}.byte({j});\n{j} = {j} + 1;\n{self.within if has_exit(e["body"]) else ""}{body}\n}}\n" + self.after + k(Val("()", UNIT))
        return self.ev(x["recv"], env, fr, got)

    def for_clauses(self, v, muts, j, n, cnt, env):
        bufs = sorted({x.code for x in env.values() if isinstance(x, Val) and self.isbuf(x.ty)})
        idx = [w.name for w, c in muts if c.ty in (USIZE, ("int",))]
        if len(bufs) != 1 or len(idx) != 1:
            raise Unsupported("loop state of the lookup transformation")
        b, r = bufs[0], idx[0]
        self.within = f"""proof {{
  let s_ = {v.code}@; let u_ = utf8(s_);
  lemma_utf8(s_);
  if keep(u_.take({j} as int)).len() > LONGEST() {{ lemma_short(s_, u_, {j} as int); }}
}}
"""
        self.after = f"""proof {{
  let s_ = {v.code}@; let u_ = utf8(s_);
  lemma_utf8(s_);
  if keep(u_.take({j} as int)).len() > LONGEST() {{ lemma_short(s_, u_, {j} as int); }}
  lemma_keep_utf8(s_); lemma_nonempty_utf8(norm(strip(s_))); lemma_utf8_zero({b}@);
  assert(u_.take({n} as int) =~= u_);
  if 0 < {cnt} <= {b}@.len() {{ assert({b}@.take({cnt} as int) =~= keep(u_.take({j} as int))); }}
}}
"""
        return f"""  invariant
    {j} <= {n}, {n} == blen({v.code}@), {cnt} <= {j}, {b}@.len() == old({b})@.len(), {b}@.len() > 0, old({b})@[0] == 0, //@all
    {cnt} == keep(utf8({v.code}@).take({j} as int)).len(), {r} == (if {cnt} == 0 {{ 0 }} else {{ {cnt} - 1 }}), {cnt} <= {b}@.len(), //@C08
    forall|k: int| 0 <= k < {cnt} ==> #[trigger] {b}@[k] == keep(utf8({v.code}@).take({j} as int))[k], {cnt} == 0 ==> {b}@[0] == 0, //@C08
  decreases {n} - {j}"""


BUF = """
#[verifier::external_body]
pub struct ByteBuf { b: Vec<u8> }
impl View for ByteBuf { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct ByteSlice { b: Vec<u8> }
impl View for ByteSlice { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl ByteSlice {
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl ByteBuf {
  #[verifier::external_body]
  pub fn zero(n: usize) -> (r: ByteBuf) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  /// get_mut: the element's place, kept as its index
  #[verifier::external_body]
  pub fn slot(&self, i: usize) -> (r: Option<usize>) ensures r == (if i < self@.len() { Some(i) } else { None }) { unimplemented!() }
  #[verifier::external_body]
  pub fn set(&mut self, i: usize, x: u8) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { unimplemented!() }
  #[verifier::external_body]
  pub fn to_incl(&self, i: usize) -> (r: ByteSlice) requires i < self@.len() ensures r@ == self@.take(i + 1) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_incl(&self, i: usize) -> (r: Option<ByteSlice>) ensures r is Some == (i < self@.len()), r is Some ==> r->0@ == self@.take(i + 1) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_to(&self, i: usize) -> (r: Option<ByteSlice>) ensures r is Some == (i <= self@.len()), r is Some ==> r->0@ == self@.take(i as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn to(&self, i: usize) -> (r: ByteSlice) requires i <= self@.len() ensures r@ == self@.take(i as int) { unimplemented!() }
}
/// UTF-8: an ASCII character is itself, the others are bytes from 128 up
pub uninterp spec fn utf8c(c: char) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_utf8c(c: char)
  ensures utf8c(c).len() == width(c), (c as u32) < 128 ==> utf8c(c) == seq![c as u8], (c as u32) >= 128 ==> forall|k: int| 0 <= k < utf8c(c).len() ==> #[trigger] utf8c(c)[k] >= 128
{}
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + utf8c(s.last()) } }
#[verifier::external_body]
pub fn from_utf8<'a>(b: ByteSlice) -> (r: Result<Str<'a>, TryErr>)
  ensures forall|x: Seq<char>| #[trigger] utf8(x) == b@ ==> r is Ok && (r->Ok_0)@ == x
{ unimplemented!() }
impl<'a> Str<'a> {
  #[verifier::external_body]
  pub fn byte(self, j: usize) -> (r: u8) requires j < blen(self@) ensures utf8(self@).len() == blen(self@), r == utf8(self@)[j as int] { unimplemented!() }
}
/// the byte string without commas and with h read as '
pub open spec fn keep(b: Seq<u8>) -> Seq<u8> decreases b.len() {
  if b.len() == 0 { b } else if b.last() == 44 { keep(b.drop_last()) } else { keep(b.drop_last()).push(if b.last() == 104 { 39 } else { b.last() }) }
}
pub open spec fn nc(c: char) -> char { if c == 'h' { '\\'' } else { c } }
pub open spec fn norm(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| nc(s[i])) }
pub open spec fn ally(s: Seq<char>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == 'y' }
"""

LEMMAS = """
pub proof fn lemma_keep_add(a: Seq<u8>, b: Seq<u8>)
  ensures keep(a + b) == keep(a) + keep(b)
  decreases b.len()
{ reveal_with_fuel(keep, 2);
  if b.len() == 0 { assert(a + b =~= a); assert(keep(a) + keep(b) =~= keep(a)); }
  else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_keep_add(a, b.drop_last()); assert(keep(a + b) =~= keep(a) + keep(b)); }
}
pub proof fn lemma_keep_hi(b: Seq<u8>)
  requires forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] >= 128
  ensures keep(b) == b
  decreases b.len()
{ reveal_with_fuel(keep, 2); if b.len() > 0 { lemma_keep_hi(b.drop_last()); assert(b =~= b.drop_last().push(b.last())); } }
pub proof fn lemma_utf8(s: Seq<char>)
  ensures utf8(s).len() == blen(s)
  decreases s.len()
{ reveal_with_fuel(blen, 2); if s.len() > 0 { lemma_utf8(s.drop_last()); axiom_utf8c(s.last()); } }
/// the byte-wise transformation is the character-wise one
pub proof fn lemma_keep_utf8(s: Seq<char>)
  ensures keep(utf8(s)) == utf8(norm(strip(s)))
  decreases s.len()
{ reveal_with_fuel(strip, 3);
  if s.len() == 0 { assert(norm(strip(s)).len() == 0); }
  else {
    let p = s.drop_last(); let c = s.last();
    lemma_keep_utf8(p); lemma_keep_add(utf8(p), utf8c(c)); axiom_utf8c(c); axiom_utf8c('\\'');
    assert(s =~= p + seq![c]); lemma_strip_add(p, seq![c]);
    assert(seq![c].skip(1) =~= Seq::<char>::empty());
    reveal_with_fuel(keep, 3);
    if c == ',' {
      assert(strip(s) =~= strip(p));
      assert(utf8c(c).drop_last() =~= Seq::<u8>::empty());
      assert(keep(utf8c(c)) =~= Seq::<u8>::empty());
      assert(keep(utf8(p)) + keep(utf8c(c)) =~= keep(utf8(p)));
    } else {
      assert(strip(seq![c]) =~= seq![c]);
      let w = norm(strip(s));
      assert(w.drop_last() =~= norm(strip(p))); assert(w.last() == nc(c));
      if (c as u32) < 128 {
        assert(utf8c(c).drop_last() =~= Seq::<u8>::empty());
        assert(keep(utf8c(c)) =~= utf8c(nc(c)));
      } else { lemma_keep_hi(utf8c(c)); }
    }
  }
}
pub proof fn lemma_keep_last(b: Seq<u8>, j: int)
  requires 0 <= j < b.len()
  ensures keep(b.take(j + 1)) == if b[j] == 44 { keep(b.take(j)) } else { keep(b.take(j)).push(if b[j] == 104 { 39 } else { b[j] }) }
{ assert(b.take(j + 1).drop_last() =~= b.take(j)); }
pub broadcast proof fn lemma_keep_step(b: Seq<u8>, j: int, n: int)
  requires n == j + 1, 0 <= j < b.len()
  ensures #![trigger b.take(j), b.take(n)] keep(b.take(n)) == (if b[j] == 44 { keep(b.take(j)) } else { keep(b.take(j)).push(if b[j] == 104 { 39 } else { b[j] }) })
{ lemma_keep_last(b, j); }
pub proof fn lemma_utf8_zero(b: Seq<u8>)
  requires b.len() > 0
  ensures b[0] == 0 ==> utf8(seq!['\\0']) == b.take(1), wid(seq!['\\0']) < 0, !ally(seq!['\\0'])
{ reveal_with_fuel(utf8, 3); axiom_utf8c('\\0'); axiom_wid(seq!['\\0']); let z = seq!['\\0']; assert(z[0] == '\\0'); assert(z.drop_last() =~= Seq::<char>::empty()); if b[0] == 0 { assert(utf8(z) =~= b.take(1)); } }
pub proof fn lemma_keep_len(b: Seq<u8>)
  ensures keep(b).len() <= b.len()
  decreases b.len()
{ if b.len() > 0 { lemma_keep_len(b.drop_last()); } }
pub proof fn lemma_keep_mono(b: Seq<u8>, j: int)
  requires 0 <= j <= b.len()
  ensures keep(b.take(j)).len() <= keep(b).len()
{ assert(b =~= b.take(j) + b.skip(j)); lemma_keep_add(b.take(j), b.skip(j)); }
pub proof fn lemma_nonempty_utf8(s: Seq<char>)
  ensures s.len() == 0 <==> utf8(s).len() == 0
{ lemma_utf8(s); lemma_blen_ge(s); reveal_with_fuel(blen, 2); }
pub proof fn lemma_strip_has(s: Seq<char>, j: int)
  requires 0 <= j < s.len(), s[j] != ','
  ensures exists|k: int| 0 <= k < strip(s).len() && #[trigger] strip(s)[k] == s[j]
{
  assert(s =~= s.take(j) + s.skip(j)); lemma_strip_add(s.take(j), s.skip(j));
  reveal_with_fuel(strip, 2);
  let k = strip(s.take(j)).len() as int;
  assert(s.skip(j)[0] == s[j]); assert(strip(s)[k] == s[j]);
}
pub proof fn lemma_strip_from(s: Seq<char>, k: int)
  requires 0 <= k < strip(s).len()
  ensures exists|j: int| 0 <= j < s.len() && strip(s)[k] == #[trigger] s[j]
  decreases s.len()
{ reveal_with_fuel(strip, 2);
  if s.len() > 0 {
    if s[0] == ',' { lemma_strip_from(s.skip(1), k); let j = choose|j: int| 0 <= j < s.skip(1).len() && strip(s)[k] == #[trigger] s.skip(1)[j]; assert(s[j + 1] == strip(s)[k]); }
    else if k > 0 { lemma_strip_from(s.skip(1), k - 1); let j = choose|j: int| 0 <= j < s.skip(1).len() && strip(s.skip(1))[k - 1] == #[trigger] s.skip(1)[j]; assert(s[j + 1] == strip(s)[k]); }
    else { assert(s[0] == strip(s)[0]); }
  }
}
pub open spec fn yc(s: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == 'y' || s[j] == ',' }
pub broadcast proof fn lemma_yc(s: Seq<char>)
  ensures #![trigger strip(s)] (strip(s).len() > 0 && yc(s)) == ally(strip(s)), ally(norm(strip(s))) == ally(strip(s)), norm(strip(s)).len() == strip(s).len()
{
  if strip(s).len() > 0 && yc(s) { assert forall|k: int| 0 <= k < strip(s).len() implies #[trigger] strip(s)[k] == 'y' by { lemma_strip_from(s, k); lemma_strip_commafree(s, k); } }
  if ally(strip(s)) { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] == 'y' || s[j] == ',' by { if s[j] != ',' { lemma_strip_has(s, j); } } }
  let t = strip(s);
  if ally(norm(t)) { assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == 'y' by { assert(norm(t)[k] == 'y'); } }
}
pub proof fn lemma_strip_commafree(s: Seq<char>, k: int)
  requires 0 <= k < strip(s).len()
  ensures strip(s)[k] != ','
  decreases s.len()
{ reveal_with_fuel(strip, 2); if s.len() > 0 { if s[0] == ',' { lemma_strip_commafree(s.skip(1), k); } else if k > 0 { lemma_strip_commafree(s.skip(1), k - 1); } } }
pub proof fn lemma_short(s: Seq<char>, b: Seq<u8>, j: int)
  requires utf8(s) == b, 0 <= j <= b.len(), keep(b.take(j)).len() > LONGEST()
  ensures wid(norm(strip(s))) < 0, strip(s).len() > 0
{ lemma_keep_mono(b, j); lemma_keep_utf8(s); lemma_utf8(norm(strip(s))); axiom_wid(norm(strip(s))); if strip(s).len() == 0 { assert(norm(strip(s)).len() == 0); } }
"""

SPEC = """
/// selma'o of a word that is not in the table
pub open spec fn gen(s: Seq<char>) -> Selmaho {
  if whole(p_cmevla(s)) { Selmaho::Cmevla } else if whole(p_cmavo_minimal(s)) { Selmaho::UnknownCmavo } else if whole(p_gismu(s)) { Selmaho::Gismu }
  else if whole(p_fuhivla(s)) { Selmaho::Fuhivla } else if whole(p_lujvo_minimal(s)) { Selmaho::Lujvo } else { Selmaho::AnyText }
}
pub open spec fn whole(r: Option<Seq<char>>) -> bool { match r { Some(x) => x.len() == 0, None => false } }
/// the class of a word, commas deleted
pub open spec fn cls(s: Seq<char>) -> Selmaho { let k = wid(norm(s)); if intable(k) { tab(k) } else if ally(s) { Selmaho::Y } else { gen(s) } }
pub open spec fn cexp(s: Seq<char>) -> bool { let k = wid(norm(s)); (intable(k) && tabe(k)) || fund(cls(s)) }
"""

C = {
    "Selmaho::is_fundamentally_experimental": Contract([], [("C08", "$r == fund($0)")], generics=""),
    "Selmaho::classify_generally": Contract(["ntc($0)"], [("C08", "$r == gen(strip($0@))")], hints="broadcast use {lemma_split, lemma_strip_empty};"),
    "transform_for_direct_cmavo_check": Contract(["old($1)@.len() > LONGEST()", "old($1)@[0] == 0"], [
        ("C08", "$r is Some && strip($0@).len() > 0 ==> $r->0@ == norm(strip($0@))"),
        ("C08", "$r is Some && strip($0@).len() == 0 ==> !intable(wid($r->0@)) && !ally($r->0@)"),
        ("C08", "$r is None ==> wid(norm(strip($0@))) < 0 && strip($0@).len() > 0")],
        attrs="#[verifier::loop_isolation(false)]\n", hints="broadcast use {lemma_keep_step};"),
    "Selmaho::classify": Contract(["ntc($0)"], [("C08", "$r.0 == cls(strip($0@))"), ("C08", "$r.1 == cexp(strip($0@))")], attrs="#[verifier::rlimit(100)]\n", hints="broadcast use {lemma_yc, axiom_wid};"),
}


def ranges(pred, n):
    """maximal runs of ids with the same value"""
    out, i = [], 0
    while i < n:
        j = i
        while j < n and pred(j) == pred(i):
            j += 1
        out.append((i, j, pred(i)))
        i = j
    return out


def tree(runs, f):
    """balanced decision on k over consecutive runs"""
    if len(runs) == 1:
        return f(runs[0][2])
    m = len(runs) // 2
    return f"if k < {runs[m][0]} {{ {tree(runs[:m], f)} }} else {{ {tree(runs[m:], f)} }}"


def assemble(ast):
    g = peg.Grammar(peg.load(os.path.join(extract.VERIF, "spec/morph.peg")))
    groups, fnd = load_table()
    mod = extract.module(ast, "lex", "selmaho")
    items = extract.module(ast, "lex", "selmaho", "classify")
    ritems = extract.module(ast, "rules")
    ev = ClsEv([items, mod], C, g, ritems)
    parse_structs(mod, {"Selmaho"}, ev)
    vals = []
    for sel, e, ws in groups:
        for w in ws:
            if w in ev.ids:
                raise Unsupported("duplicate word in the reference table: " + w)
            ev.lid(w)
            vals.append((sel, e))
    n = len(vals)
    known = set(ev.enums["Selmaho"])
    miss = {s for s, _ in vals} - known | set(fnd) - known
    out, errs = [], {}
    if miss:
        errs["Selmaho"] = f"unsupported: the code has no variant {sorted(miss)}"
        return "use vstd::prelude::*;\nverus! {\n}\npub mod m { use vstd::prelude::*; verus! {\n} }\nfn main() {}\n", [], errs
    for q in C:
        ev.emit_or_stub(q, out, errs)
    longest = max(len(w.encode()) for w in ev.ids)
    firsts = sorted({w[0] for w in ev.ids if w})
    yids = [i for w, i in ev.ids.items() if w and set(w) == {"y"}]
    spec = f"""
pub open spec fn LONGEST() -> int {{ {longest} }}
/// number of the literal equal to s
pub uninterp spec fn wid(s: Seq<char>) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_wid(s: Seq<char>)
  ensures #[trigger] wid(s) >= 0 ==> blen(s) <= LONGEST() && {'s.len() > 0 && ' if '' not in ev.ids else ''}(s.len() > 0 ==> ({' || '.join('s[0] == ' + peg.chlit(c) for c in firsts)})),
    ally(s) ==> (wid(s) < 0{''.join(f' || wid(s) == {i}' for i in yids)}), wid(s) < {len(ev.ids)}
{{}}
impl<'a> Str<'a> {{
  #[verifier::external_body]
  pub fn lit_id(self) -> (r: i32) ensures r == wid(self@) {{ unimplemented!() }}
}}
pub open spec fn intable(k: int) -> bool {{ 0 <= k < {n} }}
pub open spec fn tab(k: int) -> Selmaho {{ {tree(ranges(lambda i: vals[i][0], n), lambda s: 'Selmaho::' + s)} }}
pub open spec fn tabe(k: int) -> bool {{ {tree(ranges(lambda i: vals[i][1], n), lambda b: 'true' if b else 'false')} }}
pub open spec fn fund(s: Selmaho) -> bool {{ {' || '.join('s is ' + x for x in fnd)} }}
"""
    prelude = open(os.path.join(os.path.dirname(__file__), "prelude.rs")).read()
    i = DLEM.index("pub proof fn lemma_strip_add"); j = DLEM.index("pub broadcast proof fn lemma_strip_last")
    enum = enum_text(ev, "Selmaho").replace("derive(Clone, Copy)", "derive(Clone, Copy, PartialEq, Eq, Structural)")
    src = ("use vstd::prelude::*;\nverus! {\n" + prelude + span.PRE_ST + rule_contracts(g) + STDX[:STDX.index("/// std's Peekable")].replace("pub open spec fn trimmed", "pub open spec fn trimmed") + DLEM[i:j]
           + enum + BUF + spec + LEMMAS + SPEC
           + "\n}\npub mod m { use vstd::prelude::*; use super::*; verus! {\n\n" + "\n".join(t for _, t in out) + "\n".join(ev.tables) + ev.lit_fns() + "\n} }\nfn main() {}\n")
    return src, [q for q, _ in out if q], errs
