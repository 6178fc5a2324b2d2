"""Unit `lexer`: src/lex/mod.rs under contract (C09, C10, C11, C05).  `Lexer::next` carries the contract;
its private helpers are inlined into it.  The word iterator, Span and Selmaho::classify enter through
their contracts (verified in units decompose, span and classify)."""
import os
from .st import *
from . import extract, peg, span, decompose, classify
from .decompose import DecEv, rule_contracts

HERE = os.path.dirname(__file__)
LEM = open(os.path.join(HERE, "lexer.rs")).read()

OLD = "$o0.input@, pend($o0.words), $o0.state"
STEP = OLD + ", $r, pend($n0.words), $n0.state"

C = {
    "Lexer::next": Contract(["wfl(*$0)"], [
        ("C11", "wfl($n0) && $n0.input == $o0.input"),
        ("C11", f"dead(pend($o0.words), $o0.state) ==> $r is None && dead(pend($n0.words), $n0.state)"),
        ("C11", f"ended({OLD}) ==> $r is None && dead(pend($n0.words), $n0.state)"),
        ("C11", f"!ended({OLD}) ==> $r is Some"),
        ("C11", f"$r is Some && $r->0 is Err ==> dead(pend($n0.words), $n0.state)"),
        ("C11", f"error({OLD}) is Some ==> $r == Some(Err::<Token, Error>(error({OLD})->0))"),
        ("C11", f"$r is Some && $r->0 is Err ==> error({OLD}) is Some"),
        ("C11", f"s_end({STEP})"),
        ("C10", f"s_word({STEP})"),
        ("C10", f"s_quote({STEP})"),
        ("C05,C10", f"s_close({STEP})"),
        ("C10", f"s_queue({STEP})"),
        ("C10", f"s_pause({STEP})"),
        ("C09", f"forall|e: int| #[trigger] inv09($o0.input@, e, pend($o0.words), $o0.state) ==> s09({STEP}, e)"),
    ], attrs="#[verifier::loop_isolation(false)]\n#[verifier::rlimit(200)]\n"),
    "lex": Contract(["blen($0@) <= u32::MAX"], [
        ("C11", "wfl($r)"),
        ("C10", "$r.input == $0 && pend($r.words) == Some(0int) && $r.state is Normal"),
        ("C09", "inv09($0@, 0, pend($r.words), $r.state)")], hints="broadcast use lemma_gap0;"),
}

STDX = """
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NonZeroU8 { v: std::num::NonZeroU8 }
pub uninterp spec fn nz(n: NonZeroU8) -> u8;
#[verifier::external_body]
pub fn NonZeroU8_new(x: u8) -> (r: Option<NonZeroU8>) ensures r is Some <==> x != 0, r is Some ==> nz(r->0) == x { unimplemented!() }
#[verifier::external_body]
pub fn NonZeroU8_get(n: NonZeroU8) -> (r: u8) ensures r == nz(n), r != 0 { unimplemented!() }
pub fn u8_checked_sub(a: u8, b: u8) -> (r: Option<u8>) ensures a >= b ==> r == Some((a - b) as u8), a < b ==> r is None { if a >= b { Some(a - b) } else { None } }
pub fn u8_saturating_sub(a: u8, b: u8) -> (r: u8) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
/// a.chars().filter(f).eq(b.chars().filter(g))
#[verifier::external_body]
pub fn filtered_eq<F: Fn(char) -> bool, G: Fn(char) -> bool>(a: Str<'_>, f: F, b: Str<'_>, g: G) -> (r: bool)
  requires forall|c: char| f.requires((c,)), forall|c: char| g.requires((c,))
  ensures (forall|c: char, x: bool| f.ensures((c,), x) ==> x == (c != ',')) && (forall|c: char, x: bool| g.ensures((c,), x) ==> x == (c != ',')) ==> r == (strip(a@) == strip(b@))
{ unimplemented!() }
/// s.replace(',', "")
#[verifier::external_body]
pub fn without_commas<'a>(s: Str<'a>) -> (r: Str<'a>) ensures r@ == strip(s@) { unimplemented!() }
"""


class ChIter:
    """s.chars().filter(f): statically known adapter chain"""

    def __init__(self, s, preds):
        self.s, self.preds = s, preds
        self.ty = ("ChIter",)


class LexEv(DecEv):
    lifetimes = ("Decomposer", "Lexer")
    noncopy = (("Struct", "Decomposer"), ("Struct", "Lexer"))
    tailret = True

    def default_err(self):
        return ("Enum", "Error")

    def type_of(self, t):
        if t and t["k"] == "timpl" and "Iterator" in t.get("toks", "") and "Token" in t.get("toks", ""):
            return self.named("Lexer")
        return super().type_of(t)

    def code(self, v):
        if isinstance(v, Arr):
            return "[" + ", ".join(self.code(x) for x in v.vals) + "]"
        return super().code(v)

    # ---- tail positions are evaluated in continuation-passing style (no merge after a branch)
    def mark(self, e):
        if not isinstance(e, dict):
            return
        e["tail"] = True
        k = e["k"]
        if k == "block" and e["stmts"] and e["stmts"][-1]["k"] == "tail":
            self.mark(e["stmts"][-1]["e"])
        elif k == "if":
            self.mark(e["t"])
            self.mark(e["e"])
        elif k == "match":
            for a in e["arms"]:
                self.mark(a["body"])
        elif k == "call" and pname(e["f"]) in ("Some", "Ok", "Err") and e["args"]:
            self.mark(e["args"][0])

    def emit(self, q):
        it, _ = self.find_item(q)
        if it is not None and q not in ("lex",):
            self.mark(it["body"])
            for n in walk(it["body"]):
                if n.get("k") == "return" and n["e"]:
                    self.mark(n["e"])
        self.brk = []
        return super().emit(q)

    def arms_emit(self, head, arms, fr, k, exits, want=None):
        if self.istail and fr.native:
            self.istail = False
            s = f"{head} {{\n"
            for p, en, body in arms:
                s += f"{p} => {{\n{self.ev(body, en, fr, k, want) if body is not None else k(Val('()', UNIT))}\n}}\n"
            return s + "}"
        return super().arms_emit(head, arms, fr, k, exits, want)

    istail = False

    def ev_if(self, e, env, fr, k, want):
        if e.get("tail") and fr.native:
            c = e["c"]
            if c["k"] != "letcond" and any(n.get("k") == "letcond" for n in walk(c)):
                raise Unsupported("let chain")

            def got(v):
                en = dict(env)
                if c["k"] == "letcond":
                    p, q = self.pat(c["pat"], v.ty, en, fr), "_"
                else:
                    p, q = "true", "false"
                self.istail = True
                return self.arms_emit(f"match {self.code(v)}", [(p, en, e["t"]), (q, env, e["e"])], fr, k, False, want)
            return self.ev(c["e"] if c["k"] == "letcond" else c, env, fr, got)
        return super().ev_if(e, env, fr, k, want)

    def ev_match(self, e, env, fr, k, want):
        if e.get("tail") and fr.native and all(a["guard"] is None for a in e["arms"]):
            def got(v):
                arms = []
                for a in e["arms"]:
                    en = dict(env)
                    arms.append((self.pat(a["pat"], v.ty, en, fr), en, a["body"]))
                self.istail = True
                return self.arms_emit(f"match {self.code(v)}", arms, fr, k, False, want)
            return self.ev(e["e"], env, fr, got)
        return super().ev_match(e, env, fr, k, want)

    def call_method(self, q, it, st, recv, args, env, fr, k):
        sp = it["sig"]["params"][0]
        node = self.curcall
        if node is not None and node.get("tail") and fr.native and not self.contract_fn(q) and sp["by_ref"]:
            # tail call of a private helper: its returns are the caller's
            self.curcall = None
            body = it["body"]
            self.mark(body)
            for n in walk(body):
                if n.get("k") == "return" and n["e"]:
                    self.mark(n["e"])
            params = it["sig"]["params"][1:]

            def go(vs):
                self.inline_depth += 1
                if self.inline_depth > 30:
                    raise Unsupported("recursive helper")
                old, self.selfty = self.selfty, st
                en = {"self": Val(recv.code, recv.ty)}
                pre = ""
                for p, a in zip(params, vs):
                    pre += self.bind_param(p["pat"], a, en, self.type_of(p["ty"]), fr)
                rty = self.type_of(it["sig"]["ret"]) if it["sig"]["ret"] else UNIT
                inner = Frame(True, lambda v: self.restore(old, k, v), rty)
                inner.muts = fr.muts
                r = pre + self.ev(body, en, inner, inner.ret, rty)
                self.selfty = old
                self.inline_depth -= 1
                return r
            return self.evs(args, env, fr, go, [self.type_of(p["ty"]) for p in params])
        self.curcall = None
        return super().call_method(q, it, st, recv, args, env, fr, k)

    curcall = None

    def bind_param(self, p, a, env, ty, fr):
        if p["k"] == "pident" and p["sub"] is not None:
            v = self.fresh(p["name"])
            en = Val(v, (a.ty if isinstance(a, Val) else None) or ty)
            env[p["name"]] = en
            t = self.pat(p["sub"], en.ty, env, None)
            return f"let {v} = {self.code(a)};\nlet {t} = {v};\n"
        return super().bind_param(p, a, env, ty, fr)

    # ---- values
    def ev_path(self, e, env, fr, k, want):
        n = pname(e)
        if n and n not in env:
            segs = [s["id"] for s in e["path"]]
            if segs[0] == "Self" and self.selfty:
                segs[0] = self.selfty
            if len(segs) >= 2 and segs[-2] in self.enums and isinstance(self.enums[segs[-2]].get(segs[-1]), list) and len(self.enums[segs[-2]][segs[-1]]) == 1:
                x = {"k": "path", "qself": None, "path": [{"id": "x#", "args": None}]}
                return k(Clo([{"k": "pident", "name": "x#", "by_ref": False, "mutable": False, "sub": None}], {"k": "call", "f": e, "args": [x]}, {}))
            if segs[-2:] == ["NonZeroU8", "new"]:
                return k(FnRef("NonZeroU8::new"))
        return super().ev_path(e, env, fr, k, want)

    def contract_fn(self, name):
        if name == "NonZeroU8::new":
            return ("NonZeroU8_new", [("u8",)], Opt(("NonZeroU8",)))
        return super().contract_fn(name)

    def ev_call(self, e, env, fr, k, want):
        n = pname(e["f"])
        if n and n.split("::")[-2:] == ["NonZeroU8", "new"]:
            return self.ev(e["args"][0], env, fr, lambda v: self.bind(f"NonZeroU8_new({v.code})", Opt(("NonZeroU8",)), k), ("u8",))
        return super().ev_call(e, env, fr, k, want)

    def ev_mcall(self, e, env, fr, k, want):
        name, a = e["name"], e["args"]
        if name == "eq" and len(a) == 1:
            def both(x, y):
                if isinstance(x, ChIter) and isinstance(y, ChIter):
                    if len(x.preds) != 1 or len(y.preds) != 1:
                        raise Unsupported("character iterator comparison")
                    return self.bind(f"filtered_eq({x.s.code}, {x.preds[0]}, {y.s.code}, {y.preds[0]})", BOOL, k)
                return self.binop("==", x, y, BOOL, k)
            return self.ev(e["recv"], env, fr, lambda x: self.ev(a[0], env, fr, lambda y: both(x, y)))
        if name == "ne" and len(a) == 1:
            return self.ev_mcall(dict(e, name="eq"), env, fr, lambda v: k(Val(f"(!{v.code})", BOOL)), want)
        self.curcall = e if e.get("tail") else None
        return super().ev_mcall(e, env, fr, k, want)

    def method(self, v, name, e, env, fr, k):
        if isinstance(v, Val) and v.ty == ("NonZeroU8",):
            if name == "get":
                return self.bind(f"NonZeroU8_get({v.code})", ("u8",), k)
            if name == "clone":
                return k(v)
        if isinstance(v, Val) and v.ty == STR and name == "chars":
            return k(ChIter(v, []))
        if isinstance(v, ChIter):
            if name == "filter":
                return k(ChIter(v.s, v.preds + [self.pred(e["args"][0], env, fr, CHAR)]))
            if name == "collect" and len(v.preds) == 1 and v.preds[0].replace(" ", "").endswith("{(" + re.match(r"\|(\w+)", v.preds[0])[1] + "!=',')}"):
                return self.bind(f"without_commas({v.s.code})", STR, k)
        if isinstance(v, Val) and v.ty == STR and name == "replace":
            def got(vs):
                c, s = vs
                if c.lit and c.code in ("','",) and e["args"][1].get("v") == "":
                    return self.bind(f"without_commas({v.code})", STR, k)
                raise Unsupported("str::replace")
            return self.evs(e["args"], env, fr, got)
        return super().method(v, name, e, env, fr, k)

    def binop(self, op, a, b, ty, k):
        return super().binop(op, a, b, ty, k)


def loop_quote(ev, fr, muts, n):
    opts = [v.name for v, c in muts if c.ty and c.ty[0] == "Opt" and c.ty[1] in (("u32",), None)]
    t, w = "old(self_).input@", "self_.words"
    s = ev.sub("") + f"""  invariant
    old(self_).state is DelimitedQuote && self_.state == old(self_).state && self_.input == old(self_).input && wf({w}) && {w}.input == self_.input,
    qclose({t}, pend({w}), quoted({t}, old(self_).state)) == qclose({t}, pend(old(self_).words), quoted({t}, old(self_).state)), //@C10,C05,C11
    passed({t}, pend(old(self_).words), pend({w})), //@C09,C10
"""
    if len(opts) == 2:
        a, b = opts
        if "end" in a and "end" not in b:
            a, b = b, a
        s += f"""    {a} is Some <==> {b} is Some, //@C09,C10
    {a} is None ==> pend({w}) == pend(old(self_).words), //@C09,C10
    {a} is Some ==> pend(old(self_).words) is Some && {a}->0 == blen({t}.take(pend(old(self_).words)->0)) && pend({w}) != pend(old(self_).words), //@C09,C10
    {b} is Some && pend({w}) is Some ==> {b}->0 == blen({t}.take(pend({w})->0 - 1)), //@C09,C10
"""
    elif opts or any(c.ty and c.ty[0] == "Opt" for v, c in muts):
        raise Unsupported("loop state of the quotation")
    return s + f"  decreases qleft({t}, pend({w}))\n"


C["Lexer::next"].loop = loop_quote


def assemble(ast):
    g = peg.Grammar(peg.load(os.path.join(extract.VERIF, "spec/morph.peg")))
    sitems, sev, stext = decompose.span_decl(ast)
    ditems = extract.module(ast, "decompose")
    smod = extract.module(ast, "lex", "selmaho")
    citems = extract.module(ast, "lex", "selmaho", "classify")
    titems = extract.module(ast, "lex", "token")
    items = extract.module(ast, "lex")
    # the word iterator, through its contracts
    dc = {q: Contract(c.req, c.ens, trusted=True, generics=c.generics) for q, c in decompose.C.items() if q in ("Decomposer::next", "Decomposer::next_no_decomposition", "Decomposer::new", "decompose")}
    dev = DecEv([ditems], dc, g, structs=dict(sev.structs))
    dev.aliases.update(sev.aliases)
    parse_structs(ditems, {"Decomposer"}, dev)
    dtext = "\n".join(dev.emit(q) for q in dc)
    # classification, through its contract
    cc = {"Selmaho::classify": Contract(classify.C["Selmaho::classify"].req, classify.C["Selmaho::classify"].ens, trusted=True)}
    cev = StEv([citems, smod], cc)
    parse_structs(smod, {"Selmaho"}, cev)
    ctext = "pub uninterp spec fn cls(s: Seq<char>) -> Selmaho;\npub uninterp spec fn cexp(s: Seq<char>) -> bool;\n" + cev.emit("Selmaho::classify")
    ev = LexEv([items], C, g, structs={**sev.structs, **dev.structs}, enums=dict(cev.enums))
    ev.aliases.update(sev.aliases)
    for src, cs in ((sev, span.C), (dev, dc), (cev, cc)):
        for q in cs:
            ev.sigs[q] = src.contract_fn(q)
            if "::" in q:
                ev.impls[tuple(q.split("::"))] = src.impls[tuple(q.split("::"))]
    for names, its in (({"Token"}, titems), ({"Error", "DelimitedQuoteState"}, items), ({"State"}, items), ({"Lexer"}, items)):
        parse_structs(its, names, ev)
    out, errs = [], {}
    for q in C:
        ev.emit_or_stub(q, out, errs)
    prelude = open(os.path.join(HERE, "prelude.rs")).read()
    L = decompose.LEMMAS.split("//=== state")
    src = ("use vstd::prelude::*;\nverus! {\n" + prelude + span.PRE_ST + stext + rule_contracts(g) + decompose.SPEC + decompose.STDX + L[0] + struct_text(dev, "Decomposer", copy=False) + decompose.STATE + L[1]
           + dtext + enum_text(ev, "Selmaho").replace("derive(Clone, Copy)", "derive(Clone, Copy, PartialEq, Eq, Structural)") + ctext + STDX
           + struct_text(ev, "Token") + struct_text(ev, "DelimitedQuoteState") + enum_text(ev, "State") + enum_text(ev, "Error") + struct_text(ev, "Lexer", copy=False) + LEM
           + "\n}\npub mod m { use vstd::prelude::*; use super::*; verus! {\nbroadcast use {super::grp_span, super::grp_lex};\n" + "\n".join(t for _, t in out) + ev.lit_fns() + "\n} }\nfn main() {}\n")
    return src, [q for q, _ in out if q], errs
