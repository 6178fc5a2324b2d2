"""The syntax-tree unit (C12-C16): every `Parse` and tree-traversal function of src/parse, monomorphised, put under contract.

The functions are rewritten (macro-expanded source -> Verus) by evaluating their bodies in
continuation-passing style: nom's combinators and closures are statically known values that are
applied where they are used; calls of another node type's `parse` (or tree method) stay calls and go
through that function's contract.  A repetition (`many0`, iterator adapters, `for`) becomes a
function of its own with a loop invariant.  Anything outside this dialect raises Unsupported.
"""
import hashlib
import os
import re

from .ev import Unsupported, pname, has_exit, walk, walk_all
from . import cstspec

HERE = os.path.dirname(os.path.abspath(__file__))
TOK, SPAN, LOC, SEL, ER, WL, NERR, IN = ("Tok",), ("Span",), ("Loc",), ("Sel",), ("Er",), ("WL",), ("NErr",), ("In",)
ARENA, BOOL, UNIT, USIZE, EXP, VIS, STR, TITER, ORD = ("Arena",), ("bool",), ("unit",), ("usize",), ("Exp",), ("Vis",), ("Str",), ("TIter",), ("Ord",)


def Tup(*ts):
    return ("Tup", tuple(ts))


def Opt(t):
    return ("Opt", t)


def Res(t, e):
    return ("Res", t, e)


def PRES(t):
    return Res(Tup(IN, t), NERR)


class Val:
    __slots__ = ("code", "ty", "ref", "adv", "mut")

    def __init__(self, code, ty=None, ref=False, adv=None, mut=False):
        self.code, self.ty, self.ref, self.adv, self.mut = code, ty, ref, adv, mut

    def __repr__(self):
        return f"Val({self.code}:{self.ty})"


class TupV:
    def __init__(self, vs):
        self.vs = vs


class ROk:
    def __init__(self, v):
        self.v = v


class RErr:
    def __init__(self, v):
        self.v = v


class RP:
    """the application of a parser to a position, not yet performed"""

    def __init__(self, p, inp):
        self.p, self.inp = p, inp


class Clo:
    def __init__(self, params, body, env, rty=None, ptys=None, key=None):
        self.params, self.body, self.env, self.rty, self.ptys, self.key = params, body, env, rty, ptys, key


class ParseFn:
    def __init__(self, ty, key):
        self.ty, self.key = ty, key


class PV:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a


class FnP:
    """a named function of the crate (item, substitution)"""

    def __init__(self, it, sub, key):
        self.it, self.sub, self.key = it, sub, key


class Std:
    def __init__(self, name):
        self.name = name


class Arr:
    def __init__(self, vs):
        self.vs = vs


class SStruct:
    def __init__(self, name, args, fields):
        self.name, self.args, self.fields = name, args, fields


class Iter:
    """iter() of a list (or Option), possibly reversed"""

    def __init__(self, v, rev):
        self.v, self.rev = v, rev


def advof(v):
    """the input position inside v (if it has one) is past the start"""
    if isinstance(v, RErr):
        return True
    if isinstance(v, ROk):
        return advof(v.v)
    if isinstance(v, TupV):
        return all(advof(x) for x in v.vs if isinstance(x, TupV) or isinstance(x, Val) and x.ty == IN)
    if isinstance(v, Val):
        return bool(v.adv) or v.code.startswith("Err(") or v.code == "None"
    return False


def mangle(t):
    k = t[0]
    if k == "adt":
        return t[1] + ("__" + "_".join(mangle(x) for x in t[2]) + "_" if t[2] else "")
    if k == "Tup":
        return "T" + str(len(t[1])) + "_" + "_".join(mangle(x) for x in t[1]) + "_"
    if k in ("Opt", "Vec", "Box"):
        return k + "_" + mangle(t[1])
    return k


def pad(s, n=1):
    return s


TREE = {"experimental": "ex", "start_location": "st", "end_location": "en", "for_each_child": "fc", "invoke_with_self": "iv"}


class Cst:
    def __init__(self, ast):
        self.n = 0
        self.adts, self.aliases, self.fns, self.ren = {}, {}, {}, {}
        self.impls = []
        parse = [i for i in ast if i["k"] == "mod" and i["name"] == "parse"][0]
        self.collect(parse["items"])
        lex = [i for i in ast if i["k"] == "mod" and i["name"] == "lex"][0]["items"]
        self.sel = self.find_enum(lex, "Selmaho")
        self.seln = {n: k for k, n in enumerate(self.sel)}
        self.impl_cache = {}
        self.index_impls()
        self.kids = {}
        self.nullable = set()
        self.hints = {"Time", "Space"}
        self.calls = {}
        self.rank = {}
        self.reset()

    # ---- the crate's items ----------------------------------------------------------------
    def find_enum(self, items, name):
        for i in items:
            if i["k"] == "enum" and i["name"] == name:
                return [v["name"] for v in i["variants"]]
            if i["k"] == "mod" and i["items"]:
                r = self.find_enum(i["items"], name)
                if r:
                    return r
        return None

    def collect(self, items):
        for i in items:
            k = i["k"]
            if k == "mod":
                if i["items"]:
                    self.collect(i["items"])
            elif k in ("struct", "enum"):
                if i["name"] in self.adts:
                    raise Unsupported(f"two types named {i['name']}")
                self.adts[i["name"]] = i
            elif k == "type":
                if i["name"] != "Result":
                    if i["name"] in self.aliases:
                        raise Unsupported(f"two aliases named {i['name']}")
                    self.aliases[i["name"]] = i
            elif k == "fn":
                if i["sig"]["name"] in self.fns:
                    raise Unsupported(f"two functions named {i['sig']['name']}")
                self.fns[i["sig"]["name"]] = i
            elif k == "impl":
                self.impls.append(i)
            elif k == "use":
                for a, b in re.findall(r"(\w+) as (\w+)", i["tree"]):
                    if a not in ("Result", "Bump"):
                        self.ren[b] = a

    def index_impls(self):
        self.timpl, self.inherent = {}, {}
        for i in self.impls:
            tr = i["tr"][-1]["id"] if i["tr"] else None
            if tr in ("Debug", "Display", "Error", "Default", "Clone", "Copy", "PartialEq", "Eq", "StructuralPartialEq", "From"):
                continue
            ps = [p["name"] for p in i["generics"]["params"] if p["k"] == "type"]
            sub = {p: ("var", p) for p in ps}
            try:
                head = self.ty(i["ty"], sub)
            except Unsupported:
                continue
            targs = []
            for a in (i["tr"][-1]["args"] or []) if i["tr"] else []:
                if a["k"] in ("lt", "binding"):
                    continue
                try:
                    targs.append(self.ty(a, sub))
                except Unsupported:
                    targs.append(None)
            (self.timpl.setdefault(tr, []) if tr else self.inherent.setdefault(head[1] if head[0] == "adt" else head[0], [])).append((head, targs, i))

    # ---- types ------------------------------------------------------------------------------
    def ty(self, t, sub):
        k = t["k"]
        if k == "ttuple":
            return Tup(*[self.ty(x, sub) for x in t["es"]]) if t["es"] else UNIT
        if k == "tref":
            e = t["e"]
            if e["k"] == "tslice":
                x = self.ty(e["e"], sub)
                if x == TOK and t["lt"] != "arena":
                    return IN
                return ("Vec", x)
            if "FnMut" in str(e.get("toks", "")):
                return VIS
            x = self.ty(e, sub)
            return x if x in (ARENA, VIS) else ("Box", x)
        if k == "tslice":
            return ("Slice", self.ty(t["e"], sub))
        if k == "tinfer":
            return None
        if k == "tpath":
            if t["qself"]:
                raise Unsupported("projection type")
            seg = t["path"][-1]
            n = seg["id"]
            args = [a for a in (seg["args"] or []) if a["k"] not in ("lt", "binding")] if isinstance(seg["args"], list) else []
            if n in sub and len(t["path"]) == 1:
                return sub[n]
            if n == "Option":
                return Opt(self.ty(args[0], sub))
            if n == "Box":
                x = self.ty(args[0], sub)
                return ("BoxOf", x)
            if n == "Vec":
                return ("Vec", self.ty(args[0], sub))
            prim = {"Token": TOK, "Span": SPAN, "Location": LOC, "Selmaho": SEL, "WithLocation": WL, "Arena": ARENA, "Bump": ARENA, "bool": BOOL, "usize": USIZE, "u32": LOC, "str": STR, "Cow": EXP}
            if n in prim:
                return prim[n]
            if n == "Error":
                return ER
            if n == "PhantomData":
                return EXP
            if n in ("Result", "ParseResult"):
                if len(args) == 1:
                    return PRES(self.ty(args[0], sub))
                return Res(self.ty(args[0], sub), self.ty(args[1], sub))
            n = self.ren.get(n, n)
            if n in self.aliases:
                a = self.aliases[n]
                ps = [p["name"] for p in a["generics"]["params"] if p["k"] == "type"]
                return self.ty(a["ty"], {**{p: self.ty(x, sub) for p, x in zip(ps, args)}})
            if n in self.adts:
                return ("adt", n, tuple(self.ty(a, sub) for a in args))
        raise Unsupported(f"type {str(t)[:160]}")

    def fields(self, T):
        """{variant or None: [(name, type, verus name)]} of an ADT"""
        if T in self.kids:
            return self.kids[T]
        it = self.adts[T[1]]
        ps = [p["name"] for p in it["generics"]["params"] if p["k"] == "type"]
        sub = dict(zip(ps, T[2]))
        sub["Self"] = T

        def fs(f):
            if f["k"] == "unit":
                return []
            if f["k"] == "named":
                return [(x["name"], self.ty(x["ty"], sub), "f_" + x["name"]) for x in f["fs"]]
            return [(str(i), self.ty(x["ty"], sub), f"f{i}") for i, x in enumerate(f["fs"])]
        r = {None: fs(it["fields"])} if it["k"] == "struct" else {v["name"]: fs(v["fields"]) for v in it["variants"]}
        self.kids[T] = r
        return r

    def match_head(self, h, t, sub):
        if t is None:
            return False
        if h[0] == "var":
            if h[1] in sub:
                return sub[h[1]] == t
            sub[h[1]] = t
            return True
        if h[0] != t[0]:
            return False
        if h[0] == "adt":
            return h[1] == t[1] and all(self.match_head(a, b, sub) for a, b in zip(h[2], t[2]))
        if h[0] == "Tup":
            return len(h[1]) == len(t[1]) and all(self.match_head(a, b, sub) for a, b in zip(h[1], t[1]))
        if len(h) == 1:
            return True
        return all(self.match_head(a, b, sub) for a, b in zip(h[1:], t[1:]))

    def find_impl(self, tr, T, targs=None):
        """(impl item, substitution); a blanket impl comes last"""
        key = (tr, T, tuple(targs) if targs else None)
        if key in self.impl_cache:
            return self.impl_cache[key]
        res = None
        for last in (False, True):
            for head, ta, it in self.timpl.get(tr, []):
                if (head[0] == "var") != last:
                    continue
                if last and tr == "TreeNodeChild" and not self.is_node(T):
                    continue
                sub = {}
                if self.match_head(head, T, sub) and (targs is None or ta == list(targs)):
                    sub["Self"] = T
                    res = (it, sub)
                    break
            if res:
                break
        self.impl_cache[key] = res
        return res

    def is_node(self, T):
        return self.find_impl("TreeNode", T) is not None

    def method_of(self, impl, name):
        for i in impl["items"]:
            if i["k"] == "fn" and i["sig"]["name"] == name:
                return i
        return None

    # ---- unification of unknown types ----------------------------------------------------------
    def find(self, t):
        while t is not None and t[0] == "tv" and t[1] in self.tvs:
            t = self.tvs[t[1]]
        return t

    def deep(self, t):
        t = self.find(t)
        if t is None:
            return None
        if t[0] == "Tup":
            return ("Tup", tuple(self.deep(x) for x in t[1]))
        if t[0] == "adt":
            return ("adt", t[1], tuple(self.deep(x) for x in t[2]))
        if t[0] in ("Opt", "Vec", "Box"):
            return (t[0], self.deep(t[1]))
        if t[0] == "Res":
            return ("Res", self.deep(t[1]), self.deep(t[2]))
        return t

    def unify(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is None or b is None or a == b:
            return
        if a[0] == "tv":
            self.tvs[a[1]] = b
            return
        if b[0] == "tv":
            self.tvs[b[1]] = a
            return
        if a[0] != b[0]:
            return
        if a[0] == "Tup" or a[0] == "adt":
            for x, y in zip(a[-1], b[-1]):
                self.unify(x, y)
        elif len(a) > 1:
            for x, y in zip(a[1:], b[1:]):
                self.unify(x, y)

    def typ(self, v):
        """type of a value"""
        if isinstance(v, Val):
            return self.deep(v.ty)
        if isinstance(v, TupV):
            return Tup(*[self.typ(x) for x in v.vs])
        if isinstance(v, ROk):
            return Res(self.typ(v.v), None)
        if isinstance(v, RErr):
            return Res(None, self.typ(v.v))
        return None

    # ---- per-function state ---------------------------------------------------------------------
    def reset(self):
        self.tvs = {}
        self.unres = False
        self.helpers = []
        self.used = {}          # names of contracts and types used by the current function
        self.owner = None
        self.hk = {}

    def fresh(self, b="t"):
        self.n += 1
        return f"{b}{self.n}"

    def use(self, kind, x):
        self.used.setdefault(kind, {})[x] = True

    # ---- text of types and summaries --------------------------------------------------------------
    def tt(self, t):
        t = self.deep(t)
        if t is None or t[0] == "tv":
            self.unres = True
            return "UNRESOLVED"
        if t[0] == "adt":
            self.use("adt", t)
            return mangle(t)
        if t[0] == "Tup":
            return "(" + ", ".join(self.tt(x) for x in t[1]) + ("," if len(t[1]) == 1 else "") + ")"
        if t[0] == "Opt":
            return f"Option<{self.tt(t[1])}>"
        if t[0] == "Vec":
            return f"Vec<{self.tt(t[1])}>"
        if t[0] == "Box":
            return f"Box<{self.tt(t[1])}>"
        if t[0] == "Res":
            return f"Result<{self.tt(t[1])}, {self.tt(t[2])}>"
        return {"Tok": "Tok", "Span": "Span", "Loc": "u32", "Sel": "u32", "Er": "Er", "WL": "WL", "NErr": "NErr", "In": "usize", "bool": "bool", "usize": "usize", "unit": "()", "Ord": "Ord3"}[t[0]]

    def lv(self, t, x):
        """the leaves of a value, as a spec expression"""
        t = self.deep(t)
        if t is None or t[0] == "tv":
            self.unres = True
            return "nil()"
        if t[0] == "adt":
            self.use("adt", t)
            return f"lv_{mangle(t)}({x})"
        if t[0] == "Tup":
            return "(" + " + ".join(self.lv(a, f"{x}.{i}") for i, a in enumerate(t[1])) + ")" if t[1] else "nil()"
        if t[0] == "Opt":
            y = self.fresh("y")
            return f"(match {x} {{ Some({y}) => {self.lv(t[1], y)}, None => nil() }})"
        if t[0] == "Vec":
            return f"flat({self.lvs(t[1], x + '@')})"
        if t[0] == "Box":
            return self.lv(t[1], f"(*{x})")
        if t[0] == "Tok":
            return f"sg({x})"
        if t == UNIT:
            return "nil()"
        raise Unsupported(f"leaves of a {t}")

    def lvs(self, t, x):
        self.use("lvs", self.deep(t))
        self.tt(t)
        return f"lvs_{mangle(self.deep(t))}({x})" if "tv" not in str(self.deep(t)) else "lvs_UNRESOLVED()"

    def leaf(self, T):
        """the selmaho of a one-token node, if T is one: {experimental, span} or a lone token that the node's name pins down"""
        fs = self.fields(T)
        if None not in fs or T[2]:
            return None
        im = self.find_impl("TreeNode", T)
        if not im:
            return None
        nm = self.method_of(im[0], "name")
        if sorted((f[0], f[1]) for f in fs[None]) == [("experimental", BOOL), ("span", SPAN)]:
            for e in walk_all(nm["body"]):
                p = pname(e)
                if p and p.split("::")[0] == "Selmaho" and p.split("::")[-1] in self.seln:
                    return p.split("::")[-1]
            raise Unsupported(f"{T[1]}: which selmaho is it")
        if [f[1] for f in fs[None]] == [TOK]:
            for e in walk_all(nm["body"]):
                if e.get("k") == "lit" and e.get("t") == "str" and e["v"] in self.seln:
                    return e["v"]
            im = self.find_impl("Parse", T)
            sels = {p.split("::")[-1] for m in (im[0]["items"] if im else []) for e in walk_all(m.get("body") or {}) for p in [pname(e) or ""] if p.split("::")[0] == "Selmaho"} & set(self.seln)
            if len(sels) == 1:
                return sels.pop()
        return None

    def lvdef(self, T):
        """text of the leaves of x by its fields"""
        fs = self.fields(T)
        lf = self.leaf(T)
        if lf:
            f = fs[None]
            if len(f) == 1:
                return f"sg(Tok {{ selmaho: {self.seln[lf]}u32, experimental: x.{f[0][2]}.experimental, span: x.{f[0][2]}.span }})"
            return f"sg(Tok {{ selmaho: {self.seln[lf]}u32, experimental: x.f_experimental, span: x.f_span }})"
        if None in fs:
            return " + ".join(self.lv(t, f"x.{v}") for _, t, v in fs[None]) or "nil()"
        N = mangle(T)
        arms = []
        for v, f in fs.items():
            s = " + ".join(self.lv(t, "v" + w) for _, t, w in f) or "nil()"
            arms.append(f"{N}::{v} {{ {', '.join(w + ': v' + w for _, t, w in f)} }} => {s}")
        return f"match x {{ {', '.join(arms)} }}"

    # ---- values to code --------------------------------------------------------------------------
    def cd(self, v):
        if isinstance(v, Val):
            return v.code
        if isinstance(v, TupV):
            return "(" + ", ".join(self.cd(x) for x in v.vs) + ("," if len(v.vs) == 1 else "") + ")"
        if isinstance(v, ROk):
            return f"Ok({self.cd(v.v)})"
        if isinstance(v, RErr):
            return f"Err({self.cd(v.v)})"
        if isinstance(v, RP):
            return self.mat(v).code
        raise Unsupported(f"a function value or iterator is used as data ({type(v).__name__})")

    def aref(self, v):
        """as a shared reference"""
        return v.code if v.ref else ("&" + v.code)

    def atom(self, v, k, base="t"):
        if isinstance(v, RP):
            v = self.mat(v)
        if isinstance(v, Val) and not re.fullmatch(r"[A-Za-z_][\w.]*|\d+\w*", v.code):
            x = self.fresh(base)
            if not v.ref and re.fullmatch(r"\(\*[A-Za-z_][\w.]*\)", v.code):
                return f"let {x} = &{v.code};\n" + k(Val(x, v.ty, True, v.adv))
            return f"let {x} = {v.code};\n" + k(Val(x, v.ty, v.ref, v.adv))
        return k(v)

    def mat(self, r):
        """a parse result as a value"""
        if isinstance(r, Val):
            return r
        cell = {"t": None, "adv": True}

        def ok(j, x):
            cell["t"] = cell["t"] or self.typ(x)
            if self.typ(x) and cell["t"]:
                self.unify(cell["t"], self.typ(x))
            cell["adv"] = cell["adv"] and bool(j.adv)
            return f"Ok(({self.cd(j)}, {self.cd(x)}))"
        if isinstance(r, (ROk, RErr)) and not (isinstance(r, ROk) and isinstance(r.v, TupV)):
            return Val(self.cd(r), self.typ(r))
        code = self.consume(r, ok, lambda e: f"Err({self.cd(e)})")
        return Val("{ " + code + " }" if not code.startswith("match") else code, PRES(cell["t"]), adv=cell["adv"])

    def consume(self, r, ok, err):
        if isinstance(r, RP):
            return self.run(r.p, r.inp, ok, err)
        if isinstance(r, RErr):
            return err(r.v)
        if isinstance(r, ROk):
            if isinstance(r.v, TupV):
                return ok(*r.v.vs)
            v = r.v
            return self.atom(v, lambda v: ok(Val(v.code + ".0", IN), Val(v.code + ".1", v.ty[1][1] if v.ty and v.ty[0] == "Tup" else None)))
        if isinstance(r, Val):
            t = self.deep(r.ty)
            if not t or t[0] != "Res":
                raise Unsupported(f"parse result expected, got {t}")
            y, e = self.fresh("y"), self.fresh("e")
            ot = t[1]
            x = ot[1][1] if ot and ot[0] == "Tup" else None
            return (f"match {r.code} {{ Ok({y}) => {{\n{ok(Val(y + '.0', IN, adv=r.adv), Val(y + '.1', x))}\n}}, Err({e}) => {{\n{err(Val(e, t[2] or NERR))}\n}} }}")
        raise Unsupported(f"parse result expected ({type(r).__name__})")

    # ---- parsers ---------------------------------------------------------------------------------
    def wl(self, at, er):
        im = self.find_impl("ParseError", WL)
        m = self.method_of(im[0], "from_error_kind")
        if isinstance(at, Val) and at.mut:
            at = Val(at.code, at.ty, at.ref, at.adv)    # its value now
        r = self.inline_value(m, im[1], [at, Val("()", EXP)], ("fek",))
        return r

    def inline_value(self, m, sub, args, key):
        out = []
        t = self.call_item(m, sub, args, key, lambda v: (out.append(v), "\0")[1])
        if len(out) != 1 or t != "\0":
            raise Unsupported("expected a plain value")
        return out[0]

    def as_parser(self, v):
        if isinstance(v, (ParseFn, PV, Clo, FnP, SStruct)):
            return v
        raise Unsupported(f"parser expected ({type(v).__name__})")

    def call_clo(self, c, args, k):
        """value of a closure/function body applied to args, in CPS"""
        env = dict(c.env)
        pre = ""
        if len(c.params) != len(args):
            raise Unsupported("arity")
        for i, (p, a) in enumerate(zip(c.params, args)):
            if c.ptys and c.ptys[i] is not None:
                self.unify(self.typ(a), c.ptys[i])
            pre += self.bindpat(p, a, env)

        def ret(v):
            if c.rty is not None:
                self.unify(self.typ(v), c.rty)
                if isinstance(v, RP):
                    t = self.parser_type(v.p)
                    if t is not None:
                        self.unify(PRES(t), c.rty)
            return k(v)
        fr = Frame(ret, c.rty)
        return pre + self.ev(c.body, env, fr, ret)

    def parser_type(self, p):
        if isinstance(p, ParseFn):
            return p.ty
        return None

    def call_item(self, m, sub, args, key, k):
        """inline a function item"""
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 40:
            self.depth = 0
            raise Unsupported("inlining too deep")
        try:
            ps = m["sig"]["params"]
            params, ptys = [], []
            for p in ps:
                if p["k"] == "self":
                    params.append({"k": "pident", "name": "self", "mutable": False, "sub": None})
                    ptys.append(None)
                else:
                    params.append(p["pat"])
                    try:
                        t = p["ty"]
                        if t["k"] == "tref" and t["e"]["k"] != "tslice":
                            t = t["e"]
                        ptys.append(self.ty(t, sub))
                    except Unsupported:
                        ptys.append(None)
            r = m["sig"]["ret"]
            try:
                rty = self.ty(r, sub) if r else None
            except Unsupported:
                rty = None
            c = Clo(params, m["body"], {"$sub": sub, "$inst": key}, rty, ptys)
            if has_exit(m["body"]) and rty is not None and rty[0] == "Res" and rty[2] == NERR:
                # several ways out: a block of its own
                cell = {"adv": True}

                def out(v):
                    v = self.mat(v)
                    cell["adv"] = cell["adv"] and (v.adv is not False) and (bool(v.adv) or v.code.startswith("Err("))
                    return v.code
                code = self.call_clo(c, args, out)
                x = self.fresh("b")
                return f"let {x} = {{\n{code}\n}};\n" + k(Val(x, rty, adv=cell["adv"]))
            return self.call_clo(c, args, k)
        finally:
            self.depth -= 1

    def term(self, M, p):
        """the call of M's function at p is smaller than the current one"""
        self.calls.setdefault(self.owner, {}).setdefault(M, []).append(bool(p.adv))
        if p.adv:
            return f"assert({self.start} < {p.code}); //@C14\n"
        ro, rm = self.rank.get(self.owner), self.rank.get(M)
        if ro is not None and rm is not None and rm < ro:
            return f"assert({self.start} <= {p.code}); //@C14 and the rank of {M[1]} is {rm} < {ro}\n"
        return f"assert({self.start} < {p.code}); //@C14 no rank orders {M[1]} below\n"

    def call_contract(self, name, T, p, adv, extra, ok, err, pre=""):
        r, y, e = self.fresh("r"), self.fresh("y"), self.fresh("e")
        j, x = self.fresh("j"), self.fresh("x")
        return (f"{pre}let {r} = {name}(t, {p.code}{extra});\nmatch {r} {{ Err({e}) => {{\n{err(Val(e, NERR))}\n}}, Ok({y}) => {{\nlet {j} = {y}.0;\nlet {x} = {y}.1;\n"
                f"{ok(Val(j, IN, adv=adv), Val(x, T))}\n}} }}")

    def run(self, p, inp, ok, err):
        if not isinstance(inp, Val):
            raise Unsupported("parser input")
        if not re.fullmatch(r"\w+(\.\w+)*", inp.code):
            return self.atom(inp, lambda i: self.run(p, i, ok, err), "p")
        if isinstance(p, Clo):
            return self.call_clo(p, [inp], lambda r: self.consume(r, ok, err)) if not has_exit(p.body) else self.run_block(p, inp, ok, err)
        if isinstance(p, FnP):
            return self.call_item(p.it, p.sub, [inp, Val("ARENA", ARENA)][:len(p.it["sig"]["params"])], p.key, lambda r: self.consume(r, ok, err))
        if isinstance(p, SStruct):
            T = ("adt", p.name, p.args)
            im = self.find_impl("Parser", T)
            if not im:
                raise Unsupported(f"{p.name} is not a parser")
            m = self.method_of(im[0], "parse")
            return self.call_item(m, im[1], [p, inp], ("sp", p.name, p.args), lambda r: self.consume(r, ok, err))
        if isinstance(p, ParseFn):
            return self.run_type(self.find(p.ty), p, inp, ok, err)
        k, a = p.kind, p.a
        if k == "map":
            def got(j, x):
                return self.apply(a[1], [x], lambda y: ok(j, y))
            return self.run(a[0], inp, got, err)
        if k == "tuple":
            def go(n, j, xs):
                if n == len(a[0]):
                    return ok(j, TupV(xs))
                return self.run(a[0][n], j, lambda j2, x: self.keep(x, lambda y: go(n + 1, j2, xs + [y])), err)
            return go(0, inp, [])
        if k == "cut":
            def cut(e):
                return f"let ce = to_failure({e.code});\n" + err(Val("ce", NERR)) if isinstance(e, Val) else err(e)
            return self.run(a[0], inp, ok, cut)
        if k == "opt":
            r = self.mat(RP(a[0], inp))
            o = self.fresh("o")
            t = r.ty[1][1][1]
            return (f"let {o} = match {r.code} {{ Ok(y) => Ok((y.0, Some(y.1))), Err(NErr::Error(_)) => Ok(({inp.code}, None)), Err(e) => Err(e) }};\n"
                    + self.consume(Val(o, PRES(Opt(t)), adv=inp.adv), ok, err))
        if k == "not":
            r = self.mat(RP(a[0], inp))
            e = self.wl(inp, None)
            o = self.fresh("o")
            return (f"let {o}: PR<()> = match {r.code} {{ Ok(_) => Err(NErr::Error({self.cd(e)})), Err(NErr::Error(_)) => Ok(({inp.code}, ())), Err(e) => Err(e) }};\n"
                    + self.consume(Val(o, PRES(UNIT), adv=inp.adv), ok, err))
        if k == "alt":
            ts = {"t": None, "adv": True}

            def branch(n):
                r = self.mat(RP(a[0][n], inp))
                t = r.ty[1][1][1]
                if ts["t"] is None:
                    ts["t"] = t
                else:
                    self.unify(ts["t"], t)
                    ts["t"] = ts["t"] or t
                ts["adv"] = ts["adv"] and bool(r.adv)
                return r.code
            im = self.find_impl("ParseError", WL)
            app = self.method_of(im[0], "append")

            def go(n, prev):
                c = branch(n)
                b, e = self.fresh("b"), self.fresh("e")
                w = self.fresh("w")
                if prev is None:
                    comb = f"let {w} = {e};\n"
                else:
                    self.use("or", True)
                    comb = f"let {w} = or_wl(t, {inp.code}, {prev}, {e});\n"
                if n + 1 == len(a[0]):
                    fin = self.inline_value(app, im[1], [inp, Val("()", EXP), Val(w, WL)], ("append",))
                    rest = f"Err(NErr::Error({self.cd(fin)}))"
                else:
                    rest = go(n + 1, w)
                return f"let {b} = {c};\nmatch {b} {{ Err(NErr::Error({e})) => {{\n{comb}{rest}\n}}, q => q }}"
            code = go(0, None)
            o = self.fresh("o")
            return f"let {o} = {{\n{code}\n}};\n" + self.consume(Val(o, PRES(ts["t"]), adv=ts["adv"]), ok, err)
        if k in ("many0", "many1", "many_till"):
            return self.repeat(p, inp, ok, err)
        if k == "all_consuming":
            def got(j, x):
                e = self.wl(j, None)
                return f"if {j.code} == t.len() {{\n{ok(j, x)}\n}} else {{\n{err(Val(f'NErr::Error({self.cd(e)})', NERR))}\n}}"
            return self.run(a[0], inp, got, err)
        raise Unsupported(f"combinator {k}")

    def keep(self, x, k):
        return k(x)

    def run_block(self, p, inp, ok, err):
        cell = {"t": None, "adv": True}

        def out(v):
            v = self.mat(v)
            if v.ty and v.ty[0] == "Res":
                if cell["t"] is None or cell["t"][1] is None:
                    cell["t"] = v.ty
                else:
                    self.unify(cell["t"], v.ty)
            cell["adv"] = cell["adv"] and (bool(v.adv) or v.code.startswith("Err("))
            return v.code
        code = self.call_clo(p, [inp], out)
        b = self.fresh("b")
        return f"let {b} = {{\n{code}\n}};\n" + self.consume(Val(b, cell["t"], adv=cell["adv"]), ok, err)

    def run_type(self, T, p, inp, ok, err):
        if T is None or T[0] == "tv":
            self.unres = True
            return ok(Val(inp.code, IN, adv=inp.adv), Val("UNRESOLVED", T))
        T = self.deep(T)
        if T[0] == "adt" and "tv" not in str(T):
            self.use("parse", T)
            self.tt(T)
            return self.call_contract(f"parse_{mangle(T)}", T, inp, bool(inp.adv) or not self.may_null(T), "", ok, err, self.term(T, inp))
        if T == TOK:
            self.use("parse", T)
            return self.call_contract("parse_Tok", T, inp, True, "", ok, err)
        im = self.find_impl("Parse", T)
        if not im:
            raise Unsupported(f"no Parse impl for {T}")
        m = self.method_of(im[0], "parse")

        def got(j, x):
            self.unify(self.typ(x), T)
            return ok(j, x)
        return self.call_item(m, im[1], [inp, Val("ARENA", ARENA)], (p.key, T), lambda r: self.consume(r, got, err))

    def may_null(self, T):
        return T in self.nullable

    def repeat(self, p, inp, ok, err):
        k = p.kind
        elem = p.a[0]
        # which repetition of this function this is: by position in program order of this pass
        idx = len(self.helpers)
        name = f"{mangle(self.owner) if self.owner else 'x'}_m{idx}"
        hold = {}
        self.helpers.append(hold)
        save = self.start
        j0 = Val("i", IN, adv=inp.adv)
        self.start = "g"
        r = self.mat(RP(elem, j0))
        T = r.ty[1][1][1]
        eadv = bool(r.adv)
        gr = None
        if k == "many_till":
            gr = self.mat(RP(p.a[1], j0))
        self.start = save
        lvt = self.lvs(T, "v@")
        ex = None
        try:
            ex = ("till", self.expr(elem), self.expr(p.a[1])) if k == "many_till" else ("star", self.expr(elem))
        except Unsupported:
            pass
        if k == "many_till":
            GT = gr.ty[1][1][1]
            RT = Tup(("Vec", T), GT)
        else:
            RT = ("Vec", T)
        im = self.find_impl("ParseError", WL)
        app = self.inline_value(self.method_of(im[0], "append"), im[1], [Val("i", IN), Val("()", EXP), Val("e", WL)], ("append",))
        rep = dict(name=name, kind=k, T=T, RT=RT, ex=ex, body=r.code, gbody=gr.code if gr else None, strict=bool(inp.adv), eadv=eadv,
                   app=self.cd(app), gadv=not inp.adv and (eadv if k == "many1" else bool(gr.adv) if gr else False),
                   GT=gr.ty[1][1][1] if gr else None, err=self.cd(self.wl(Val("i", IN), None)))
        hold.update(rep)
        adv = bool(inp.adv) or (k == "many1" and eadv) or (k == "many_till" and bool(gr.adv))
        r_, y, e = self.fresh("r"), self.fresh("y"), self.fresh("e")
        j, x = self.fresh("j"), self.fresh("x")
        g = "Ghost(g)" if self.start == "g" else f"Ghost({self.start} as int)"
        okc = ok(Val(j, IN, adv=adv), TupV([Val(x + ".0", ("Vec", T)), Val(x + ".1", GT)]) if k == "many_till" else Val(x, RT))
        return (f"let {r_} = {name}(t, {inp.code}, {g});\nmatch {r_} {{ Err({e}) => {{\n{err(Val(e, NERR))}\n}}, Ok({y}) => {{\nlet {j} = {y}.0;\nlet {x} = {y}.1;\n{okc}\n}} }}")

    # ---- the grammar expression of a parser, read off the code --------------------------------------
    def expr(self, p):
        if isinstance(p, ParseFn):
            return self.texpr(p.ty, p.key)
        if isinstance(p, (Clo, FnP, SStruct)):
            INP = Val("INP", IN)
            out = []

            def k(r):
                out.append(r)
                return ""
            n = self.n
            if isinstance(p, Clo):
                if has_exit(p.body):
                    raise Unsupported("grammar expression of a parser with early exits")
                self.call_clo(p, [INP], k)
            elif isinstance(p, FnP):
                if has_exit(p.it["body"]):
                    raise Unsupported("grammar expression of a parser with early exits")
                self.call_item(p.it, p.sub, [INP, Val("ARENA", ARENA)][:len(p.it["sig"]["params"])], p.key, k)
            else:
                im = self.find_impl("Parser", ("adt", p.name, p.args))
                self.call_item(self.method_of(im[0], "parse"), im[1], [p, INP], ("sp", p.name, p.args), k)
            if len(out) != 1:
                raise Unsupported("grammar expression of a branching parser")
            r = out[0]
            if isinstance(r, ROk) and isinstance(r.v, TupV) and self.cd(r.v.vs[0]) == "INP":
                return ("seq", ())
            if isinstance(r, RP) and r.inp.code == "INP":
                return self.expr(r.p)
            raise Unsupported("grammar expression of this parser")
        k, a = p.kind, p.a
        if k == "map":
            return self.expr(a[0])
        if k == "tuple":
            return ("seq", tuple(self.expr(x) for x in a[0]))
        if k == "alt":
            return ("alt", tuple(self.expr(x) for x in a[0]))
        if k in ("opt", "not", "cut"):
            return (k, self.expr(a[0]))
        if k == "many0":
            return ("star", self.expr(a[0]))
        if k == "many1":
            e = self.expr(a[0])
            return ("seq", (e, ("star", e)))
        if k == "many_till":
            return ("till", self.expr(a[0]), self.expr(a[1]))
        raise Unsupported(f"grammar expression of {k}")

    def texpr(self, T, key=None):
        T = self.deep(T)
        if T is None or "tv" in str(T):
            self.unres = True
            return ("any",)
        if T == TOK:
            return ("any",)
        if T[0] == "adt":
            return ("ref", T)
        if T == SPAN:
            return ("any",)
        if T[0] == "Opt":
            return ("opt", self.texpr(T[1]))
        if T[0] == "Box":
            return self.texpr(T[1])
        if T[0] == "Tup":
            return ("seq", tuple(self.texpr(x) for x in T[1]))
        raise Unsupported(f"grammar expression of {T}")

    def adt_expr(self, T):
        """code-derived grammar expression of a type's parse function"""
        save = (self.tvs, self.unres, self.used, self.helpers, self.owner)
        self.tvs, self.owner = {}, T
        self.start = "i"
        try:
            im = self.find_impl("Parse", T)
            m = self.method_of(im[0], "parse")
            for _ in range(6):
                self.unres = False
                self.used, self.helpers = {}, []
                self.body_of(m, im[1], T)
                e = self.expr(FnP(m, im[1], ("top",)))
                if not self.unres:
                    break
            return e
        finally:
            self.tvs, self.unres, self.used, self.helpers, self.owner = save

    # ---- statements and expressions ---------------------------------------------------------------
    def bindpat(self, p, v, env):
        k = p["k"]
        if k == "pwild":
            return ""
        if k == "ptype":
            return self.bindpat(p["p"], v, env)
        if k == "pref":
            return self.bindpat(p["p"], v, env)
        if k == "pident":
            if p["sub"]:
                raise Unsupported("binding @ pattern")
            if p["name"] == "None":
                raise Unsupported("refutable pattern")
            if isinstance(v, RP):
                v = self.mat(v)
            if isinstance(v, ROk) and not p["mutable"]:
                w = self.mat(v)
                T = self.deep(self.typ(w))
                if T and T[0] == "Res" and self.deep(T[1]) is not None and self.deep(T[1])[0] != "tv":
                    x = self.fresh("v")
                    env[p["name"]] = Val(x, Res(T[1], NERR), adv=advof(v))
                    return f"let {x}: Result<{self.tt(T[1])}, NErr> = {w.code};\n"
            if p["mutable"] and isinstance(v, (PV, FnP, ParseFn, Clo)):
                env[p["name"]] = v
                return ""
            if p["mutable"]:
                if isinstance(v, Iter):
                    env[p["name"]] = v
                    return ""
                if isinstance(v, Val) and v.ty == TITER:
                    x = self.fresh("it")
                    env[p["name"]] = Val(x, TITER, mut=True)
                    return f"let mut {x} = {v.code};\n"
                x = self.fresh("m")
                env[p["name"]] = Val(x, self.typ(v), adv=advof(v) if self.typ(v) == IN else None, mut=True)
                return f"let mut {x} = {self.cd(v)};\n"
            if isinstance(v, Val) and not re.fullmatch(r"[&*]*[A-Za-z_][\w.]*|\(\*[A-Za-z_][\w.]*\)|\d+\w*|\(\)", v.code):
                x = self.fresh("v")
                env[p["name"]] = Val(x, v.ty, v.ref, v.adv)
                return f"let {x} = {v.code};\n"
            if isinstance(v, Val) and v.mut:
                x = self.fresh("v")
                env[p["name"]] = Val(x, v.ty, v.ref, v.adv)
                return f"let {x} = {v.code};\n"
            env[p["name"]] = v
            return ""
        if k == "ptuple":
            es = p["es"]
            n = self.tup_len(v)
            pre = ""
            if isinstance(v, RP):
                raise Unsupported("tuple pattern on a result")
            if n is None and not es:
                return ""
            rest = [i for i, e in enumerate(es) if e["k"] == "prest"]
            if n is None:
                if rest:
                    raise Unsupported("tuple pattern with rest on unknown type")
                n = len(es)
            if isinstance(v, Val) and not re.fullmatch(r"[A-Za-z_][\w.]*", v.code):
                x = self.fresh("v")
                if not v.ref and re.fullmatch(r"\(\*[A-Za-z_][\w.]*\)", v.code):
                    v = Val("&" + v.code, v.ty, True, v.adv)
                pre += f"let {x} = {v.code};\n"
                v = Val(x, v.ty, v.ref, v.adv)
            if rest:
                r = rest[0]
                pairs = [(es[i], i) for i in range(r)] + [(es[i], n - (len(es) - i)) for i in range(r + 1, len(es))]
            else:
                pairs = [(e, i) for i, e in enumerate(es)]
            for e, i in pairs:
                pre += self.bindpat(e, self.proj(v, i), env)
            return pre
        if k in ("pts", "pstruct"):
            T = self.typ(v)
            if isinstance(v, Val) and T in (TOK, SPAN) and k == "pstruct":
                if p["path"][-1]["id"] != {TOK: "Token", SPAN: "Span"}[T]:
                    raise Unsupported("struct pattern")
                return "".join(self.bindpat(f["pat"], Val(f"{v.code}.{f['name']}", {"selmaho": SEL, "experimental": BOOL, "span": SPAN, "start": LOC, "end": LOC}[f["name"]]), env) for f in p["fields"])
            if not isinstance(v, Val) or not T or T[0] != "adt" or None not in self.fields(T):
                if isinstance(v, SStruct):
                    raise Unsupported("struct pattern")
                raise Unsupported(f"pattern on {T}")
            self.use("concrete", T)
            pre = ""
            if not re.fullmatch(r"[A-Za-z_][\w.]*", v.code):
                x = self.fresh("v")
                pre += f"let {x} = {v.code};\n"
                v = Val(x, v.ty, v.ref)
            fs = self.fields(T)[None]
            if k == "pts":
                if any(e["k"] == "prest" for e in p["es"]) and len(p["es"]) > 1:
                    raise Unsupported("rest pattern")
                pairs = [(e, f) for e, f in zip(p["es"], fs) if e["k"] != "prest"]
            else:
                d = {f[0]: f for f in fs}
                pairs = [(f["pat"], d[f["name"]]) for f in p["fields"]]
            for e, f in pairs:
                pre += self.bindpat(e, Val(f"{v.code}.{f[2]}", f[1]), env)
            return pre
        raise Unsupported(f"pattern {k}")

    def tup_len(self, v):
        if isinstance(v, TupV):
            return len(v.vs)
        t = self.typ(v)
        return len(t[1]) if t and t[0] == "Tup" else None

    def proj(self, v, i):
        if isinstance(v, TupV):
            return v.vs[i]
        t = self.typ(v)
        ft = t[1][i] if t and t[0] == "Tup" and i < len(t[1]) else None
        return Val(f"{v.code}.{i}", ft, adv=v.adv if ft == IN else None)

    def rpat(self, p, T, env, ref):
        """refutable pattern text; binds names"""
        T = self.deep(T)
        k = p["k"]
        if k == "pwild":
            return "_"
        if k == "prest":
            return ".."
        if k == "pref":
            return self.rpat(p["p"], T, env, ref)
        if k == "pident":
            if p["name"] == "None":
                return "None"
            if p["sub"]:
                raise Unsupported("binding @ pattern")
            x = self.fresh("v")
            if T == EXP:
                env[p["name"]] = Val("()", EXP)
                return "_"
            env[p["name"]] = Val(x, T, ref, self.padv if T == IN or (T and T[0] in ("Tup", "Opt", "Res")) else None)
            return x
        if k == "por":
            return " | ".join(self.rpat(x, T, env, ref) for x in p["es"])
        if k == "ptuple":
            ts = T[1] if T and T[0] == "Tup" else [None] * len(p["es"])
            return "(" + ", ".join(self.rpat(x, t, env, ref) for x, t in zip(p["es"], ts)) + ("," if len(p["es"]) == 1 else "") + ")"
        if k in ("pts", "ppath", "pstruct"):
            segs = [s["id"] for s in p["path"]]
            last = segs[-1]
            if T == ORD and last in ("Less", "Equal", "Greater"):
                return f"Ord3::{last}"
            if last == "Some":
                return f"Some({self.rpat(p['es'][0], T[1] if T and T[0] == 'Opt' else None, env, ref)})"
            if last == "None":
                return "None"
            if last in ("Ok", "Err") and T and T[0] == "Res":
                return f"{last}({self.rpat(p['es'][0], T[1] if last == 'Ok' else T[2], env, ref)})"
            if last in ("Error", "Failure", "Incomplete") and T == NERR:
                if last == "Incomplete":
                    raise Unsupported("Incomplete")
                return f"NErr::{last}({self.rpat(p['es'][0], WL, env, ref)})"
            if len(segs) >= 2 and segs[-2] == "Selmaho" or T == SEL:
                if last not in self.seln:
                    raise Unsupported(f"selmaho {last}")
                return f"{self.seln[last]}u32"
            if T == ER:
                if last == "ExpectedGot":
                    d = {f["name"]: f["pat"] for f in p["fields"]}
                    if "expected" in d:
                        self.rpat(d["expected"], EXP, env, ref)
                    g = self.rpat(d["got"], Opt(TOK), env, ref) if "got" in d else "_"
                    return f"Er::ExpectedGot {{ got: {g} }}"
                if k == "ppath" or k == "pstruct":
                    return f"Er::{last}"
                for x in p["es"]:
                    self.rpat(x, EXP, env, ref)
                return f"Er::{last}"
            if T and T[0] == "adt":
                fs = self.fields(T)
                self.use("concrete", T)
                N = self.tt(T)
                if None in fs:
                    v, name = None, N
                else:
                    if last not in fs:
                        raise Unsupported(f"variant {last}")
                    v, name = last, f"{N}::{last}"
                if k == "ppath":
                    return f"{name} {{ }}" if not fs[v] else f"{name} {{ .. }}"
                if k == "pts":
                    if any(e["k"] == "prest" for e in p["es"]):
                        if len(p["es"]) > 1:
                            raise Unsupported("rest pattern")
                        return f"{name} {{ .. }}"
                    return f"{name} {{ " + ", ".join(f"{f[2]}: {self.rpat(e, f[1], env, ref)}" for e, f in zip(p["es"], fs[v])) + " }"
                d = {f[0]: f for f in fs[v]}
                out = [f"{d[f['name']][2]}: {self.rpat(f['pat'], d[f['name']][1], env, ref)}" for f in p["fields"]]
                return f"{name} {{ " + ", ".join(out + ([".."] if len(out) < len(fs[v]) else [])) + " }"
        if k == "plit" and p["e"]["t"] == "bool":
            return p["e"]["v"]
        raise Unsupported(f"pattern {k} on {T}")

    def block(self, b, env, fr, k):
        return self.stmts(b["stmts"], 0, dict(env), fr, k)

    def stmts(self, ss, i, env, fr, k):
        if i == len(ss):
            return k(Val("()", UNIT))
        s = ss[i]
        rest = lambda *_: self.stmts(ss, i + 1, env, fr, k)
        if s["k"] == "sitem":
            it = s["item"]
            if it["k"] == "fn":
                env["fn " + it["sig"]["name"]] = (it, env["$sub"])
            elif it["k"] not in ("use", "skip"):
                raise Unsupported(f"local item {it['k']}")
            return rest()
        if s["k"] == "let":
            if s["init"] is None:
                raise Unsupported("let without init")
            if s.get("els"):
                m = {"e": s["init"], "arms": [{"pat": s["pat"], "guard": None, "body": {"k": "block", "stmts": ss[i + 1:], "line": 0}}, {"pat": {"k": "pwild"}, "guard": None, "body": s["els"]}]}
                if not has_exit(s["els"]):
                    raise Unsupported("let else that does not return")
                return self.ev_match(m, env, fr, k)
            want = self.ty(s["ty"], env["$sub"]) if s["ty"] and s["ty"]["k"] not in ("tref", "tfn", "timpl") else None

            def got(v):
                if want is not None:
                    self.unify(self.typ(v), want)
                en = dict(env)      # names bound from here on are not seen by other continuations of the same block
                return self.bindpat(s["pat"], v, en) + self.stmts(ss, i + 1, en, fr, k)
            return self.ev(s["init"], env, fr, got)
        if s["k"] == "tail" and i + 1 == len(ss):
            return self.ev(s["e"], env, fr, k)
        return self.ev(s["e"], env, fr, lambda v: (f"{v.code};\n" if isinstance(v, Val) and v.ty == ("eff",) else "") + rest())

    def ev(self, e, env, fr, k):
        f = getattr(self, "ev_" + e["k"], None)
        if f is None:
            raise Unsupported(f"expression {e['k']}")
        return f(e, env, fr, k)

    def evs(self, es, env, fr, k):
        out = []

        def go(i):
            if i == len(es):
                return k(list(out))

            def got(v):
                out.append(v)
                r = go(i + 1)
                out.pop()
                return r
            return self.ev(es[i], env, fr, got)
        return go(0)

    def value(self, e, env, fr):
        """(code, type) as a block value (no early exit)"""
        if has_exit(e):
            raise Unsupported("early exit inside an operand")
        cell = []

        def k(v):
            if isinstance(v, RP):
                v = self.mat(v)
            cell.append(v)
            return self.cd(v)
        t = self.ev(e, env, fr, k)
        ty = next((self.typ(v) for v in cell if self.typ(v) is not None), None)
        return t, ty, cell

    def ev_lit(self, e, env, fr, k):
        t = e["t"]
        if t == "bool":
            return k(Val(e["v"], BOOL))
        if t == "int":
            return k(Val(e["v"], USIZE))
        if t == "str":
            return k(Val("()", STR))
        raise Unsupported(f"literal {t}")

    def ev_block(self, e, env, fr, k):
        return self.block(e, env, fr, k)

    def ev_closure(self, e, env, fr, k):
        return k(Clo(e["params"], e["body"], dict(env)))

    def ev_tuple(self, e, env, fr, k):
        if not e["es"]:
            return k(Val("()", UNIT))
        return self.evs(e["es"], env, fr, lambda vs: k(TupV([self.mat(v) if isinstance(v, RP) else v for v in vs]) if not any(isinstance(v, (Clo, PV, ParseFn, FnP)) for v in vs) else TupV(vs)))

    def ev_array(self, e, env, fr, k):
        if not e["es"]:
            return k(Val("Vec::new()", ("Vec", None)))
        return self.evs(e["es"], env, fr, lambda vs: k(Arr(vs)))

    def ev_ref(self, e, env, fr, k):
        return self.ev(e["e"], env, fr, k)

    def ev_unary(self, e, env, fr, k):
        if e["op"] == "*":
            return self.ev(e["e"], env, fr, k)
        if e["op"] == "!":
            return self.ev(e["e"], env, fr, lambda v: k(Val(f"(!{self.cd(v)})", BOOL)))
        raise Unsupported(f"unary {e['op']}")

    def ev_cast(self, e, env, fr, k):
        return self.ev(e["e"], env, fr, k)

    def ev_binary(self, e, env, fr, k):
        op = e["op"]
        if op in ("&&", "||"):
            def got(a):
                c, _, _ = self.value(e["b"], env, fr)
                c = c if "\n" not in c and not c.startswith("let ") else "{ " + c + " }"
                return k(Val(f"({self.cd(a)} {op} {c})", BOOL))
            return self.ev(e["a"], env, fr, got)
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-"):
            def got(vs):
                a, b = vs
                ta, tb = self.typ(a), self.typ(b)
                if op in ("==", "!=") and (ta == Opt(TOK) or tb == Opt(TOK)):
                    return k(Val(("!" if op == "!=" else "") + f"eq_ot({self.aref(a)}, {self.aref(b)})", BOOL))
                if not (ta in (SEL, IN, USIZE, LOC, BOOL) and tb in (SEL, IN, USIZE, LOC, BOOL)):
                    raise Unsupported(f"comparison of {ta} and {tb}")
                if op in "+-":
                    raise Unsupported("arithmetic")
                d = lambda v: ("*" + v.code) if v.ref else v.code
                return k(Val(f"({d(a)} {op} {d(b)})", BOOL))
            return self.evs([e["a"], e["b"]], env, fr, got)
        raise Unsupported(f"operator {op}")

    def ev_assign(self, e, env, fr, k):
        def got(v):
            tgt = self.place(e["a"], env)
            if tgt is None:
                raise Unsupported("assignment target")
            self.unify(tgt.ty, self.typ(v))
            n = pname(e["a"])
            if n in env and self.typ(v) == IN:
                env[n] = Val(tgt.code, tgt.ty, tgt.ref, advof(v), mut=True)
            return f"{tgt.code} = {self.cd(v)};\n" + k(Val("()", UNIT))
        return self.ev(e["b"], env, fr, got)

    def place(self, e, env):
        n = pname(e)
        if n in env and isinstance(env[n], Val) and env[n].mut:
            return env[n]
        if e["k"] == "field":
            b = self.place(e["e"], env)
            if b is None:
                return None
            T = self.deep(b.ty)
            if T and T[0] == "adt" and None in self.fields(T):
                self.use("concrete", T)
                for f in self.fields(T)[None]:
                    if f[0] == e["name"]:
                        return Val(f"{b.code}.{f[2]}", f[1], mut=True)
        return None

    def ev_field(self, e, env, fr, k):
        def got(v):
            n = e["name"]
            if isinstance(v, TupV):
                return k(v.vs[int(n)])
            if isinstance(v, SStruct):
                return k(v.fields[n])
            T = self.typ(v)
            v, T = self.unbox(v, T)
            if T == ARENA:
                return k(v)
            if T and T[0] == "Tup":
                return k(self.proj(v, int(n)))
            if T == TOK:
                return k(Val(f"{v.code}.{n}", {"selmaho": SEL, "experimental": BOOL, "span": SPAN}[n]))
            if T == SPAN:
                return k(Val(f"{v.code}.{n}", LOC))
            if T == WL:
                return k(Val(f"{v.code}.{n}", {"location": IN, "error": ER}[n]))
            if T and T[0] == "adt":
                self.use("concrete", T)
                self.tt(T)
                fs = self.fields(T)
                for f in fs.get(None, []):
                    if f[0] == n:
                        return k(Val(f"{v.code}.{f[2]}", f[1]))
            raise Unsupported(f"field {n} of {T}")
        return self.ev(e["e"], env, fr, got)

    def unbox(self, v, T):
        while T and T[0] == "Box":
            T = self.deep(T[1])
            v = Val(f"(&**{v.code})" if v.ref else f"(*{v.code})", T, v.ref)
        return v, T

    def ev_return(self, e, env, fr, k):
        if e["e"] is None:
            return fr.ret(Val("()", UNIT))
        return self.ev(e["e"], env, fr, fr.ret)

    def ev_try(self, e, env, fr, k):
        def got(v):
            return self.consume(v, lambda j, x: k(TupV([j, x])), lambda er: fr.ret(RErr(er)))
        return self.ev(e["e"], env, fr, got)

    def ev_if(self, e, env, fr, k):
        c = e["c"]
        if c["k"] == "letcond":
            return self.ev_match({"e": c["e"], "arms": [{"pat": c["pat"], "guard": None, "body": e["t"]}, {"pat": {"k": "pwild"}, "guard": None, "body": e["e"] or {"k": "tuple", "es": []}}]}, env, fr, k)

        def got(v):
            if v.code == "true":
                return self.ev(e["t"], env, fr, k)
            if v.code == "false":
                return self.ev(e["e"], env, fr, k) if e["e"] else k(Val("()", UNIT))
            if has_exit(e["t"]) or (e["e"] and has_exit(e["e"])) or fr.tail(k):
                el = self.ev(e["e"], env, fr, k) if e["e"] else k(Val("()", UNIT))
                return f"if {v.code} {{\n{self.ev(e['t'], env, fr, k)}\n}} else {{\n{el}\n}}"
            a, ta, ca = self.value(e["t"], env, fr)
            if not e["e"]:
                return f"if {v.code} {{\n{a};\n}}\n" + k(Val("()", UNIT))
            b, tb, cb = self.value(e["e"], env, fr)
            self.unify(ta, tb)
            x = self.fresh("c")
            adv = all(advof(w) for w in ca + cb)
            t = self.join(ta, tb)
            return f"let {x} = if {v.code} {{\n{a}\n}} else {{\n{b}\n}};\n" + k(Val(x, t, adv=adv))
        return self.ev(c, env, fr, got)

    def join(self, a, b):
        a, b = self.deep(a), self.deep(b)
        if a is None:
            return b
        if b is None:
            return a
        if a[0] == "Res" and b[0] == "Res":
            return ("Res", self.join(a[1], b[1]), self.join(a[2], b[2]))
        return b if a[0] == "tv" else a

    def ev_match(self, e, env, fr, k):
        exits = any(has_exit(a["body"]) for a in e["arms"])

        def got(v):
            if isinstance(v, (RP, ROk, RErr)):
                v = self.mat(v)
            T = self.typ(v)
            if T == IN and isinstance(v, Val):
                if exits or fr.tail(k):
                    return self.slice_match(e, v, env, fr, k)
                cell = []

                def kk(w):
                    if isinstance(w, RP):
                        w = self.mat(w)
                    cell.append(w)
                    return self.cd(w)
                c = self.slice_match(e, v, env, fr, kk)
                ty = None
                for w in cell:
                    ty = self.join(ty, self.typ(w))
                x = self.fresh("c")
                return f"let {x} = {{\n{c}\n}};\n" + k(Val(x, ty, adv=all(advof(w) for w in cell)))
            if isinstance(v, TupV):
                scr, ref = self.cd(v), False
            elif isinstance(v, Val):
                v, T = self.unbox(v, T)
                ref = v.ref or (self.mode == "ref" and T is not None and T[0] in ("adt", "Opt", "Tup"))
                if not v.ref and T and T[0] == "Opt" and re.search(r"\(|^None$", v.code):
                    ref = False    # a computed Option
                scr = self.aref(v) if ref else v.code
            else:
                raise Unsupported("match on a function value")
            arms, ty, adv = [], None, True
            for a in e["arms"]:
                en = dict(env)
                self.padv = advof(v)
                p = self.rpat(a["pat"], T, en, ref)
                self.padv = None
                if a["guard"] is not None:
                    g, _, _ = self.value(a["guard"], en, fr)
                    p += f" if {g}"
                if exits or fr.tail(k):
                    arms.append((p, self.ev(a["body"], en, fr, k)))
                else:
                    c, t, cell = self.value(a["body"], en, fr)
                    ty = self.join(ty, t)
                    arms.append((p, c))
                    adv = adv and all(advof(w) for w in cell)
            s = f"match {scr} {{\n" + "".join(f"{p} => {{\n{c}\n}}\n" for p, c in arms) + "}"
            if exits or fr.tail(k):
                return s
            if ty == UNIT or ty == ("eff",):
                return s + "\n" + k(Val("()", UNIT))
            x = self.fresh("c")
            return f"let {x} = {s};\n" + k(Val(x, ty, adv=adv))
        return self.ev(e["e"], env, fr, got)

    def slice_match(self, e, v, env, fr, k):
        """match on the tokens ahead by slice patterns, as a chain of tests of how many there are"""
        fresh = lambda x: self.fresh(x)
        def pat(p, code, T, en):
            if p["k"] == "pwild":
                return
            while p["k"] == "pref":
                p = p["p"]
            if p["k"] != "pident" or p["sub"] or p["mutable"]:
                raise Unsupported("slice pattern element")
            en[p["name"]] = Val(code, T)

        def arm(i, at, adv):
            if i == len(e["arms"]):
                raise Unsupported("slice patterns that may not be exhaustive")
            a = e["arms"][i]
            if a["guard"] is not None:
                raise Unsupported("guard on a slice pattern")
            p, en = a["pat"], dict(env)
            while p["k"] == "pref":
                p = p["p"]
            if p["k"] == "pwild":
                return self.ev(a["body"], en, fr, k)
            if p["k"] == "pident":
                en[p["name"]] = Val(at, IN, adv=adv)
                return self.ev(a["body"], en, fr, k)
            if p["k"] != "pslice":
                raise Unsupported("slice pattern")
            es, n, tail, pre = p["es"], 0, False, ""
            for j, x in enumerate(es):
                rest = x["k"] == "prest" or x["k"] == "pident" and x["sub"] and x["sub"]["k"] == "prest"
                if rest:
                    if j != len(es) - 1:
                        raise Unsupported("slice pattern with elements after the rest")
                    tail = True
                    if x["k"] == "pident":
                        y = fresh("sl")
                        pre += f"let {y} = ({at} + {n}) as usize;\n"
                        en[x["name"]] = Val(y, IN, adv=True if n else adv)
                else:
                    y = fresh("tk")
                    pre += f"let {y} = t[{at} + {n}];\n"
                    pat(x, y, TOK, en)
                    n += 1
            cond = f"t.len() - {at} >= {n}" if tail else f"t.len() - {at} == {n}"
            last = i + 1 == len(e["arms"])
            body = pre + self.ev(a["body"], en, fr, k)
            if last or (tail and n == 0):
                return (f"assert({cond});\n" if not (tail and n == 0) else "") + body     # the compiler has checked that nothing is left out
            return f"if {cond} {{\n{body}\n}} else {{\n{arm(i + 1, at, adv)}\n}}"
        return self.atom(v, lambda v: arm(0, v.code, v.adv), "sl")

    def for_search(self, e):
        """for x in it { if let Some(p) = E { return Some(p); } .. }  ==  if let Some(p) = it.find_map(|x| E) { return Some(p); }
        for x in it { if C { return true; } .. }  ==  if it.any(|x| C) { return true; }"""
        es, ret, kind = [], None, None
        for s in e["body"]["stmts"]:
            x = s.get("e") if s["k"] in ("tail", "semi") else None
            if not x or x["k"] != "if" or x["e"] or len(x["t"]["stmts"]) != 1:
                return None
            r = x["t"]["stmts"][0].get("e")
            if not r or r["k"] != "return" or not r["e"]:
                return None
            if x["c"]["k"] == "letcond":
                p = x["c"]["pat"]
                if p["k"] != "pts" or p["path"][-1]["id"] != "Some" or p["es"][0]["k"] != "pident":
                    return None
                y = p["es"][0]["name"]
                if not (r["e"]["k"] == "call" and pname(r["e"]["f"]) == "Some" and pname(r["e"]["args"][0]) == y):
                    return None
                c, kd = x["c"]["e"], "find_map"
            else:
                if r["e"]["k"] != "lit" or r["e"]["v"] not in (True, "true"):
                    return None
                c, kd = x["c"], "any"
            if kind not in (None, kd) or has_exit(c):
                return None
            kind, ret = kd, x
            es.append(c)
        if not es:
            return None
        body = es[0]
        for c in es[1:]:
            body = {"k": "binary", "op": "||", "a": body, "b": c} if kind == "any" else {"k": "mcall", "recv": body, "name": "or_else", "args": [{"k": "closure", "params": [], "body": c}], "targs": None}
        call = {"k": "mcall", "recv": e["e"], "name": kind, "args": [{"k": "closure", "params": [e["pat"]], "body": body}], "targs": None}
        if not (e["e"]["k"] == "mcall" and e["e"]["name"] in ("iter", "rev")):
            call["recv"] = {"k": "mcall", "recv": e["e"], "name": "iter", "args": [], "targs": None}
        return {"k": "if", "c": {"k": "letcond", "pat": ret["c"]["pat"], "e": call} if kind == "find_map" else call, "t": ret["t"], "e": None}

    def ev_for(self, e, env, fr, k):
        d = self.for_search(e)
        if d:
            return self.ev(d, env, fr, k)
        if has_exit(e["body"]) or any(n.get("k") in ("break", "continue", "assign", "assignop") for n in walk(e["body"])):
            raise Unsupported("for loop with exits or state")

        def got(v):
            if isinstance(v, Val):
                v = Iter(v, False)
            if not isinstance(v, Iter):
                raise Unsupported("for loop")
            return self.loop("for", v, Clo([e["pat"]], e["body"], env), env, k)
        return self.ev(e["e"], env, fr, got)

    def ev_struct(self, e, env, fr, k):
        segs = [s["id"] for s in e["path"]]
        if e["rest"]:
            raise Unsupported("struct update")

        def got(vs):
            d = {f["name"]: v for f, v in zip(e["fields"], vs)}
            sub = env["$sub"]
            head = segs[0] if segs[0] != "Self" else None
            T = sub.get("Self") if head is None else None
            if (T == WL) or segs[-1] == "WithLocation":
                return k(Val(f"WL {{ location: {self.cd(d['location'])}, error: {self.cd(d['error'])} }}", WL))
            if segs[-1] == "ExpectedGot":
                return k(Val(f"Er::ExpectedGot {{ got: {self.cd(d['got'])} }}", ER))
            T, v = self.ctor_type(e["path"], env)
            return k(self.construct(T, v, d))
        return self.evs([f["e"] for f in e["fields"]], env, fr, got)

    def ctor_type(self, path, env):
        segs = [s["id"] for s in path]
        sub = env["$sub"]
        if segs[0] == "Self":
            T, rest = sub["Self"], segs[1:]
        else:
            n = self.ren.get(segs[-1], segs[-1])
            if n in self.adts and self.adts[n]["k"] == "struct":
                a = path[-1]["args"]
                rest = []
            else:
                n = self.ren.get(segs[-2], segs[-2]) if len(segs) > 1 else n
                a = path[-2]["args"] if len(segs) > 1 else None
                rest = segs[-1:]
            if n not in self.adts:
                raise Unsupported(f"constructor {segs}")
            ps = [p for p in self.adts[n]["generics"]["params"] if p["k"] == "type"]
            args = [self.ty(x, sub) for x in (a or []) if x["k"] != "lt"]
            if len(args) != len(ps):
                raise Unsupported(f"type arguments of {n} unknown")
            T = ("adt", n, tuple(args))
        return T, (rest[0] if rest else None)

    def construct(self, T, v, d):
        if T[0] != "adt":
            raise Unsupported(f"constructor of {T}")
        fs = self.fields(T)
        if v not in fs:
            raise Unsupported(f"variant {v}")
        self.use("concrete", T)
        N = self.tt(T)
        out = []
        for n, ft, vn in fs[v]:
            if n not in d:
                raise Unsupported("missing field")
            self.unify(self.typ(d[n]), ft)
            out.append(f"{vn}: {self.cd(d[n])}")
        return Val(f"{N}{'::' + v if v else ''} {{ {', '.join(out)} }}", T)

    # ---- paths and calls ------------------------------------------------------------------------
    NOM = {"nom::combinator::map": "map", "nom::sequence::tuple": "tuple", "nom::branch::alt": "alt", "nom::combinator::opt": "opt", "nom::combinator::not": "not",
           "nom::combinator::cut": "cut", "nom::multi::many0": "many0", "nom::multi::many1": "many1", "nom::multi::many_till": "many_till", "nom::combinator::all_consuming": "all_consuming",
           "nom::Parser::parse": "Parser::parse", "nom::Finish::finish": "finish", "nom::Err::Error": "NError", "nom::Err::Failure": "NFailure",
           "nom::InputLength::input_len": "input_len", "std::cmp::max_by_key": "max_by_key", "std::cmp::min_by_key": "min_by_key"}

    def ev_path(self, e, env, fr, k):
        n = pname(e)
        if n and n in env:
            return k(env[n])
        segs = e["path"]
        ids = [s["id"] for s in segs]
        sub = env["$sub"]
        key = (env["$inst"], id(e))
        if n == "None":
            return k(Val("None", Opt(None)))
        if n in self.NOM:
            return k(Std(self.NOM[n]))
        if n and "panicking" in n:
            return k(Std("panic"))
        if n and len(ids) >= 2 and ids[-2] == "Selmaho" and ids[-1] in self.seln:
            return k(Val(f"{self.seln[ids[-1]]}u32", SEL))
        if n and len(ids) >= 2 and ids[-2] == "ErrorKind":
            return k(Val("()", EXP))
        if n and len(ids) >= 2 and ids[-2] == "Error" and ids[-1] in ("PostConditionFailed", "Nom", "ZoQuoteEof", "Empty"):
            if ids[-1] == "ZoQuoteEof":
                return k(Val("Er::ZoQuoteEof", ER))
            return k(Std("er:" + ids[-1]))
        if n in ("PhantomData", "std::marker::PhantomData"):
            return k(Val("()", EXP))
        if n and len(ids) == 1 and "fn " + n in env:
            it, s2 = env["fn " + n]
            ps = [p["name"] for p in it["sig"]["generics"]["params"] if p["k"] == "type"]
            targs = [self.ty(a, sub) for a in (segs[-1]["args"] or []) if a["k"] != "lt"]
            return k(FnP(it, {**s2, **dict(zip(ps, targs))}, key))
        # <T as Trait>::f, <T>::f
        if e["qself"]:
            T = self.ty(e["qself"]["ty"], sub)
            return k(self.assoc(T, ids[-1], key, "Parse" if "Parse" in ids else "TreeNode" if "TreeNode" in ids else "TreeNodeChild" if "TreeNodeChild" in ids else None))
        if len(ids) >= 2:
            # Trait::method or Type::method
            tr = ids[-2]
            if tr == "Parse" and ids[-1] == "parse":
                return k(ParseFn(("tv", key), key))
            if tr in ("TreeNode", "TreeNodeChild"):
                return k(Std(f"tree:{tr}:{ids[-1]}"))
            if tr == "Self" and sub.get("Self") and sub["Self"][0] == "adt" and ids[-1] in self.fields(sub["Self"]):
                return k(Std(("ctor", sub["Self"], ids[-1])))
            try:
                T = self.ty({"k": "tpath", "qself": None, "path": segs[:-1]}, sub)
            except Unsupported:
                T = None
            if T is not None:
                if T[0] == "adt" and ids[-1] in self.fields(T) and self.adts[T[1]]["k"] == "enum":
                    return k(Std(("ctor", T, ids[-1])))
                return k(self.assoc(T, ids[-1], key, None))
        if n == "Self":
            return k(Std(("ctor", sub["Self"], None)))
        if n in ("Some", "Ok", "Err"):
            return k(Std(n))
        if ids[-1] in self.fns:
            it = self.fns[ids[-1]]
            ps = [p["name"] for p in it["sig"]["generics"]["params"] if p["k"] == "type"]
            targs = [self.ty(a, sub) for a in (segs[-1]["args"] or []) if a["k"] != "lt"]
            if targs and len(targs) != len(ps):
                raise Unsupported("type arguments")
            s2 = dict(zip(ps, targs)) if targs else {p: ("tv", (key, p)) for p in ps}
            return k(FnP(it, s2, key))
        nn = self.ren.get(ids[-1], ids[-1])
        if nn in self.adts:
            T, v = self.ctor_type(segs, env)
            return k(Std(("ctor", T, v)))
        raise Unsupported(f"path {'::'.join(ids)}")

    def assoc(self, T, name, key, tr):
        T = self.deep(T)
        if T is None or T[0] == "tv":
            raise Unsupported(f"{name} of an unknown type")
        if name == "parse" and tr in (None, "Parse") and (T == TOK or self.find_impl("Parse", T)):
            return ParseFn(T, key)
        if name in TREE and tr in (None, "TreeNode", "TreeNodeChild"):
            return Std(("treeof", T, name, tr))
        if name == "try_from":
            return Std(("try_from", T, key))
        for head, _, it in self.inherent.get(T[1] if T[0] == "adt" else T[0], []):
            m = self.method_of(it, name)
            s2 = {}
            if m and self.match_head(head, T, s2):
                s2["Self"] = T
                return FnP(m, s2, key)
        raise Unsupported(f"{mangle(T)}::{name}")

    def ev_call(self, e, env, fr, k):
        return self.ev(e["f"], env, fr, lambda f: self.evs(e["args"], env, fr, lambda vs: self.apply(f, vs, k, fr)))

    def apply(self, f, args, k, fr=None):
        if isinstance(f, ParseFn):
            return k(RP(f, args[0]))
        if isinstance(f, PV):
            return k(RP(f, args[0]))
        if isinstance(f, Clo):
            if has_exit(f.body):
                cell = []

                def out(v):
                    v = self.mat(v) if isinstance(v, (RP, ROk, RErr)) else v
                    cell.append(v)
                    return self.cd(v)
                code = self.call_clo(f, args, out)
                x = self.fresh("b")
                t = None
                for c in cell:
                    t = self.join(t, self.typ(c))
                return f"let {x} = {{\n{code}\n}};\n" + k(Val(x, t, adv=all(getattr(c, "adv", None) or self.cd(c).startswith("Err(") for c in cell)))
            return self.call_clo(f, args, k)
        if isinstance(f, FnP):
            r = f.it["sig"]["ret"]
            if "timpl" == (r or {}).get("k") and "FnMut" in r["toks"] and not f.it["sig"]["params"]:
                # returns a function item
                return self.call_item(f.it, f.sub, args, f.key, k)
            if f.it["sig"]["name"] == "assert_tree_node_child":
                return k(args[0])
            return self.call_item(f.it, f.sub, args, f.key, k)
        if isinstance(f, Std):
            return self.std(f.name, args, k, fr)
        if isinstance(f, Val) and f.ty == VIS:
            return self.visit(f, args[0], k)
        raise Unsupported(f"call of a {type(f).__name__}")

    def visit(self, f, x, k):
        T = self.typ(x)
        code = f"*{x.code}" if x.ref else x.code
        return f"{f.code}.visit(Ghost({self.lv(T, code)}));\n" + k(Val("()", UNIT))

    def std(self, n, a, k, fr):
        if isinstance(n, tuple):
            if n[0] == "ctor":
                fs = self.fields(n[1])
                if n[1][1] in ("PassArena",):
                    return k(SStruct(n[1][1], n[1][2], {str(i): v for i, v in enumerate(a)}))
                if n[2] not in fs or len(fs[n[2]]) != len(a):
                    raise Unsupported("constructor arity")
                return k(self.construct(n[1], n[2], {f[0]: v for f, v in zip(fs[n[2]], a)}))
            if n[0] == "treeof":
                return self.tree_call(n[2], n[1], a[0], a[1:], n[3], k)
            if n[0] == "try_from":
                v = a[0]
                want = self.typ(v)
                if want == Opt(None):
                    want = Opt(TOK)
                im = self.find_impl("TryFrom", n[1], [want])
                if not im:
                    raise Unsupported(f"TryFrom<{want}> for {n[1]}")
                return self.call_item(self.method_of(im[0], "try_from"), im[1], [v], (n[2], want), k)
        if n == "map":
            return k(PV("map", self.as_parser(a[0]), a[1]))
        if n in ("tuple", "alt"):
            if not isinstance(a[0], TupV):
                raise Unsupported(f"{n} of a computed value")
            return k(PV(n, [self.as_parser(x) for x in a[0].vs]))
        if n in ("opt", "not", "cut", "many0", "many1", "all_consuming"):
            return k(PV(n, self.as_parser(a[0])))
        if n == "many_till":
            return k(PV(n, self.as_parser(a[0]), self.as_parser(a[1])))
        if n == "Parser::parse":
            return k(RP(self.as_parser(a[0]), a[1]))
        if n == "finish":
            r = self.mat(a[0])
            x = self.fresh("fin")
            return (f"let {x} = match {r.code} {{ Ok(y) => Ok(y), Err(NErr::Error(w)) => Err(w), Err(NErr::Failure(w)) => Err(w) }};\n"
                    + k(Val(x, Res(self.typ(r)[1], WL))))
        if n == "NError":
            return k(Val(f"NErr::Error({self.cd(a[0])})", NERR))
        if n == "NFailure":
            return k(Val(f"NErr::Failure({self.cd(a[0])})", NERR))
        if n == "input_len":
            return k(Val(f"(t.len() - {self.cd(a[0])})", USIZE))
        if n.startswith("er:"):
            return k(Val(f"Er::{n[3:]}", ER))
        if n == "Some":
            v = self.mat(a[0]) if isinstance(a[0], RP) else a[0]
            return k(Val(f"Some({self.cd(v)})", Opt(self.typ(v))))
        if n == "Ok":
            return k(ROk(a[0]))
        if n == "Err":
            return k(RErr(a[0]))
        if n == "panic":
            self.use("panics", True)
            return "panics();\n" + k(Val("()", UNIT))
        if n in ("max_by_key", "min_by_key"):
            def go(ka):
                def go2(kb):
                    op = ">" if n == "max_by_key" else "<="
                    x = self.fresh("mx")
                    return f"let {x} = if {self.cd(ka)} {op} {self.cd(kb)} {{ {self.cd(a[0])} }} else {{ {self.cd(a[1])} }};\n" + k(Val(x, self.typ(a[0])))
                return self.apply(a[2], [a[1]], go2)
            return self.apply(a[2], [a[0]], go)
        if n.startswith("tree:"):
            _, tr, m = n.split(":")
            return self.tree_call(m, self.typ(a[0]), a[0], a[1:], tr, k)
        raise Unsupported(f"call of {n}")

    # ---- tree methods ------------------------------------------------------------------------------
    def tree_call(self, m, T, v, extra, tr, k):
        """T's own method m (trait tr if known) applied to v, which may have more references around it"""
        T = self.deep(T)
        vt = self.typ(v)
        while vt != T and vt and vt[0] == "Box":
            vt = self.deep(vt[1])
            v = Val(f"(&**{v.code})" if v.ref else f"(*{v.code})", vt, v.ref)
        if vt != T:
            raise Unsupported(f"{m} of {vt} where {T} is expected")
        x = f"*{v.code}" if v.ref else v.code
        if T[0] == "adt":
            node = self.is_node(T)
            if m == "invoke_with_self" and node:
                f = extra[0]
                return f"{f.code}.visit(Ghost({self.lv(T, x)}));\n" + k(Val("()", UNIT))
            if m == "name":
                return k(Val("()", STR))
            short = TREE[m]
            if (short == "fc") != node and short in ("fc", "iv"):
                raise Unsupported(f"{m} of {mangle(T)}")
            self.use("tree", (short, T))
            self.tt(T)
            if short in ("fc", "iv"):
                return f"{short}_{mangle(T)}({self.aref(v)}, {extra[0].code});\n" + k(Val("()", UNIT))
            return k(Val(f"{short}_{mangle(T)}({self.aref(v)})", BOOL if short == "ex" else Opt(LOC)))
        for t in ([tr] if tr else ["TreeNodeChild", "TreeNode"]):
            im = self.find_impl(t, T)
            if im:
                f = self.method_of(im[0], m)
                if f:
                    return self.atom_ref(v, lambda w: self.call_item(f, im[1], [w] + extra, ("tree", m, T), k))
        raise Unsupported(f"{m} of {T}")

    def atom_ref(self, v, k):
        if v.ref and not re.fullmatch(r"[A-Za-z_][\w.]*", v.code):
            x = self.fresh("s")
            return "{ " + f"let {x} = {v.code};\n" + k(Val(x, v.ty, True)) + " }" if False else k(v)
        return k(v)

    def loop(self, kind, it, clo, env, k):
        """any / find_map / for over a list, as a function of its own"""
        v = it.v
        if isinstance(v, Arr):
            raise Unsupported("loop over an array")
        T = self.typ(v)
        v, T = self.unbox(v, T)
        goal = self.goal
        if T[0] == "Opt":
            # at most one element
            x = self.fresh("x")
            el = Val(x, T[1], True)
            out = []

            def kk(w):
                out.append(w)
                return self.cd(w) if kind != "for" else ""
            body = self.call_clo(clo, [el], kk)
            none = {"any": "false", "find_map": "None", "for": ""}[kind]
            s = f"match {self.aref(v)} {{ Some({x}) => {{ {body} }}, None => {{ {none} }} }}"
            if kind == "for":
                return s + "\n" + k(Val("()", UNIT))
            return k(Val(f"({s})", BOOL if kind == "any" else self.typ(out[0])))
        if T[0] != "Vec":
            raise Unsupported(f"iteration over {T}")
        idx = len(self.helpers)
        name = f"{mangle(self.owner)}_{goal}_l{idx}"
        hold = {}
        self.helpers.append(hold)
        el = Val("e", T[1], True)
        env2 = {n: w for n, w in clo.env.items() if n.startswith("$") or n.startswith("fn ")}
        for n, w in clo.env.items():
            if isinstance(w, Val) and w.ty == VIS:
                env2[n] = Val("f", VIS)
        body = self.call_clo(Clo(clo.params, clo.body, env2), [el], lambda w: self.cd(w) if kind != "for" else "")
        hold.update(dict(name=name, kind="loop:" + kind, T=T[1], rev=it.rev, goal=goal, body=body))
        self.lvs(T[1], "v@")
        if kind == "for":
            return f"{name}({self.aref(v)}, f);\n" + k(Val("()", UNIT))
        return k(Val(f"{name}({self.aref(v)})", BOOL if kind == "any" else Opt(LOC)))

    # ---- method calls -------------------------------------------------------------------------------
    def ev_assignop(self, e, env, fr, k):
        op = e["op"].rstrip("=")
        if op not in ("|", "&", "+", "-"):
            raise Unsupported(f"operator {e['op']}")

        def got(v):
            tgt = self.place(e["a"], env)
            if tgt is None:
                raise Unsupported("assignment target")
            if op in "|&" and self.typ(v) != BOOL:
                raise Unsupported(f"{e['op']} on {self.typ(v)}")
            return f"{tgt.code} = {tgt.code} {op * 2 if op in '|&' else op} {self.cd(v)};\n" + k(Val("()", UNIT))
        if op in "|&":      # both sides are evaluated
            return self.ev(e["b"], env, fr, lambda v: self.atom(v, got, "b"))
        return self.ev(e["b"], env, fr, got)

    def ev_mcall(self, e, env, fr, k):
        name = e["name"]
        a, r = e["args"], e["recv"]
        if name == "all" and a and a[0]["k"] == "closure":
            n = dict(e, name="any", args=[dict(a[0], body={"k": "unary", "op": "!", "e": a[0]["body"]})])
            return self.ev({"k": "unary", "op": "!", "e": n}, env, fr, k)
        if name == "for_each" and a and a[0]["k"] == "closure":
            b = a[0]["body"]
            if b["k"] != "block":
                b = {"k": "block", "stmts": [{"k": "semi", "e": b}], "label": None}
            return self.ev({"k": "for", "pat": a[0]["params"][0], "e": r, "body": b}, env, fr, k)
        if name == "next" and r["k"] == "mcall" and r["name"] == "filter_map":
            return self.ev(dict(r, name="find_map"), env, fr, k)

        def got(v):
            return self.evs(e["args"], env, fr, lambda a: self.method(v, name, a, k, fr, env))
        return self.ev(e["recv"], env, fr, got)

    def method(self, v, name, a, k, fr, env):
        if isinstance(v, Arr) and name == "into":
            return k(Val("()", EXP))
        if isinstance(v, (Val, TupV)) and self.typ(v) == EXP:
            return k(Val("()", EXP))
        if isinstance(v, Iter) or isinstance(v, Arr):
            if isinstance(v, Arr) and name in ("iter", "into_iter"):
                return k(Iter(v, False))
            if name == "rev":
                return k(Iter(v.v, not v.rev))
            if name in ("any", "find_map"):
                if isinstance(v.v, Arr):
                    els = list(reversed(v.v.vs)) if v.rev else v.v.vs

                    def chain(i):
                        if i == len(els):
                            return "None"
                        out = []
                        c = self.call_clo(a[0], [els[i]], lambda w: (out.append(w), self.cd(w))[1])
                        x = self.fresh("x")
                        return f"match {c} {{ Some({x}) => Some({x}), None => {{ {chain(i + 1)} }} }}"
                    if name == "any":
                        cs = [self.call_clo(a[0], [w], lambda w: self.cd(w)) for w in els]
                        return k(Val("(" + " || ".join("{ " + c + " }" if "\n" in c else c for c in cs) + ")" if cs else "false", BOOL))
                    return k(Val("(" + chain(0) + ")", Opt(LOC)))
                return self.loop(name, v, a[0], env, k)
            raise Unsupported(f"iterator method {name}")
        if name == "parse" and isinstance(v, (PV, ParseFn, Clo, SStruct)):
            return k(RP(v, a[0]))
        if isinstance(v, (RP, ROk, RErr)) and name in ("map", "map_err", "and_then", "as_ref", "is_ok", "is_err"):
            return self.res_method(v, name, a, k)
        T = self.typ(v)
        if isinstance(v, Val):
            if name in ("to_owned", "clone") and T in (TOK, SEL, SPAN, LOC):
                return k(v)
            if T == ARENA and name == "alloc":
                return k(Val(f"Box::new({self.cd(a[0])})", ("Box", self.typ(a[0]))))
            if T == ARENA and name == "alloc_slice_fill_iter":
                return k(a[0])
            if T and T[0] == "Vec" and name in ("into_iter",):
                return k(v)
            if T and T[0] == "Vec" and name in ("take", "skip") and not v.ref and len(a) == 1:
                return k(Val(f"v{name}({v.code}, {self.cd(a[0])})", T))
            if T and T[0] == "Vec" and name == "rev" and not v.ref:
                return k(Val(f"vrev({v.code})", T))
            if T and T[0] == "Vec" and name == "len":
                return k(Val(f"{v.code}.len()", USIZE))
            if T and T[0] in ("Vec", "Opt") and name == "iter":
                return k(Iter(v, False))
            if T and T[0] == "Vec" and name == "is_empty":
                return k(Val(f"({v.code}.len() == 0)", BOOL))
            if T == IN and name == "iter":
                return k(Val(v.code, TITER, adv=v.adv))
            if T == IN and name == "is_empty":
                return k(Val(f"({v.code} == t.len())", BOOL))
            if T == IN and name == "len":
                return k(Val(f"(t.len() - {v.code})", USIZE))
            if T == IN and name == "split_first":
                return self.atom(v, lambda v: k(Val(f"(if {v.code} < t.len() {{ Some((t[{v.code}], ({v.code} + 1) as usize)) }} else {{ None }})", Opt(Tup(TOK, IN)), adv=True)), "sl")
            if T == IN and name == "as_ptr":
                return k(Val(v.code, USIZE))
            if T == USIZE and name == "cmp" and len(a) == 1:
                x = self.fresh("o")
                return f"let {x} = cmp3({v.code}, {self.cd(a[0])});\n" + k(Val(x, ORD))
            if T == ORD and name in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
                return k(Val({"is_lt": "matches!({}, Ord3::Less)", "is_ge": "!matches!({}, Ord3::Less)", "is_gt": "matches!({}, Ord3::Greater)",
                              "is_le": "!matches!({}, Ord3::Greater)", "is_eq": "matches!({}, Ord3::Equal)", "is_ne": "!matches!({}, Ord3::Equal)"}[name].format(v.code), BOOL))
            if T == IN and name == "first":
                return k(Val(f"(if {v.code} < t.len() {{ Some(t[{v.code}]) }} else {{ None }})", Opt(TOK)))
            if T == TITER and name == "next" and v.mut:
                x = self.fresh("nx")
                return (f"let {x} = if {v.code} < t.len() {{ let q = t[{v.code}]; {v.code} = {v.code} + 1; Some(q) }} else {{ None }};\n" + k(Val(x, Opt(TOK))))
            if T == TITER and name == "as_slice":
                x = self.fresh("sl")
                return f"let {x} = {v.code};\n" + k(Val(x, IN, adv=self.iter_adv(v)))
            if T == ER and name == "with_location":
                for head, _, it in self.inherent.get("Er", []):
                    m = self.method_of(it, name)
                    if m:
                        return self.call_item(m, {"Self": ER}, [v] + a, ("wl",), k)
            if T and T[0] == "Opt" and name in ("copied", "cloned"):
                return k(v)
            if T and T[0] == "Opt" and name in ("is_some", "is_none") and v.code == "None":
                return k(Val("true" if name == "is_none" else "false", BOOL))
            if T and T[0] == "Opt" and name in ("is_some", "is_none"):
                return k(Val(f"{v.code}.{name}()", BOOL))
            if T and T[0] == "Opt" and name in ("map", "and_then", "ok_or", "or_else", "ok_or_else", "or"):
                return self.opt_method(v, T, name, a, k)
            if T and T[0] == "Res" and name in ("map", "map_err", "and_then", "as_ref", "map_or", "is_ok", "is_err"):
                return self.res_method(v, name, a, k)
            if name in TREE or name == "name":
                # method-call syntax: the receiver's own references are looked through once
                U = T
                if U and U[0] == "Box":
                    U = self.deep(U[1])
                return self.tree_call(name, U, v, a, None, k)
        if isinstance(v, TupV) and name in TREE:
            raise Unsupported("tree method of a tuple value")
        raise Unsupported(f"method .{name} on {T or type(v).__name__}")

    def iter_adv(self, v):
        return self.iter_next

    def jout(self, out):
        t = None
        for w in out:
            t = self.join(t, self.typ(w))
        return t

    def opt_method(self, v, T, name, a, k):
        x = self.fresh("x")
        el = Val(x, T[1], v.ref)
        if T[1] == TOK:
            el.ref = False
        scr = v.code
        out = []

        def kk(w):
            if isinstance(w, RP):
                w = self.mat(w)
            out.append(w)
            return self.cd(w)

        def finish(s, ty, adv=None):
            y = self.fresh("o")
            return f"let {y} = {s};\n" + k(Val(y, ty, adv=adv))
        if name == "map":
            b = self.apply(a[0], [el], kk)
            adv = all(isinstance(w, TupV) and getattr(w.vs[0], "adv", None) for w in out)
            return finish(f"match {scr} {{ Some({x}) => Some({{ {b} }}), None => None }}", Opt(self.jout(out)), adv)
        if name == "and_then":
            b = self.apply(a[0], [el], kk)
            return finish(f"match {scr} {{ Some({x}) => {{ {b} }}, None => None }}", self.jout(out))
        if name == "or_else":
            b = self.apply(a[0], [], kk)
            return k(Val(f"(match {scr} {{ Some({x}) => Some({x}), None => {{ {b} }} }})", T))
        if name == "or":
            return finish(f"match {scr} {{ Some({x}) => Some({x}), None => {self.cd(a[0])} }}", T)
        if name == "ok_or":
            return finish(f"match {scr} {{ Some({x}) => Ok({x}), None => Err({self.cd(a[0])}) }}", Res(T[1], self.typ(a[0])), v.adv)
        if name == "ok_or_else":
            b = self.apply(a[0], [], kk)
            return finish(f"match {scr} {{ Some({x}) => Ok({x}), None => Err({{ {b} }}) }}", Res(T[1], self.jout(out)), v.adv)
        raise Unsupported(f"Option::{name}")

    def res_method(self, v, name, a, k):
        v = self.mat(v)
        T = self.typ(v)
        x, e = self.fresh("x"), self.fresh("e")
        out = []

        def kk(w):
            if isinstance(w, (RP, ROk, RErr)):
                w = self.mat(w)
            out.append(w)
            return self.cd(w)

        def finish(s, ty, adv=None):
            y = self.fresh("o")
            return f"let {y} = {s};\n" + k(Val(y, ty, adv=adv))
        if name == "as_ref":
            return k(Val(v.code, v.ty, True, v.adv))
        if re.match(r"\{?\s*(Ok|Err)\(", v.code):      # a literal Ok/Err says only half of its type
            e_ = self.deep(T[2]) if T and T[0] == "Res" else None
            ok = self.deep(T[1]) if T and T[0] == "Res" else None
            if ok is not None and ok[0] != "tv":
                y = self.fresh("o")
                t = f"let {y}: Result<{self.tt(ok)}, {self.tt(e_ if e_ is not None and e_[0] != 'tv' else NERR)}> = {v.code};\n"
                return t + self.res_method(Val(y, T, v.ref, v.adv), name, a, k)
        if name in ("is_ok", "is_err"):
            return k(Val(f"{v.code}.{name}()", BOOL))
        el = Val(x, T[1], v.ref, v.adv)
        if name == "map":
            b = self.apply(a[0], [el], kk)
            w = out[0]
            adv = getattr(w.vs[0], "adv", None) if isinstance(w, TupV) else None
            return finish(f"match {v.code} {{ Ok({x}) => Ok({{ {b} }}), Err({e}) => Err({e}) }}", Res(self.jout(out), T[2]), adv)
        if name == "map_err":
            b = self.apply(a[0], [Val(e, T[2])], kk)
            return finish(f"match {v.code} {{ Ok({x}) => Ok({x}), Err({e}) => Err({{ {b} }}) }}", Res(T[1], self.jout(out)), v.adv)
        if name == "and_then":
            b = self.apply(a[0], [el], kk)
            return finish(f"match {v.code} {{ Ok({x}) => {{ {b} }}, Err({e}) => Err({e}) }}", self.join(self.jout(out), Res(None, T[2])))
        if name == "map_or":
            b = self.apply(a[1], [el], kk)
            return finish(f"match &{v.code} {{ Ok({x}) => {{ {b} }}, Err(_) => {self.cd(a[0])} }}" if v.ref else f"match {v.code} {{ Ok({x}) => {{ {b} }}, Err(_) => {self.cd(a[0])} }}", self.typ(a[0]))
        raise Unsupported(f"Result::{name}")

    def ev_macro(self, e, env, fr, k):
        raise Unsupported(f"macro {e['name']}!")

    # ---- whole functions -----------------------------------------------------------------------------
    def body_of(self, m, sub, T):
        """body text of T::parse with the current knowledge of types"""
        self.mode, self.goal = "own", None
        self.start = "i"
        self.iter_next = True
        self.exits = []

        def ret(v):
            v = self.mat(v)
            self.unify(v.ty, PRES(T))
            if not v.code.startswith("Err("):
                self.exits.append(bool(v.adv))
            return v.code
        return self.call_item_top(m, sub, [Val("i", IN, adv=False), Val("ARENA", ARENA)], ret)

    def call_item_top(self, m, sub, args, ret):
        params = [p["pat"] if p["k"] == "param" else {"k": "pident", "name": "self", "mutable": False, "sub": None} for p in m["sig"]["params"]]
        r = m["sig"]["ret"]
        rty = None
        try:
            rty = self.ty(r, sub) if r else None
        except Unsupported:
            pass
        c = Clo(params, m["body"], {"$sub": sub, "$inst": ("top",)}, rty)
        return self.call_clo(c, args, ret)

    def parse_fn(self, T):
        """(body, helpers, used, nullable exit) of T's parse function"""
        self.reset()
        self.owner = T
        self.calls.pop(T, None)
        im = self.find_impl("Parse", T)
        if not im:
            raise Unsupported(f"no Parse impl for {mangle(T)}")
        m = self.method_of(im[0], "parse")
        for _ in range(8):
            self.unres, self.used, self.helpers, self.n = False, {}, [], 0
            self.calls.pop(T, None)
            body = self.body_of(m, im[1], T)
            if not self.unres:
                break
        else:
            raise Unsupported("types not inferred")
        return dict(T=T, kind="parse", body=body, helpers=self.helpers, used=self.used, null=not all(self.exits))

    def tree_fn(self, T, short):
        self.reset()
        self.owner = T
        self.mode, self.goal = "ref", short
        node = self.is_node(T)
        im = self.find_impl("TreeNode" if node else "TreeNodeChild", T)
        m = self.method_of(im[0], {v: q for q, v in TREE.items()}[short])
        self.n = 0
        args = [Val("x", T, True)]
        if short in ("fc", "iv"):
            args.append(Val("f", VIS))
        body = self.call_item_top(m, im[1], args, lambda v: "" if short in ("fc", "iv") else self.cd(v))
        return dict(T=T, kind=short, body=body, helpers=self.helpers, used=self.used)


class Frame:
    def __init__(self, ret, rty):
        self.ret, self.rty = ret, rty

    def tail(self, k):
        return k is self.ret
