"""Mechanical translation of (macro-expanded) Rust functions of /repo into Verus' dialect.

This is a syntax-directed rewriting of the real function bodies, redone on every run:
 * statically known closures and combinators are beta-reduced at their application site
   (Verus has no `impl Fn` returning functions); `return`/`?` of such an inlined closure become
   the value of the inlined block (continuation-passing over statements, no reordering);
 * shared references to `Copy` values are erased; `&str` is `Str` (see prelude); `&s[a..b]` is
   `s.slice(a, b)`; std `Option` combinators are replaced by their definition (a `match`);
 * a closure body containing a loop is lifted to a function of its own (it needs a contract);
 * locals are alpha-renamed.
Anything outside this dialect raises Unsupported, never a guess.
"""
import re


def flatten(t):
    """`let x = E; x` and `{ E }` as E"""
    while True:
        t = t.strip()
        m = re.match(r"^let (\w+) = (.*);\s*\1$", t, re.S)
        if m and f"let {m[1]} " not in m[2]:
            t = m[2]
            continue
        if t.startswith("{") and t.endswith("}"):
            d = 0
            for i, c in enumerate(t):
                d += (c == "{") - (c == "}")
                if d == 0:
                    break
            if i == len(t) - 1:
                t = t[1:-1]
                continue
        n = re.sub(r"\{\s*let (\w+) = ([^;]*);\s*\1\s*\}", r"{ \2 }", t)
        if n == t:
            return t
        t = n


class Unsupported(Exception):
    pass


class Val:
    __slots__ = ("code", "ty", "lit", "mut")

    def __init__(self, code, ty=None, lit=False, mut=False):
        self.code, self.ty, self.lit, self.mut = code, ty, lit, mut

    def __repr__(self):
        return f"Val({self.code}:{self.ty})"


class Clo:
    def __init__(self, params, body, env, origin=None):
        self.params, self.body, self.env, self.origin = params, body, env, origin
        self.ty = ("fn",)


class FnRef:
    def __init__(self, name):
        self.name = name
        self.ty = ("fn",)


class Arr:
    """statically known array of dynamic values"""

    def __init__(self, vals):
        self.vals = vals
        self.ty = ("arr",)


class Var:
    """type cell of a mutable local"""

    def __init__(self, name, ty, init):
        self.name, self.ty, self.init = name, ty, init


STR, BOOL, CHAR, UNIT, USIZE = ("Str",), ("bool",), ("char",), ("unit",), ("usize",)
NEVER = ("never",)


def Opt(t):
    return ("Opt", t)


def Tup(*ts):
    return ("Tup", tuple(ts))


def pname(e):
    """last-segments name of a path expression"""
    if isinstance(e, dict) and e.get("k") == "path" and not e["qself"]:
        return "::".join(s["id"] for s in e["path"])
    return None


def walk(e):
    """all sub-nodes, not descending into closures"""
    if isinstance(e, dict):
        yield e
        for kk, v in e.items():
            if isinstance(v, (dict, list)):
                if isinstance(v, dict) and v.get("k") in ("closure", "sitem"):
                    yield v
                    continue
                yield from walk(v)
    elif isinstance(e, list):
        for v in e:
            if isinstance(v, dict) and v.get("k") in ("closure", "sitem"):
                yield v
                continue
            yield from walk(v)


def walk_all(e):
    if isinstance(e, dict):
        yield e
        for v in e.values():
            yield from walk_all(v)
    elif isinstance(e, list):
        for v in e:
            yield from walk_all(v)


def has_exit(e):
    return any(n.get("k") in ("return", "try") for n in walk(e))


def has_loop(e):
    return any(n.get("k") in ("loop", "while", "for") for n in walk(e))


class Rng:
    """a range value (bounds already evaluated)"""

    def __init__(self, a, b, incl):
        self.a, self.b, self.incl = a, b, incl

    def node(self):
        f = lambda v: None if v is None else {"k": "val", "v": v}
        return {"k": "range", "a": f(self.a), "b": f(self.b), "incl": self.incl}


class Frame:
    """native: `return` is emitted; inline: `return v` is the value of the block (ret continuation)"""

    def __init__(self, native, ret, fnret=None):
        self.native, self.ret, self.fnret = native, ret, fnret
        self.muts = []
        self.in_loop = False


class Ev:
    def __init__(self):
        self.n = 0
        self.lits = {}
        self.lifted = []
        self.inline_depth = 0
        self.cur = None
        self.cells = {}

    def finish(self, text):
        """fill in the integer types found by unification"""
        def f(m):
            t = self.cells[m[1]].ty
            if t == ("int",):
                return ""
            x = self.ty_text(t)
            return f": {x}" if x else ""
        return re.sub(r"/\*ty:(\w+)\*/", f, text)

    def unify_int(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Val) and x.ty == ("int",) and isinstance(y, Val) and y.ty and y.ty != ("int",) and x.code in self.cells:
                self.cells[x.code].ty = y.ty

    # ---- hooks for subclasses ------------------------------------------------------------
    def contract_fn(self, name):
        """(emitted name, arg types, ret type) when calls to `name` go through a contract"""
        return None

    def lookup_fn(self, name):
        return None

    def trait_method(self, name, ty):
        return None

    def method(self, v, name, args, e, env, fr, k):
        return None

    def lift(self, clo, args):
        raise Unsupported("closure with a loop")

    def loop_clauses(self, fr, kind):
        raise Unsupported("loop without a contract in this position")

    def type_of(self, t):
        raise NotImplementedError

    def path_value(self, name, e, env):
        return None

    # ---- utilities ------------------------------------------------------------------------
    def fresh(self, base="t"):
        self.n += 1
        base = re.sub(r"[^A-Za-z0-9_]", "", base).strip("_") or "v"
        return f"{base}_{self.n}"

    def strlit(self, v):
        if v not in self.lits:
            self.lits[v] = f"lit_{len(self.lits)}"
        return Val(f"{self.lits[v]}()", STR, True)

    def bind(self, code, ty, k, base="t"):
        t = self.fresh(base)
        return f"let {t} = {code};\n" + k(Val(t, ty))

    def is_atom(self, code):
        return re.fullmatch(r"[A-Za-z_][A-Za-z_0-9.]*|\d+[a-z0-9]*", code) is not None

    def atomize(self, v, k, base="t"):
        if isinstance(v, Val) and not self.is_atom(v.code) and not v.lit:
            return self.bind(v.code, v.ty, k, base)
        return k(v)

    # ---- patterns ---------------------------------------------------------------------------
    def pat(self, p, ty, env, fr=None, init=None):
        """-> pattern text; extends env in place"""
        k = p["k"]
        if k == "pident":
            if p["sub"]:
                raise Unsupported("binding @ pattern")
            nm = p["name"]
            if nm == "None" or (nm[0].isupper()):
                return nm
            v = self.fresh(nm)
            cell = Val(v, ty)
            env[nm] = cell
            if p["mutable"]:
                cell.mut = True
                var = Var(v, ty, init)
                if fr is not None:
                    fr.muts.append((var, cell))
                if ty == ("int",) or ty == Opt(None):
                    self.cells[v] = cell
                    return f"mut {v}/*ty:{v}*/"
                return f"mut {v}"
            return v
        if k == "pwild":
            return "_"
        if k == "prest":
            return ".."
        if k == "ptuple":
            ts = ty[1] if ty and ty[0] == "Tup" else [None] * len(p["es"])
            return "(" + ", ".join(self.pat(x, t, env, fr) for x, t in zip(p["es"], ts)) + ("," if len(p["es"]) == 1 and p["es"][0]["k"] != "prest" else "") + ")"
        if k == "pts":
            nm = "::".join(s["id"] for s in p["path"])
            last = nm.split("::")[-1]
            if last == "Some":
                return f"Some({self.pat(p['es'][0], ty[1] if ty and ty[0] == 'Opt' else None, env, fr)})"
            if last in ("Ok", "Err") and len(p["es"]) == 1:
                t = None
                if ty and ty[0] == "Res":
                    t = ty[1] if last == "Ok" else ty[2]
                return f"{last}({self.pat(p['es'][0], t, env, fr)})"
            return self.pat_ctor(p, ty, env, fr)
        if k == "pref":
            return self.pat(p["p"], ty, env, fr)
        if k == "plit":
            v = self.lit(p["e"], ty)
            return v.code
        if k == "por":
            return " | ".join(self.pat(x, ty, env, fr) for x in p["es"])
        if k == "ptype":
            return self.pat(p["p"], self.type_of(p["ty"]), env, fr)
        if k == "prange":
            if p["lo"] is None or p["hi"] is None:
                raise Unsupported("half-open range pattern")
            return f"{self.lit(p['lo'], ty).code}..{'=' if p['incl'] else ''}{self.lit(p['hi'], ty).code}"
        if k in ("ppath", "pstruct"):
            return self.pat_ctor(p, ty, env, fr)
        raise Unsupported(f"pattern {k} {p}")

    def pat_ctor(self, p, ty, env, fr):
        raise Unsupported(f"pattern {p}")

    # ---- literals ---------------------------------------------------------------------------
    def lit(self, e, ty=None):
        if e["k"] != "lit":
            if e["k"] == "unary" and e["op"] == "-":
                v = self.lit(e["e"], ty)
                return Val("-" + v.code, v.ty, True)
            raise Unsupported("non-literal in literal position")
        t, v = e["t"], e["v"]
        if t == "str":
            return self.strlit(v)
        if t == "char":
            from .peg import chlit
            return Val(chlit(v), CHAR, True)
        if t == "int":
            if e.get("suffix"):
                return Val(v + e["suffix"], (e["suffix"],), True)
            if ty and ty[0] in ("usize", "u32", "u8", "u64", "i32", "isize"):
                return Val(v + ty[0], ty, True)
            return Val(v, ("int",), True)
        if t == "bool":
            return Val(v, BOOL, True)
        if t == "byte":
            return Val(v + "u8", ("u8",), True)
        raise Unsupported(f"literal {t}")

    # ---- blocks -----------------------------------------------------------------------------
    def dropped_stmt(self, e):
        """statements the extraction drops: log output and the debug nesting counter"""
        if e["k"] == "mcall" and e["name"] == "with" and pname(e["recv"]) and pname(e["recv"]).split("::")[-1] == "PARSER_LEVEL":
            return True
        if e["k"] in ("block", "if") and any(pname(n) and "__private_api" in pname(n) for n in walk_all(e)) and self._only_log(e):
            return True
        return False

    def _only_log(self, e):
        # { let lvl = ..; if lvl <= .. && lvl <= .. { ::log::__private_api_log(..); } }
        for n in walk(e):
            if n.get("k") in ("assign", "assignop", "return", "try", "break", "continue", "loop", "while", "for", "closure"):
                return False
            if n.get("k") == "call":
                f = pname(n["f"]) or ""
                if not ("log::" in f or f.endswith("max_level") or "fmt" in f or "Argument" in f):
                    return False
            if n.get("k") == "mcall" and n["name"] not in ("len", "is_some", "as_str", "clone"):
                return False
        return True

    def block(self, b, env, fr, k):
        env = dict(env)
        return self.stmts(b["stmts"], 0, env, fr, k)

    def stmts(self, ss, i, env, fr, k):
        if i == len(ss):
            return k(Val("()", UNIT))
        s = ss[i]
        rest = lambda *_: self.stmts(ss, i + 1, env, fr, k)
        if s["k"] == "tail":
            if self.dropped_stmt(s["e"]):
                return rest()
            if i + 1 == len(ss):
                return self.ev(s["e"], env, fr, k)
            # expression statement without semicolon (if/match/block/loop)
            return self.stmt_expr(s["e"], env, fr, rest)
        if s["k"] == "semi":
            if self.dropped_stmt(s["e"]):
                return rest()
            return self.stmt_expr(s["e"], env, fr, rest)
        if s["k"] == "let":
            outer = env
            env = dict(outer)       # names bound from here on are not seen by other continuations of the same block
            rest = lambda *_: self.stmts(ss, i + 1, env, fr, k)
            if s["init"] is None:
                ty = self.type_of(s["ty"]) if s["ty"] else None
                p = self.pat(s["pat"], ty, env, fr)
                t = self.ty_text(ty)
                return f"let {p}{': ' + t if t else ''};\n" + rest()
            want = self.type_of(s["ty"]) if s["ty"] else None

            def got(v):
                env = dict(outer)
                rest = lambda *_: self.stmts(ss, i + 1, env, fr, k)
                if not isinstance(v, Val):
                    if s["pat"]["k"] != "pident":
                        raise Unsupported("pattern on static value")
                    env[s["pat"]["name"]] = v
                    return rest()
                if v.ty == NEVER:
                    return v.code
                if s["pat"]["k"] == "pwild":
                    return (f"let _ = {v.code};\n" if not self.is_atom(v.code) and not v.lit else "") + rest()
                ty = want or v.ty
                code = v.code
                if s.get("els"):
                    en = dict(env)
                    p = self.pat(s["pat"], ty, env, fr, init=v)
                    els = self.ev(s["els"], en, fr, lambda w: self.code(w) if w.ty == NEVER else "")
                    return f"match {code} {{\n{p} => {{\n{rest()}\n}}\n_ => {{\n{els}\n}}\n}}"
                if v.lit and want and re.fullmatch(r"\d+", code):
                    code += want[0]
                p = self.pat(s["pat"], ty, env, fr, init=v)
                return f"let {p} = {code};\n" + rest()
            return self.ev(s["init"], outer, fr, got, want)
        if s["k"] == "sitem":
            it = s["item"]
            if it["k"] in ("use", "skip", "const", "fn", "struct", "enum", "impl"):
                self.local_item(it, env)
                return rest()
            raise Unsupported(f"local item {it['k']}")
        raise Unsupported(s["k"])

    def local_item(self, it, env):
        if it["k"] in ("use", "skip"):
            return
        raise Unsupported(f"local item {it['k']}")

    def stmt_expr(self, e, env, fr, rest):
        def got(v):
            if isinstance(v, Val) and v.ty != UNIT and not self.is_atom(v.code) and not v.lit:
                return f"let _ = {v.code};\n" + rest()
            return rest()
        return self.ev(e, env, fr, got)

    def value_text(self, e, env, fr, want=None):
        """(text, type) of e evaluated as a block value in frame fr (no early exits allowed unless native)"""
        cell = []

        def k(v):
            if not isinstance(v, Val):
                raise Unsupported("static value escapes")
            if v.ty != NEVER:
                cell.append(v.ty)
            return v.code if v.ty != NEVER else v.code
        text = self.ev(e, env, fr, k, want)
        ty = next((t for t in cell if t is not None and t != Opt(None)), cell[0] if cell else NEVER)
        return text, ty

    # ---- expressions ------------------------------------------------------------------------
    def evs(self, es, env, fr, k, tys=None):
        out = []

        def go(i):
            if i == len(es):
                return k(out)

            def got(v):
                # a bare mutable variable or an unhoisted expression may be changed by later args
                if isinstance(v, Val) and not v.lit and i + 1 < len(es) and not all(self.simple(x) for x in es[i + 1:]):
                    return self.bind(v.code, v.ty, lambda w: (out.append(w), go(i + 1))[1])
                out.append(v)
                return go(i + 1)
            return self.ev(es[i], env, fr, got, tys[i] if tys else None)
        return go(0)

    def simple(self, e):
        return not any(n.get("k") in ("call", "mcall", "try", "if", "match", "block", "assign", "assignop", "return", "loop", "while", "for", "unsafe", "macro") for n in walk(e))

    def ev(self, e, env, fr, k, want=None):
        f = getattr(self, "ev_" + e["k"], None)
        if f is None:
            raise Unsupported(f"expression {e['k']}: {str(e)[:200]}")
        return f(e, env, fr, k, want)

    def ev_val(self, e, env, fr, k, want):
        return k(e["v"])

    def ev_range(self, e, env, fr, k, want):
        def one(x, k):
            return k(None) if x is None else self.ev(x, env, fr, lambda v: self.atomize(v, k), USIZE)
        return one(e["a"], lambda a: one(e["b"], lambda b: k(Rng(a, b, e["incl"]))))

    def as_range(self, e, env):
        """the syntax of a range, also behind a name"""
        while e["k"] in ("ref", "paren"):
            e = e["e"]
        if e["k"] == "range":
            return e
        if e["k"] == "mcall" and e["name"] == "clone":
            return self.as_range(e["recv"], env)
        if e["k"] == "path" and isinstance(env.get(pname(e)), Rng):
            return env[pname(e)].node()
        return None

    def ev_lit(self, e, env, fr, k, want):
        return k(self.lit(e, want))

    def ev_path(self, e, env, fr, k, want):
        n = pname(e)
        if n in env:
            return k(env[n])
        v = self.path_value(n, e, env)
        if v is not None:
            return k(v)
        if n in ("None", "Option::None"):
            return k(Val("None", want or Opt(None)))
        if n and (self.contract_fn(n) or self.lookup_fn(n)):
            return k(FnRef(n))
        raise Unsupported(f"path {n or e}")

    def ev_closure(self, e, env, fr, k, want):
        return k(Clo(e["params"], e["body"], dict(env)))

    def ev_block(self, e, env, fr, k, want):
        if e.get("label"):
            raise Unsupported("labelled block")
        return self.block(e, env, fr, k)

    def ev_tuple(self, e, env, fr, k, want):
        if not e["es"]:
            return k(Val("()", UNIT))
        tys = want[1] if want and want[0] == "Tup" else None
        return self.evs(e["es"], env, fr, lambda vs: k(Val("(" + ", ".join(self.code(v) for v in vs) + ")", Tup(*[v.ty for v in vs]))), tys)

    def code(self, v):
        if not isinstance(v, Val):
            raise Unsupported("function value used dynamically")
        return v.code

    def ev_array(self, e, env, fr, k, want):
        def done(vs):
            return k(Arr(vs))

        def go(i, out):
            if i == len(e["es"]):
                return done(out)
            return self.ev(e["es"][i], env, fr, lambda v: self.atomize(v, lambda w: go(i + 1, out + [w])))
        return go(0, [])

    def ev_ref(self, e, env, fr, k, want):
        inner = e["e"]
        if inner["k"] == "index" and self.as_range(inner["i"], env):
            return self.ev_index(inner, env, fr, k, want)
        if e["mutable"]:
            raise Unsupported("&mut expression")
        return self.ev(inner, env, fr, k, want)

    def ev_unary(self, e, env, fr, k, want):
        if e["op"] == "*":
            return self.ev(e["e"], env, fr, k, want)
        return self.ev(e["e"], env, fr, lambda v: k(Val(f"({e['op']}{self.code(v)})", v.ty)), want)

    def ev_cast(self, e, env, fr, k, want):
        t = self.type_of(e["ty"])

        def got(v):
            if not isinstance(v, Val):
                return k(v)
            if t is None or t[0] == "fn" or v.ty == t:
                return k(v)
            return k(Val(f"({v.code} as {self.ty_text(t)})", t))
        return self.ev(e["e"], env, fr, got)

    def ty_text(self, t):
        if t is None:
            return None
        if t[0] in ("usize", "u32", "u8", "u64", "i32", "bool", "char", "isize"):
            return t[0]
        if t == STR:
            return "Str<'a>"
        if t == UNIT:
            return "()"
        if t[0] == "Opt":
            x = self.ty_text(t[1])
            return f"Option<{x}>" if x else None
        if t[0] == "Tup":
            xs = [self.ty_text(x) for x in t[1]]
            return None if None in xs else "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
        if t[0] == "Struct":
            return t[1]
        return None

    def ev_binary(self, e, env, fr, k, want):
        op = e["op"]
        if op in ("&&", "||"):
            def got(a):
                rt, rty = self.value_text(e["b"], env, fr)
                if "\n" not in rt and not rt.startswith("let "):
                    return k(Val(f"({a.code} {op} {rt})", BOOL))
                t = self.fresh("c")
                if op == "&&":
                    return f"let {t} = if {a.code} {{ {rt} }} else {{ false }};\n" + k(Val(t, BOOL))
                return f"let {t} = if {a.code} {{ true }} else {{ {rt} }};\n" + k(Val(t, BOOL))
            if has_exit(e["b"]) and not fr.native:
                raise Unsupported("early exit in short-circuit operand")
            return self.ev(e["a"], env, fr, got)

        def got2(vs):
            a, b = vs
            self.unify_int(a, b)
            ty = BOOL if op in ("==", "!=", "<", ">", "<=", ">=") else (a.ty if a.ty and a.ty != ("int",) else b.ty)
            return self.binop(op, a, b, ty, k)
        return self.evs([e["a"], e["b"]], env, fr, got2)

    def binop(self, op, a, b, ty, k):
        return k(Val(f"({self.code(a)} {op} {self.code(b)})", ty))

    def ev_assign(self, e, env, fr, k, want):
        def got(v):
            tgt = self.place(e["a"], env)
            if tgt.ty is None or tgt.ty == Opt(None):
                self.set_type(tgt, v.ty)
            return f"{tgt.code} = {self.code(v)};\n" + k(Val("()", UNIT))
        return self.ev(e["b"], env, fr, got)

    def set_type(self, cell, ty):
        cell.ty = ty

    def place(self, e, env):
        n = pname(e)
        if n in env and isinstance(env[n], Val):
            return env[n]
        if e["k"] == "field":
            b = self.place(e["e"], env)
            return Val(f"{b.code}.{e['name']}", self.field_type(b.ty, e["name"]))
        if e["k"] == "unary" and e["op"] == "*":
            return self.place(e["e"], env)
        raise Unsupported(f"assignment target {e['k']}")

    def field_type(self, ty, name):
        if ty and ty[0] == "Tup":
            return ty[1][int(name)]
        return None

    def ev_field(self, e, env, fr, k, want):
        return self.ev(e["e"], env, fr, lambda v: k(Val(f"{self.code(v)}.{e['name']}", self.field_type(v.ty, e["name"]))))

    def ev_assignop(self, e, env, fr, k, want):
        def got(v):
            tgt = self.place(e["a"], env)
            if BOOL in (tgt.ty, v.ty) and e["op"] in ("|=", "&=", "^="):
                c, t = self.code(v), tgt.code
                x = {"|=": f"{t} || b_", "&=": f"{t} && b_", "^=": f"{t} != b_"}[e["op"]]
                return f"{{ let b_ = {c}; {t} = {x}; }}\n" + k(Val("()", UNIT))
            self.unify_int(tgt, v)
            return f"{tgt.code} = {tgt.code} {e['op'][:-1]} {self.code(v)};\n" + k(Val("()", UNIT))
        tgt = self.place(e["a"], env)
        return self.ev(e["b"], env, fr, got, tgt.ty)

    def ev_return(self, e, env, fr, k, want):
        if e["e"] is None:
            return fr.ret(Val("()", UNIT))
        return self.ev(e["e"], env, fr, fr.ret, fr.fnret)

    def ev_try(self, e, env, fr, k, want):
        def got(v):
            ty = v.ty
            if ty is None or ty[0] not in ("Opt", "Res"):
                raise Unsupported(f"? on value of unknown type {ty}")
            t = self.fresh()
            inner = ty[1]
            if ty[0] == "Opt":
                if fr.native:
                    return f"let {t} = match {v.code} {{ Some(v_) => v_, None => {{ {fr.ret(Val('None', fr.fnret))} }} }};\n" + k(Val(t, inner))
                return f"match {v.code} {{ Some({t}) => {{\n{k(Val(t, inner))}\n}} None => {{ {fr.ret(Val('None', fr.fnret))} }} }}"
            x = self.fresh("err")
            if fr.native:
                return f"let {t} = match {v.code} {{ Ok(v_) => v_, Err({x}) => {{ {fr.ret(Val(f'Err({x})', None))} }} }};\n" + k(Val(t, inner))
            return f"match {v.code} {{ Ok({t}) => {{\n{k(Val(t, inner))}\n}} Err({x}) => {{ {fr.ret(Val(f'Err({x})', None))} }} }}"
        return self.ev(e["e"], env, fr, got)

    # -- branching
    def arms_emit(self, head, arms, fr, k, exits, want=None):
        """arms: [(pattern text, env, body)]"""
        if exits and not fr.native:
            s = f"{head} {{\n"
            for p, en, body in arms:
                s += f"{p} => {{\n{self.ev(body, en, fr, k, want) if body is not None else k(Val('()', UNIT))}\n}}\n"
            return s + "}"
        s, tys, snap = f"{head} {{\n", [], (len(fr.muts), [dict(en) for _, en, _ in arms])
        for p, en, body in arms:
            if body is None:
                tx, ty = "", UNIT
            else:
                tx, ty = self.value_text(body, en, fr, want)
            tys.append(ty)
            s += f"{p} => {{\n{tx}\n}}\n"
        s += "}"
        ty = next((t for t in tys if t not in (NEVER, None, Opt(None))), None) or next((t for t in tys if t != NEVER), NEVER)
        if ty == UNIT:
            return s + "\n" + k(Val("()", UNIT))
        if ty == NEVER:
            return s
        if fr.native and len(arms) > 1 and tys.count(NEVER) == len(arms) - 1:
            # only one arm goes on: what follows belongs to it
            del fr.muts[snap[0]:]
            s = f"{head} {{\n"
            for (p, _, body), en in zip(arms, snap[1]):
                s += f"{p} => {{\n{self.ev(body, en, fr, lambda v: v.code if v.ty == NEVER else k(v), want)}\n}}\n"
            return s + "}"
        t = self.fresh()
        return f"let {t} = {s};\n" + k(Val(t, ty))

    def ev_if(self, e, env, fr, k, want):
        c = e["c"]
        exits = has_exit(e["t"]) or (e["e"] is not None and has_exit(e["e"]))
        if c["k"] == "letcond":
            def got(v):
                en = dict(env)
                p = self.pat(c["pat"], v.ty, en, fr)
                return self.arms_emit(f"match {self.code(v)}", [(p, en, e["t"]), ("_", env, e["e"])], fr, k, exits, want)
            return self.ev(c["e"], env, fr, got)
        if any(n.get("k") == "letcond" for n in walk(c)):
            raise Unsupported("let chain")
        return self.ev(c, env, fr, lambda v: self.arms_emit(f"match {self.code(v)}", [("true", env, e["t"]), ("false", env, e["e"])], fr, k, exits, want))

    def ev_match(self, e, env, fr, k, want):
        exits = any(has_exit(a["body"]) for a in e["arms"])

        def got(v):
            arms = []
            for a in e["arms"]:
                en = dict(env)
                p = self.pat(a["pat"], v.ty, en, fr)
                if a["guard"] is not None:
                    gt, _ = self.value_text(a["guard"], en, fr)
                    p += f" if {{ {gt} }}"
                arms.append((p, en, a["body"]))
            return self.arms_emit(f"match {self.code(v)}", arms, fr, k, exits, want)
        return self.ev(e["e"], env, fr, got)

    # -- loops (native frames only)
    def ev_loop(self, e, env, fr, k, want):
        return self.loop("loop", e, env, fr, k)

    def ev_while(self, e, env, fr, k, want):
        return self.loop("while", e, env, fr, k)

    def loop(self, kind, e, env, fr, k):
        if not fr.native:
            raise Unsupported("loop in an inlined closure")
        old = fr.in_loop
        fr.in_loop = True
        unit = lambda v: v.code if v.ty == NEVER else (v.code if v.ty in (UNIT, None) else f"let _ = {v.code};")
        muts = list(fr.muts)
        if kind == "loop":
            body = self.ev(e["body"], env, fr, unit)
        else:
            c = e["c"]
            if c["k"] == "letcond":
                def got(v):
                    en = dict(env)
                    p = self.pat(c["pat"], v.ty, en, fr)
                    return f"match {self.code(v)} {{\n{p} => {{\n{self.ev(e['body'], en, fr, unit)}\n}}\n_ => {{ break; }}\n}}"
                body = self.ev(c["e"], env, fr, got)
            else:
                body = self.ev(c, env, fr, lambda v: f"if !{self.code(v)} {{ break; }}\n" + self.ev(e["body"], env, fr, unit))
        fr.in_loop = old
        cl = self.loop_clauses(fr, muts, e)
        pre, self.looppre = getattr(self, "looppre", ""), ""
        return f"{pre}loop\n{cl}\n{{\n{body}\n}}\n" + k(Val("()", UNIT))

    def ev_break(self, e, env, fr, k, want):
        if e["e"] or e["label"] or not fr.in_loop:
            raise Unsupported("break with value/label")
        return "break;"

    def ev_continue(self, e, env, fr, k, want):
        if e["label"] or not fr.in_loop:
            raise Unsupported("continue with label")
        return "continue;"

    # -- calls
    def ev_call(self, e, env, fr, k, want):
        f = e["f"]
        n = pname(f)
        if n in ("Some", "Option::Some", "core::option::Option::Some") and n not in env:
            return self.ev(e["args"][0], env, fr, lambda v: k(Val(f"Some({self.code(v)})", Opt(v.ty))), want[1] if want and want[0] == "Opt" else None)
        if n in ("Ok", "Err") and n not in env:
            w = None
            if want and want[0] == "Res":
                w = want[1] if n == "Ok" else want[2]
            return self.ev(e["args"][0], env, fr, lambda v: k(Val(f"{n}({self.code(v)})", want if want and want[0] == "Res" else ("Res", v.ty if n == "Ok" else None, None if n == "Ok" else v.ty))), w)
        if n and n not in env:
            h = self.call_hook(n, e, env, fr, k, want)
            if h is not None:
                return h
        return self.ev(f, env, fr, lambda fv: self.evs(e["args"], env, fr, lambda vs: self.apply(fv, vs, fr, k), self.arg_types(fv)))

    def call_hook(self, n, e, env, fr, k, want):
        return None

    def arg_types(self, fv):
        if isinstance(fv, FnRef):
            c = self.contract_fn(fv.name)
            if c:
                ts = c[1]
                return ts
            it = self.lookup_fn(fv.name)
            if it:
                return [self.type_of(p["ty"]) if p["k"] == "param" else None for p in it["sig"]["params"]] + [None] * 9
        return [None] * 20

    def apply(self, fv, args, fr, k):
        if isinstance(fv, FnRef):
            c = self.contract_fn(fv.name)
            if c:
                name, tys, ret = c[:3]
                return self.bind(f"{name}({', '.join(self.code(a) for a in args)})", ret, k, "r")
            it = self.lookup_fn(fv.name)
            if it is None:
                raise Unsupported(f"call of {fv.name}")
            params = [p["pat"] for p in it["sig"]["params"]]
            rt = it["sig"]["ret"]
            if rt and rt["k"] == "timpl":
                return self.combinator(it, args, k)
            fv = Clo(params, it["body"], self.module_env(), origin=fv.name)
            fv.rty = self.type_of(rt) if rt else UNIT
            fv.ptys = [self.type_of(p["ty"]) for p in it["sig"]["params"]]
        if not isinstance(fv, Clo):
            raise Unsupported(f"call of a non-static function value {fv}")
        if has_loop(fv.body):
            return self.lift(fv, args, k)
        self.inline_depth += 1
        if self.inline_depth > 60:
            raise Unsupported("inlining too deep (recursive helper?)")
        try:
            env = dict(fv.env)
            pre = ""
            for i, (p, a) in enumerate(zip(fv.params, args)):
                pre += self.bind_param(p, a, env, getattr(fv, "ptys", [None] * 20)[i], fr)
            if len(fv.params) != len(args):
                raise Unsupported("arity")
            cell = []

            def ret(v):
                if not isinstance(v, Val):
                    raise Unsupported("static value escapes")
                if v.ty != NEVER:
                    cell.append(v.ty)
                return v.code
            inner = Frame(False, ret, getattr(fv, "rty", None))
            inner.muts = []
            text = pre + self.ev(fv.body, env, inner, ret, getattr(fv, "rty", None))
        finally:
            self.inline_depth -= 1
        ty = next((t for t in cell if t is not None and t != Opt(None)), getattr(fv, "rty", None) or (cell[0] if cell else None))
        text = re.sub(r"^let (\w+) = ([^\n]*);\n\1$", r"\2", text)
        if "\n" not in text and not text.startswith("let "):
            if text == "()":
                return k(Val("()", UNIT))
            return self.atomize(Val(text, ty), k)
        return self.bind("{\n" + text + "\n}", ty, k)

    def bind_param(self, p, a, env, ty, fr):
        q = p
        while q["k"] in ("pref", "ptype"):
            if q["k"] == "ptype":
                ty = self.type_of(q["ty"]) or ty
            q = q["p"]
        if q["k"] == "pident" and not q["mutable"]:
            if isinstance(a, Val) and a.lit and ty and re.fullmatch(r"\d+", a.code):
                a = Val(a.code + ty[0], ty, True)
            if isinstance(a, Val) and not a.lit:
                # by-value binding: an immutable name can be shared, a mutable one is copied
                if not a.mut and re.fullmatch(r"\w+", a.code):
                    env[q["name"]] = a if a.ty else Val(a.code, ty)
                    return ""
                v = self.fresh(q["name"])
                env[q["name"]] = Val(v, a.ty or ty)
                return f"let {v} = {a.code};\n"
            env[q["name"]] = a
            return ""
        if not isinstance(a, Val):
            if q["k"] == "pwild":
                return ""
            raise Unsupported("pattern on static argument")
        t = self.pat(q, a.ty or ty, env, None)
        return f"let {t} = {a.code};\n"

    def module_env(self):
        return {}

    def combinator(self, it, args, k):
        """a function returning `impl Fn`: its result is a statically known closure"""
        env = self.module_env()
        pre = []
        for p, a in zip(it["sig"]["params"], args):
            ty = self.type_of(p["ty"])
            q = p["pat"]
            if q["k"] != "pident":
                raise Unsupported("combinator parameter pattern")
            if isinstance(a, Val):
                if not a.lit and not self.is_atom(a.code):
                    raise Unsupported("combinator applied to a computed value")
                if a.lit and ty and re.fullmatch(r"\d+", a.code):
                    a = Val(a.code + ty[0], ty, True)
                a = Val(a.code, a.ty or ty, a.lit)
            env[q["name"]] = a
        b = it["body"]
        # body: [use..] tail closure-valued expression (no other statements)
        ss = [s for s in b["stmts"] if not (s["k"] == "sitem" and s["item"]["k"] in ("skip", "use"))]
        if len(ss) != 1 or ss[0]["k"] not in ("tail",):
            raise Unsupported(f"combinator {it['sig']['name']} has statements")
        out = []
        dummy = Frame(False, lambda v: "", None)
        self.ev(ss[0]["e"], env, dummy, lambda v: (out.append(v), "")[1])
        if len(out) != 1 or not isinstance(out[0], (Clo, FnRef)):
            raise Unsupported(f"combinator {it['sig']['name']}")
        if isinstance(out[0], Clo) and not out[0].origin:
            out[0].origin = it["sig"]["name"]
        return k(out[0])

    # -- method calls
    def ev_mcall(self, e, env, fr, k, want):
        name = e["name"]
        r = e["recv"]

        def got(v):
            if isinstance(v, Arr):
                return self.arr_method(v, name, e, env, fr, k)
            tm = self.trait_method(name, v.ty) if isinstance(v, Val) else None
            if tm is not None:
                clo = Clo([{"k": "pident", "name": "self", "by_ref": False, "mutable": False, "sub": None}] + [p["pat"] for p in tm["sig"]["params"][1:]], tm["body"], self.module_env(), origin=name)
                clo.rty = v.ty if tm["sig"]["ret"] and tm["sig"]["ret"].get("path") and tm["sig"]["ret"]["path"][-1]["id"] == "Self" else self.type_of(tm["sig"]["ret"])
                return self.evs(e["args"], env, fr, lambda vs: self.apply(clo, [v] + vs, fr, k))
            if isinstance(v, Val) and v.ty == BOOL and name in ("then", "then_some", "not"):
                if name == "not":
                    return k(Val(f"!({v.code})", BOOL))
                if name == "then":
                    t, ty = self.inline_value(self.static_arg(e["args"][0], env, fr), [], fr)
                    return self.bind(f"if {v.code} {{ Some({{ {t} }}) }} else {{ None }}", Opt(ty), k)
                return self.atomize(v, lambda v: self.ev(e["args"][0], env, fr, lambda w: self.atomize(w, lambda w: self.bind(f"if {v.code} {{ Some({self.code(w)}) }} else {{ None }}", Opt(w.ty), k))))
            if isinstance(v, Val) and v.ty and v.ty[0] == "Opt":
                return self.opt_method(v, name, e, env, fr, k)
            h = self.method(v, name, e, env, fr, k)
            if h is None:
                raise Unsupported(f"method .{name} on {v.ty if isinstance(v, Val) else v}")
            return h
        return self.ev(r, env, fr, got)

    def inline_value(self, f, args, fr):
        """text and type of applying static function f to args"""
        cell = []

        def k(v):
            cell.append(v.ty)
            return self.code(v)
        t = self.apply(f, args, fr, k)
        return t, (cell[0] if cell else None)

    def static_arg(self, e, env, fr):
        out = []
        self.ev(e, env, fr, lambda v: (out.append(v), "")[1])
        if len(out) != 1 or not isinstance(out[0], (Clo, FnRef)):
            raise Unsupported("closure argument expected")
        return out[0]

    def opt_method(self, v, name, e, env, fr, k):
        a = e["args"]
        T = v.ty[1]
        x = self.fresh("x")
        if name in ("is_some", "is_none"):
            return k(Val(f"{v.code}.{name}()", BOOL))
        if name in ("copied", "cloned", "as_ref", "clone"):
            return k(v)
        if name == "unwrap" or name == "expect":
            return self.bind(f"{v.code}.unwrap()", T, k)
        if name == "filter":
            t, _ = self.inline_value(self.static_arg(a[0], env, fr), [Val(x, T)], fr)
            return self.bind(f"match {v.code} {{ Some({x}) => {{ if {{ {t} }} {{ Some({x}) }} else {{ None }} }} None => None }}", v.ty, k)
        if name == "map":
            t, ty = self.inline_value(self.static_arg(a[0], env, fr), [Val(x, T)], fr)
            return self.bind(f"match {v.code} {{ Some({x}) => Some({{ {t} }}), None => None }}", Opt(ty), k)
        if name == "and_then":
            t, ty = self.inline_value(self.static_arg(a[0], env, fr), [Val(x, T)], fr)
            return self.bind(f"match {v.code} {{ Some({x}) => {{ {t} }} None => None }}", ty, k)
        if name in ("is_some_and", "map_or"):
            i = 0 if name == "is_some_and" else 1

            def got(d):
                t, ty = self.inline_value(self.static_arg(a[i], env, fr), [Val(x, T)], fr)
                return self.bind(f"match {v.code} {{ Some({x}) => {{ {t} }} None => {d.code} }}", ty or d.ty, k)
            if i == 0:
                return got(Val("false", BOOL))
            return self.ev(a[0], env, fr, got)
        if name == "is_none_or":
            t, ty = self.inline_value(self.static_arg(a[0], env, fr), [Val(x, T)], fr)
            return self.bind(f"match {v.code} {{ Some({x}) => {{ {t} }} None => true }}", BOOL, k)
        if name == "flatten" and T and T[0] == "Opt":
            return self.bind(f"match {v.code} {{ Some({x}) => {x}, None => None }}", T, k)
        if name == "zip":
            y = self.fresh("y")
            return self.atomize(v, lambda v: self.ev(a[0], env, fr, lambda w: self.atomize(w, lambda w: self.bind(f"match {v.code} {{ Some({x}) => match {self.code(w)} {{ Some({y}) => Some(({x}, {y})), None => None }}, None => None }}", Opt(Tup(T, w.ty[1])), k))))
        if name in ("ok_or", "ok_or_else") and T:
            if name == "ok_or_else":
                t, ty = self.inline_value(self.static_arg(a[0], env, fr), [], fr)
                return self.bind(f"match {v.code} {{ Some({x}) => Ok({x}), None => Err({{ {t} }}) }}", ("Res", T, ty), k)
            return self.ev(a[0], env, fr, lambda w: self.bind(f"match {v.code} {{ Some({x}) => Ok({x}), None => Err({self.code(w)}) }}", ("Res", T, w.ty), k))
        if name == "map_or_else":
            d, _ = self.inline_value(self.static_arg(a[0], env, fr), [], fr)
            t, ty = self.inline_value(self.static_arg(a[1], env, fr), [Val(x, T)], fr)
            return self.bind(f"match {v.code} {{ Some({x}) => {{ {t} }} None => {{ {d} }} }}", ty, k)
        if name == "and":
            return self.ev(a[0], env, fr, lambda w: self.atomize(w, lambda w: self.bind(f"match {v.code} {{ Some(_) => {self.code(w)}, None => None }}", w.ty, k)))
        if name == "or":
            return self.ev(a[0], env, fr, lambda w: self.atomize(w, lambda w: self.bind(f"match {v.code} {{ Some({x}) => Some({x}), None => {self.code(w)} }}", v.ty, k)))
        if name == "xor":
            raise Unsupported("xor")
        if name == "or_else":
            t, ty = self.inline_value(self.static_arg(a[0], env, fr), [], fr)
            return self.bind(f"match {v.code} {{ Some({x}) => Some({x}), None => {{ {t} }} }}", v.ty if v.ty != Opt(None) else ty, k)
        if name == "unwrap_or":
            return self.ev(a[0], env, fr, lambda w: self.bind(f"match {v.code} {{ Some({x}) => {x}, None => {self.code(w)} }}", T or w.ty, k), T)
        if name == "unwrap_or_else":
            t, ty = self.inline_value(self.static_arg(a[0], env, fr), [], fr)
            return self.bind(f"match {v.code} {{ Some({x}) => {x}, None => {{ {t} }} }}", T or ty, k)
        if name == "unwrap_or_default" and T in (USIZE, ("u32",)):
            return self.bind(f"match {v.code} {{ Some({x}) => {x}, None => 0 }}", T, k)
        if name == "get_or_insert":
            tgt = self.place(e["recv"], env)

            def got(w):
                if tgt.ty == Opt(None):
                    self.set_type(tgt, Opt(w.ty))
                return self.atomize(w, lambda w: f"if {tgt.code}.is_none() {{ {tgt.code} = Some({w.code}); }}\n" + k(Val(f"{tgt.code}.unwrap()", w.ty)))
            return self.ev(a[0], env, fr, got)
        if name == "replace":
            tgt = self.place(e["recv"], env)

            def got(w):
                if tgt.ty == Opt(None):
                    self.set_type(tgt, Opt(w.ty))
                return self.atomize(w, lambda w: self.bind(tgt.code, Opt(w.ty), lambda old: f"{tgt.code} = Some({w.code});\n" + k(old), "old"))
            return self.ev(a[0], env, fr, got)
        if name == "take":
            tgt = self.place(e["recv"], env)
            return self.bind(tgt.code, v.ty, lambda old: f"{tgt.code} = None;\n" + k(old), "old")
        h = self.method(v, name, e, env, fr, k)
        if h is None:
            raise Unsupported(f"Option::{name}")
        return h

    def arr_method(self, v, name, e, env, fr, k):
        """iterator chains over a statically known array, unrolled by the definition of the adapters"""
        if name in ("into_iter", "iter", "copied", "cloned"):
            return k(v)
        if name in ("filter_map", "flatten", "map", "filter"):
            f = self.static_arg(e["args"][0], env, fr) if e["args"] else None

            def go(i, out):
                if i == len(v.vals):
                    return k(Arr(out))
                x = v.vals[i]
                # elements are (present?, value): represent as Option values tagged 'item'
                ity = x.ty if getattr(x, "ty", None) and x.ty[0] == "Item" else None
                if ity is None:
                    src, T = f"Some({x.code})", x.ty
                else:
                    src, T = x.code, ity[1]
                y = self.fresh("it")
                if name == "flatten":
                    if not T or T[0] != "Opt":
                        raise Unsupported("flatten of non-Option")
                    body, ty = y, T[1]
                    code = x.code if ity is None else f"match {src} {{ Some({y}) => {y}, None => None }}"
                else:
                    t, rty = self.inline_value(f, [Val(y, T)], fr)
                    if name == "map":
                        code, ty = f"match {src} {{ Some({y}) => Some({{ {t} }}), None => None }}", rty
                    elif name == "filter":
                        code, ty = f"match {src} {{ Some({y}) => {{ if {{ {t} }} {{ Some({y}) }} else {{ None }} }} None => None }}", T
                    else:
                        code, ty = f"match {src} {{ Some({y}) => {{ {t} }} None => None }}", (rty[1] if rty and rty[0] == "Opt" else (T[1] if T and T[0] == "Opt" else None))
                return self.bind(code, ("Item", ty), lambda w: go(i + 1, out + [w]))
            return go(0, [])
        if name in ("min_by_key", "max_by_key"):
            f = self.static_arg(e["args"][0], env, fr)
            T = v.vals[0].ty[1] if v.vals[0].ty and v.vals[0].ty[0] == "Item" else v.vals[0].ty
            best = self.fresh("best")
            s = f"let mut {best} = None;\n"
            for x in v.vals:
                src = x.code if x.ty and x.ty[0] == "Item" else f"Some({x.code})"
                y, b = self.fresh("it"), self.fresh("b")
                ky, _ = self.inline_value(f, [Val(y, T)], fr)
                kb, _ = self.inline_value(f, [Val(b, T)], fr)
                # min_by_key: first minimum; max_by_key: last maximum
                cmp = "<" if name == "min_by_key" else ">="
                s += (f"match {src} {{ Some({y}) => {{ match {best} {{ None => {{ {best} = Some({y}); }} Some({b}) => {{\n"
                      f"let ky_ = {{ {ky} }};\nlet kb_ = {{ {kb} }};\nif ky_ {cmp} kb_ {{ {best} = Some({y}); }} }} }} }} None => {{}} }}\n")
            return s + k(Val(best, Opt(T)))
        if name in ("next", "find_map") and name == "next":
            acc = "None"
            x0 = v.vals
            s = "None"
            for x in reversed(x0):
                src = x.code if x.ty and x.ty[0] == "Item" else f"Some({x.code})"
                y = self.fresh("it")
                s = f"match {src} {{ Some({y}) => Some({y}), None => {{ {s} }} }}"
            T = x0[0].ty[1] if x0[0].ty and x0[0].ty[0] == "Item" else x0[0].ty
            return self.bind(s, Opt(T), k)
        if name == "find_map":
            f = self.static_arg(e["args"][0], env, fr)
            s, rty = "None", None
            for x in reversed(v.vals):
                src = x.code if x.ty and x.ty[0] == "Item" else f"Some({x.code})"
                y, z = self.fresh("it"), self.fresh("z")
                t, rty = self.inline_value(f, [Val(y, x.ty[1] if x.ty and x.ty[0] == "Item" else x.ty)], fr)
                s = f"match (match {src} {{ Some({y}) => {{ {t} }} None => None }}) {{ Some({z}) => Some({z}), None => {{ {s} }} }}"
            return self.bind(s, rty, k)
        raise Unsupported(f"array iterator method {name}")

    def str_get(self, v, r, env, fr, k):
        """str::get with a range"""
        if r["incl"]:
            raise Unsupported("inclusive range")
        if r["a"] is None and r["b"] is None:
            return k(Val(f"Some({v.code})", Opt(STR)))
        if r["a"] is None:
            return self.ev(r["b"], env, fr, lambda b: self.bind(f"{v.code}.get_to({b.code})", Opt(STR), k), USIZE)
        if r["b"] is None:
            return self.ev(r["a"], env, fr, lambda x: self.bind(f"{v.code}.get_from({x.code})", Opt(STR), k), USIZE)
        return self.evs([r["a"], r["b"]], env, fr, lambda vs: self.bind(f"{v.code}.get_range({vs[0].code}, {vs[1].code})", Opt(STR), k), [USIZE, USIZE])

    def str_at(self, v, name, a, env, fr, k):
        def got(c):
            if isinstance(c, Val) and c.ty == CHAR:
                return k(Val(f"{v.code}.{name}_char({c.code})", BOOL))
            raise Unsupported(f"str::{name} pattern")
        return self.ev(a[0], env, fr, got)

    def ev_index(self, e, env, fr, k, want):
        if e["i"]["k"] == "lit" and re.fullmatch(r"\d+", str(e["i"].get("v"))):
            def got(v):
                if not (isinstance(v, Val) and v.ty and v.ty[0] == "Array" and v.ty[1]):
                    raise Unsupported("index expression")
                return self.bind(f"{v.code}[{e['i']['v']}]", v.ty[1], k)
            return self.ev(e["e"], env, fr, got)
        raise Unsupported("index expression")

    def ev_macro(self, e, env, fr, k, want):
        raise Unsupported(f"macro {e['name']}!")
