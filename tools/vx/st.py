"""Extraction of functions with structs, enums and `&mut self` methods, under hand-written contracts."""
import copy
import re
from .ev import *
from . import peg

INTS = ("usize", "u32", "u8", "u64", "i32", "isize", "u16", "i64")


class Contract:
    """clauses use $0,$1,.. for the parameters (self is $0), $r for the result, $o0 for old(self)
    and $n0 for the state after the call of a `&mut` parameter"""

    def __init__(self, req=(), ens=(), dec=None, hints="", attrs="", trusted=False, pre="", loop=None, generics="<'a>"):
        self.req, self.ens, self.dec, self.hints, self.attrs, self.trusted, self.pre, self.loop = list(req), list(ens), dec, hints, attrs, trusted, pre, loop
        self.generics = generics


class StEv(Ev):
    """items: list of item lists (modules) whose functions may be inlined or are under contract"""

    def __init__(self, mods, contracts, structs=None, enums=None, ext=None):
        super().__init__()
        self.fns, self.impls, self.consts, self.aliases, self.traits = {}, {}, {}, {}, {}
        self.structs = dict(structs or {})   # name -> {field: type}
        self.enums = dict(enums or {})       # name -> {variant: [types] or {field: type}}
        self.contracts = contracts           # qualified name -> Contract
        self.ext = ext or {}                 # external functions: name -> (emitted, arg types, ret)
        self.sigs = {}
        self.extra = []
        self.selfty = None
        for items in mods:
            self.scan(items)

    def scan(self, items):
        for i in items:
            if i["k"] == "fn":
                self.fns[i["sig"]["name"]] = i
            elif i["k"] == "const":
                self.consts[i["name"]] = i
            elif i["k"] == "type":
                self.aliases[i["name"]] = i
            elif i["k"] == "impl":
                t = i["ty"]
                while t["k"] in ("tref",):
                    t = None
                    break
                if t is None or t["k"] != "tpath":
                    continue
                n = t["path"][-1]["id"]
                tr = i["tr"][-1]["id"] if i["tr"] else None
                for m in i["items"]:
                    if m["k"] == "fn":
                        self.impls[(n, m["sig"]["name"])] = (m, tr)
                    elif m["k"] == "const":
                        self.consts[n + "::" + m["name"]] = m
                    elif m["k"] == "type" and tr:
                        self.aliases.setdefault(n + "::" + m["name"], m)

    # ---- types
    def type_of(self, t):
        if t is None:
            return None
        k = t["k"]
        if k == "tref":
            return self.type_of(t["e"])
        if k == "tptr":
            return USIZE
        if k == "ttuple":
            return Tup(*[self.type_of(x) for x in t["es"]]) if t["es"] else UNIT
        if k == "timpl" or k == "tfn":
            return ("fn",)
        if k == "tarray":
            return ("Array", self.type_of(t["e"]), t["n"].get("v"))
        if k == "tslice":
            return ("Slice", self.type_of(t["e"]))
        if k == "tinfer":
            return None
        if k == "tpath":
            s = t["path"][-1]
            n = s["id"]
            if n == "str":
                return STR
            if n in INTS or n in ("bool", "char"):
                return (n,)
            if n == "Option":
                return Opt(self.type_of(s["args"][0]))
            if n == "Self" and len(t["path"]) == 1 and self.selfty:
                return self.named(self.selfty)
            if len(t["path"]) == 2 and t["path"][0]["id"] == "Self" and self.selfty and f"{self.selfty}::{n}" in self.aliases:
                return self.type_of(self.aliases[f"{self.selfty}::{n}"]["ty"])
            if n == "ParseResult":
                return Opt(Tup(STR, STR))
            if n == "Vec":
                return ("Vec", self.type_of(s["args"][0]))
            if n == "IntoIter":
                return ("IntoIter", self.type_of([a for a in s["args"] if a["k"] != "lt"][0]))
            if n == "Peekable" or n == "Split":
                return ("Chunks",)
            if n == "Result":
                a = [x for x in (s["args"] or []) if x["k"] != "lt"]
                return ("Res", self.type_of(a[0]), self.type_of(a[1]) if len(a) > 1 else self.default_err())
            if n == "NonZeroU8":
                return ("NonZeroU8",)
            nm = self.named(n)
            if nm:
                return nm
            if n in self.aliases:
                return self.type_of(self.aliases[n]["ty"])
        return None

    def default_err(self):
        return None

    def named(self, n):
        if n in self.structs:
            return ("Struct", n)
        if n in self.enums:
            return ("Enum", n)
        return None

    def ty_text(self, t):
        if t is None:
            return None
        if t[0] in ("Struct", "Enum"):
            return t[1] + ("<'a>" if t[1] in self.lifetimes else "")
        if t[0] == "Vec":
            x = self.ty_text(t[1])
            return f"Vec<{x}>" if x else None
        if t[0] == "IntoIter":
            return f"WordIter"
        if t[0] == "Chunks":
            return "Chunks<'a>"
        if t[0] == "NonZeroU8":
            return "NonZeroU8"
        if t[0] == "Array":
            return f"[{self.ty_text(t[1])}; {t[2]}]"
        if t[0] == "Res":
            a, b = self.ty_text(t[1]), self.ty_text(t[2])
            return f"Result<{a}, {b}>" if a and b else None
        if t[0] in INTS:
            return t[0]
        return super().ty_text(t)

    lifetimes = ()
    tailret = False

    # ---- resolution
    def qual(self, e):
        """qualified name of a path: Type::f or f"""
        segs = [s["id"] for s in e["path"]]
        if segs[0] == "Self" and self.selfty:
            segs[0] = self.selfty
        if len(segs) >= 2 and (self.named(segs[-2]) or (segs[-2], segs[-1]) in self.impls):
            return segs[-2] + "::" + segs[-1]
        return segs[-1]

    def contract_fn(self, name):
        q = name
        if q in self.sigs:
            return self.sigs[q]
        if q in self.ext:
            return self.ext[q]
        if q in self.contracts:
            it, st = self.find_item(q)
            if it is None:
                return None
            old, self.selfty = self.selfty, st or self.selfty
            tys = []
            for p in it["sig"]["params"]:
                tys.append(self.named(st) if p["k"] == "self" else self.type_of(p["ty"]))
            ret = self.type_of(it["sig"]["ret"]) if it["sig"]["ret"] else UNIT
            self.selfty = old
            self.sigs[q] = (q.replace("::", "_"), tys, ret)
            return self.sigs[q]
        return None

    def find_item(self, q):
        if "::" in q:
            t, f = q.split("::")
            m = self.impls.get((t, f))
            return (m[0], t) if m else (None, None)
        return self.fns.get(q), None

    def lookup_fn(self, name):
        return self.find_item(name)[0]

    def ev_path(self, e, env, fr, k, want):
        n = pname(e)
        if n and n in env:
            return k(env[n])
        if n:
            segs = [s["id"] for s in e["path"]]
            if segs[0] == "Self" and self.selfty:
                segs[0] = self.selfty
            if len(segs) >= 2 and segs[-2] in self.enums and segs[-1] in self.enums[segs[-2]]:
                return k(Val(f"{segs[-2]}::{segs[-1]}", ("Enum", segs[-2])))
            q = self.qual(e)
            if q in self.consts and q not in env:
                c = self.consts[q]
                return self.ev(c["e"], {}, fr, k, self.type_of(c["ty"]))
            if self.contract_fn(q) or self.lookup_fn(q):
                return k(FnRef(q))
            if segs[-1] == "MAX" and segs[-2] in INTS + ("Location",):
                t = segs[-2] if segs[-2] in INTS else "u32"
                return k(Val(f"{t}::MAX", (t,)))
        return super().ev_path(e, env, fr, k, want)

    # ---- structs, enums
    def field_type(self, ty, name):
        if ty and ty[0] == "Struct":
            return self.structs[ty[1]].get(name)
        return super().field_type(ty, name)

    def ev_struct(self, e, env, fr, k, want):
        segs = [s["id"] for s in e["path"]]
        if segs[0] == "Self" and self.selfty:
            segs[0] = self.selfty
        if segs[-1] in self.structs and len(segs) >= 1 and not (len(segs) >= 2 and segs[-2] in self.enums):
            fields, head, ty = self.structs[segs[-1]], segs[-1], ("Struct", segs[-1])
        elif len(segs) >= 2 and segs[-2] in self.enums:
            fields, head, ty = self.enums[segs[-2]][segs[-1]], f"{segs[-2]}::{segs[-1]}", ("Enum", segs[-2])
        else:
            raise Unsupported(f"struct literal {segs}")
        names = [f["name"] for f in e["fields"]]

        def done(vs):
            fs = ", ".join(f"{n}: {self.code(v)}" for n, v in zip(names, vs))
            if e["rest"]:
                return self.ev(e["rest"], env, fr, lambda b: k(Val(f"{head} {{ {fs}{', ' if fs else ''}..{self.code(b)} }}", ty)))
            return k(Val(f"{head} {{ {fs} }}", ty))
        return self.evs([f["e"] for f in e["fields"]], env, fr, done, [fields.get(n) for n in names])

    def pat_ctor(self, p, ty, env, fr):
        segs = [s["id"] for s in p["path"]]
        if segs[0] == "Self" and self.selfty:
            segs[0] = self.selfty
        if len(segs) >= 2 and segs[-2] in self.enums:
            en, vn = segs[-2], segs[-1]
        elif ty and ty[0] == "Enum" and segs[-1] in self.enums[ty[1]]:
            en, vn = ty[1], segs[-1]
        elif segs[-1] in self.structs and p["k"] == "pstruct":
            return self.pat_struct(segs[-1], self.structs[segs[-1]], p, env, fr)
        else:
            raise Unsupported(f"pattern {segs}")
        fs = self.enums[en][vn]
        if p["k"] == "ppath":
            return f"{en}::{vn}"
        if p["k"] == "pts":
            return f"{en}::{vn}(" + ", ".join(self.pat(x, t, env, fr) for x, t in zip(p["es"], fs)) + ")"
        return self.pat_struct(f"{en}::{vn}", fs, p, env, fr)

    def pat_struct(self, head, fs, p, env, fr):
        parts = [f"{f['name']}: {self.pat(f['pat'], fs.get(f['name']), env, fr)}" for f in p["fields"]]
        if p["rest"]:
            parts.append("..")
        return f"{head} {{ {', '.join(parts)} }}"

    def pat(self, p, ty, env, fr=None, init=None):
        if p["k"] == "pident" and p["sub"] is not None:
            raise Unsupported("binding @ pattern")
        if p["k"] == "pslice" and ty and ty[0] == "Array":
            # fixed-size array: bind the whole, destructure by index (Copy elements)
            v = self.fresh("arr")
            for i, x in enumerate(p["es"]):
                if x["k"] == "pwild":
                    continue
                if x["k"] != "pident":
                    raise Unsupported("array sub-pattern")
                env[x["name"]] = Val(f"{v}[{i}]", ty[1])
            return v
        if p["k"] == "ppath" and len(p["path"]) == 1 and p["path"][0]["id"] in self.consts:
            raise Unsupported("constant in pattern")
        return super().pat(p, ty, env, fr, init)

    def ev_call(self, e, env, fr, k, want):
        n = pname(e["f"])
        if n and n not in env:
            segs = [s["id"] for s in e["f"]["path"]]
            if segs[0] == "Self" and self.selfty:
                segs[0] = self.selfty
            if len(segs) >= 2 and segs[-2] in self.enums and isinstance(self.enums[segs[-2]].get(segs[-1]), list) and self.enums[segs[-2]][segs[-1]]:
                ts = self.enums[segs[-2]][segs[-1]]
                return self.evs(e["args"], env, fr, lambda vs: k(Val(f"{segs[-2]}::{segs[-1]}({', '.join(self.code(v) for v in vs)})", ("Enum", segs[-2]))), ts)
            if len(segs) >= 2 and segs[-2:] == ["panicking", "panic"] or "panicking" in segs or segs[-1] in ("panic_fmt", "panic_display", "unreachable_display"):
                return "panic_()" if fr.native else "panic_()"
            if segs[-1] == "try_from" and len(segs) >= 2:
                t = segs[-2] if segs[-2] in INTS else (self.type_of({"k": "tpath", "path": [{"id": segs[-2], "args": None}]}) or ("?",))[0]
                if t == "u32":
                    return self.ev(e["args"][0], env, fr, lambda v: self.tryfrom(v, k))
                raise Unsupported("try_from")
            if segs[-2:] == ["Vec", "new"]:
                return k(Val("Vec::new()", ("Vec", want[1] if want and want[0] == "Vec" else None)))
            if segs[-1] == "box_assume_init_into_vec_unsafe":
                arr = e["args"][0]["args"][1]
                if arr["k"] != "array":
                    raise Unsupported("vec!")

                def mk(vs):
                    t = self.fresh("v")
                    ty = vs[0].ty if vs else (want[1] if want and want[0] == "Vec" else None)
                    s = f"let mut {t}: Vec<{self.ty_text(ty) or '_'}> = Vec::new();\n"
                    for x in vs:
                        s += f"{t}.push({x.code});\n"
                    return s + k(Val(t, ("Vec", ty)))
                return self.evs(arr["es"], env, fr, mk)
            if segs[-2:] == ["NonZeroU8", "new"]:
                return self.ev(e["args"][0], env, fr, lambda v: self.bind(f"NonZeroU8::new({v.code})", Opt(("NonZeroU8",)), k), ("u8",))
        return super().ev_call(e, env, fr, k, want)

    def tryfrom(self, v, k):
        return self.bind(f"u32_try_from({v.code})", ("Res", ("u32",), ("TryErr",)), k)

    def call_hook(self, n, e, env, fr, k, want):
        # UFCS on own types: Type::method(recv, args)
        q = self.qual(e["f"])
        if "::" in q:
            it, st = self.find_item(q)
            if it is not None and it["sig"]["params"] and it["sig"]["params"][0]["k"] == "self":
                return self.mcall_resolved(q, it, st, e["args"][0], e["args"][1:], env, fr, k)
        return None

    def mcall_resolved(self, q, it, st, recv, args, env, fr, k):
        sp = it["sig"]["params"][0]
        bymut = sp["by_ref"] and sp["mutable"]
        if bymut:
            pl = self.place_mut(recv, env)
            return self.call_method(q, it, st, pl, args, env, fr, k)
        return self.ev(recv, env, fr, lambda v: self.call_method(q, it, st, v, args, env, fr, k))

    def place_mut(self, e, env):
        while e["k"] == "ref" or (e["k"] == "unary" and e["op"] == "*"):
            e = e["e"]
        return self.place(e, env)

    def call_method(self, q, it, st, recv, args, env, fr, k):
        sp = it["sig"]["params"][0]
        bymut = sp["by_ref"] and sp["mutable"]
        c = self.contract_fn(q)
        if c:
            def go(vs):
                r = f"&mut {recv.code}" if bymut and recv.code != "self_" else recv.code
                if sp["by_ref"] and not bymut and ("Struct", st) in self.noncopy and recv.code != "self_":
                    r = f"&{recv.code}"
                return self.bind(f"{c[0]}({', '.join([r] + [self.code(v) for v in vs])})", c[2], k, "r")
            return self.evs(args, env, fr, go, c[1][1:])
        # inline
        def go2(vs):
            clo = Clo([p["pat"] for p in it["sig"]["params"][1:]], it["body"], {}, origin=q)
            if has_loop(it["body"]):
                raise Unsupported(f"method {q} has a loop but no contract")
            old = self.selfty
            self.selfty = st
            clo.rty = self.type_of(it["sig"]["ret"]) if it["sig"]["ret"] else UNIT
            clo.ptys = [self.type_of(p["ty"]) for p in it["sig"]["params"][1:]]
            rv = recv
            pre = ""
            if not sp["by_ref"] and (recv.mut or not self.is_atom(recv.code)) or not self.is_atom(recv.code):
                t = self.fresh("self")
                pre = f"let {t} = {recv.code};\n"
                rv = Val(t, recv.ty)
            clo.env = {"self": Val(rv.code, rv.ty)}
            r = self.apply(clo, vs, fr, lambda v: self.restore(old, k, v))
            self.selfty = old
            return pre + r
        return self.evs(args, env, fr, go2)

    def restore(self, old, k, v):
        cur, self.selfty = self.selfty, old
        r = k(v)
        self.selfty = cur
        return r

    noncopy = ()

    def local_item(self, it, env):
        if it["k"] == "fn":
            clo = Clo([p["pat"] for p in it["sig"]["params"]], it["body"], env, origin=it["sig"]["name"])
            clo.rty = self.type_of(it["sig"]["ret"]) if it["sig"]["ret"] else UNIT
            clo.ptys = [self.type_of(p["ty"]) for p in it["sig"]["params"]]
            env[it["sig"]["name"]] = clo
            return
        super().local_item(it, env)

    # ---- method calls
    def ev_mcall(self, e, env, fr, k, want):
        name, r = e["name"], e["recv"]
        if name == "contains" and self.as_range(r, env):
            r = self.as_range(r, env)

            def got(vs):
                a, b, x = vs
                op = "<=" if r["incl"] else "<"
                return k(Val(f"({a.code} <= {x.code} && {x.code} {op} {b.code})", BOOL))
            return self.evs([r["a"], r["b"], e["args"][0]], env, fr, got)
        # own-type methods
        ty = self.static_type(r, env)
        if ty and ty[0] in ("Struct", "Enum") and (ty[1], name) in self.impls:
            it = self.impls[(ty[1], name)][0]
            return self.mcall_resolved(f"{ty[1]}::{name}", it, ty[1], r, e["args"], env, fr, k)
        return super().ev_mcall(e, env, fr, k, want)

    def static_type(self, e, env):
        if e["k"] == "path" and pname(e) in env and isinstance(env[pname(e)], Val):
            return env[pname(e)].ty
        if e["k"] == "field":
            t = self.static_type(e["e"], env)
            return self.field_type(t, e["name"]) if t else None
        if e["k"] in ("ref", "unary"):
            return self.static_type(e["e"], env)
        return None

    def int_method(self, v, name, a, env, fr, k):
        if name in ("saturating_add", "saturating_sub", "checked_sub", "checked_add", "min", "max", "wrapping_add", "wrapping_sub", "abs_diff"):
            return self.ev(a[0], env, fr, lambda w: self.bind(f"{v.ty[0]}_{name}({v.code}, {w.code})", Opt(v.ty) if name.startswith("checked") else v.ty, k), v.ty)
        return None

    def method(self, v, name, e, env, fr, k):
        if not isinstance(v, Val):
            return None
        a = e["args"]
        if v.ty and v.ty[0] in ("Struct", "Enum") and (v.ty[1], name) in self.impls:
            it = self.impls[(v.ty[1], name)][0]
            return self.call_method(f"{v.ty[1]}::{name}", it, v.ty[1], v, a, env, fr, k)
        if v.ty and v.ty[0] == "Res":
            if name in ("unwrap", "expect"):
                return self.bind(f"res_unwrap({v.code})", v.ty[1], k)
            if name == "ok":
                x = self.fresh("x")
                return self.bind(f"match {v.code} {{ Ok({x}) => Some({x}), Err(_) => None }}", Opt(v.ty[1]), k)
            if name == "is_ok":
                return k(Val(f"{v.code}.is_ok()", BOOL))
            if name == "is_err":
                return k(Val(f"{v.code}.is_err()", BOOL))
        if v.ty == STR:
            m = self.str_method(v, name, e, env, fr, k)
            if m is not None:
                return m
        if v.ty and v.ty[0] in INTS:
            if name in ("clone",):
                return k(v)
            if name == "try_into":
                return self.tryfrom(v, k)
            return self.int_method(v, name, a, env, fr, k)
        if v.ty and v.ty[0] in ("Struct", "Enum") and name == "clone":
            return k(v)
        return None

    def str_method(self, v, name, e, env, fr, k):
        a = e["args"]
        if name == "as_ptr":
            return k(Val(f"{v.code}.as_ptr()", USIZE))
        if name == "len":
            return k(Val(f"{v.code}.len()", USIZE))
        if name == "is_empty":
            return k(Val(f"{v.code}.is_empty()", BOOL))
        if name == "get" and self.as_range(a[0], env):
            return self.str_get(v, self.as_range(a[0], env), env, fr, k)
        if name in ("starts_with", "ends_with"):
            return self.str_at(v, name, a, env, fr, k)
        if name in ("trim_end_matches", "trim_start_matches"):
            def got(c):
                if isinstance(c, Val) and c.ty == CHAR:
                    return self.bind(f"{v.code}.{'trim_end_char' if 'end' in name else 'trim_start_char'}({c.code})", STR, k)
                raise Unsupported("trim pattern")
            return self.ev(a[0], env, fr, got)
        if name == "contains":
            def got(c):
                if isinstance(c, Val) and c.ty == CHAR:
                    return k(Val(f"{v.code}.contains_char({c.code})", BOOL))
                raise Unsupported("str::contains pattern")
            return self.ev(a[0], env, fr, got)
        if name == "clone":
            return k(v)
        return None

    def binop(self, op, a, b, ty, k):
        if a.ty == STR and op in ("==", "!="):
            return k(Val(f"({'!' if op == '!=' else ''}{a.code}.eq_str({b.code}))", BOOL))
        return super().binop(op, a, b, ty, k)

    # ---- emission
    def stub(self, q):
        """a function whose body is out of reach: its contract only (reported as not proved), so that its callers can still be checked"""
        c, self.contracts[q] = self.contracts[q], copy.copy(self.contracts[q])
        self.contracts[q].trusted = True
        try:
            return self.emit(q)
        finally:
            self.contracts[q] = c

    def emit_or_stub(self, q, out, errs):
        try:
            out.append((q, self.emit(q)))
        except Unsupported as u:
            errs[q] = f"unsupported: {u}"
        except (KeyError, TypeError, AttributeError, IndexError, ValueError) as x:
            errs[q] = f"not understood: {type(x).__name__}: {x}"
        if q in errs:
            try:
                out.append((None, self.stub(q)))
            except Exception:
                pass

    def emit(self, q):
        """text of one function under contract"""
        c = self.contracts[q]
        it, st = self.find_item(q)
        if it is None:
            raise Unsupported(f"function {q} not found in the code")
        name, tys, ret = self.contract_fn(q)
        self.cur, self.selfty, self.inline_depth = q, st, 0
        ps, env, pre, mutself = [], {}, "", False
        fr = Frame(True, lambda v: f"return {self.code(v)};" if v.ty != UNIT else f"return;", ret)
        names = []
        for i, (p, t) in enumerate(zip(it["sig"]["params"], tys)):
            if p["k"] == "self":
                nm = "self_"
                if p["by_ref"] and p["mutable"]:
                    ps.append(f"self_: &mut {self.ty_text(t)}")
                    mutself = True
                elif p["by_ref"] and t in self.noncopy:
                    ps.append(f"self_: &{self.ty_text(t)}")
                else:
                    ps.append(f"self_: {self.ty_text(t)}")
                env["self"] = Val("self_", t)
            else:
                nm = self.fresh("p")
                tt = self.ty_text(t)
                if tt is None:
                    raise Unsupported(f"parameter type of {q}")
                ps.append(f"{nm}: {tt}")
                pre += self.bind_param(p["pat"], Val(nm, t), env, t, fr)
            names.append(nm)
        self.params = names

        def sub(s):
            s = re.sub(r"\$o(\d)", lambda m: f"(*old({names[int(m[1])]}))", s)
            s = re.sub(r"\$n(\d)", lambda m: f"(*final({names[int(m[1])]}))", s)
            s = s.replace("$r", "r")
            return re.sub(r"\$(\d)", lambda m: names[int(m[1])], s)
        self.sub = sub
        self.loopc = c.loop
        self.brk, self.looppre = [], ""
        self.loopn = 0
        rt = self.ty_text(ret)
        if ret != UNIT and rt is None:
            raise Unsupported(f"return type of {q}")
        sig = c.attrs + f"pub fn {name}{c.generics}({', '.join(ps)})" + (f" -> (r: {rt})" if ret != UNIT else "") + "\n"
        if c.req:
            sig += "  requires\n" + "".join(f"    {sub(x)},\n" for x in c.req)
        if c.ens:
            sig += "  ensures\n"
            for x in c.ens:
                tag, cl = x if isinstance(x, tuple) else ("", x)
                sig += f"    {sub(cl)}, //@{tag or 'all'}\n"
        if c.dec:
            sig += f"  decreases {sub(c.dec)}\n"
        if c.trusted:
            return "#[verifier::external_body]\n" + sig + "{ unimplemented!() }\n"
        body = pre + self.ev(it["body"], env, fr, fr.ret if self.tailret else (lambda v: self.code(v) if v.ty not in (UNIT,) else ""), ret)
        return sig + "{\n" + sub(c.hints) + "\n" + sub(c.pre) + self.finish(body) + "\n}\n"

    def lit_fns(self):
        s = ""
        for v, n in self.lits.items():
            cs = [peg.chlit(c) for c in v]
            s += (f"#[verifier::external_body]\npub fn {n}<'a>() -> (r: Str<'a>) ensures r@ == {n}_s(), forall|c: char| #[trigger] has(r@, c) == ({' || '.join('c == ' + c for c in cs) or 'false'}) {{ unimplemented!() }}\n"
                  f"pub open spec fn {n}_s() -> Seq<char> {{ seq![{', '.join(cs)}] }}\n")
        return s

    # ---- loops with a value: in tail position `break v` is the end of the function, elsewhere the value goes through a local
    def ev_loop(self, e, env, fr, k, want):
        def breaks(x):
            """the breaks of this loop"""
            if isinstance(x, list):
                return [b for y in x for b in breaks(y)]
            if not isinstance(x, dict) or x.get("k") in ("loop", "while", "for", "closure"):
                return []
            return ([x] if x.get("k") == "break" else []) + [b for y in x.values() for b in breaks(y)]
        bs = breaks(e["body"])
        if any(b["e"] for b in bs):
            if not fr.native:
                raise Unsupported("loop with a value")
            if any(not b["e"] for b in bs):
                raise Unsupported("mixed breaks")
            tail = e.get("tail")
            slot, tys = self.fresh("slot"), []

            def put(v):
                tys.append(v.ty)
                return f"{slot} = Some({self.code(v)});\nbreak;"
            self.brk.append(k if tail else put)
            self.brkwant = want
            try:
                t = self.loop("loop", e, env, fr, lambda v: "")
            finally:
                self.brk.pop()
            if tail:
                return t
            ty = next((x for x in tys if x not in (None, NEVER)), None)
            if ty is None:
                raise Unsupported("loop value of unknown type")
            tt = self.ty_text(ty)
            return (f"let mut {slot}{': Option<' + tt + '>' if tt else ''} = None;\n{t}" + self.bind(f"{slot}.unwrap()", ty, k))
        self.brk.append(None)
        try:
            return super().ev_loop(e, env, fr, k, want)
        finally:
            self.brk.pop()

    def ev_while(self, e, env, fr, k, want):
        self.brk.append(None)
        try:
            return super().ev_while(e, env, fr, k, want)
        finally:
            self.brk.pop()

    def ev_break(self, e, env, fr, k, want):
        if e["e"] and self.brk and self.brk[-1] is not None and not e["label"]:
            return self.ev(e["e"], env, fr, self.brk[-1], self.brkwant)
        return super().ev_break(e, env, fr, k, want)

    def loop_clauses(self, fr, muts, e):
        if not self.loopc:
            raise Unsupported(f"loop in {self.cur} without an invariant")
        self.loopn += 1
        self.loopast = e
        return self.loopc(self, fr, muts, self.loopn)


def parse_structs(items, names, ev):
    for i in items:
        if i["k"] == "struct" and i["name"] in names:
            if i["fields"]["k"] != "named":
                raise Unsupported("tuple struct")
            ev.structs[i["name"]] = {}
            ev.structs[i["name"]] = {f["name"]: ev.type_of(f["ty"]) for f in i["fields"]["fs"]}
        if i["k"] == "enum" and i["name"] in names:
            ev.enums[i["name"]] = {}
            d = {}
            for v in i["variants"]:
                f = v["fields"]
                d[v["name"]] = [] if f["k"] == "unit" else ([ev.type_of(x["ty"]) for x in f["fs"]] if f["k"] == "unnamed" else {x["name"]: ev.type_of(x["ty"]) for x in f["fs"]})
            ev.enums[i["name"]] = d


def struct_text(ev, n, copy=True, pub=True):
    fs = ", ".join(f"pub {k}: {ev.ty_text(t)}" for k, t in ev.structs[n].items())
    lt = "<'a>" if n in ev.lifetimes else ""
    return ("#[derive(Clone, Copy)]\n" if copy else "") + f"pub struct {n}{lt} {{ {fs} }}\n"


def enum_text(ev, n, copy=True):
    vs = []
    for v, f in ev.enums[n].items():
        if isinstance(f, dict):
            vs.append(v + " { " + ", ".join(f"{k}: {ev.ty_text(t)}" for k, t in f.items()) + " }")
        elif f:
            vs.append(v + "(" + ", ".join(ev.ty_text(t) for t in f) + ")")
        else:
            vs.append(v)
    return ("#[derive(Clone, Copy)]\n" if copy else "") + f"pub enum {n} {{ {', '.join(vs)} }}\n"
