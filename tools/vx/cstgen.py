"""Verus crates (shards) for the syntax-tree properties, one set per property, from the evaluation in cst.py."""
import os
import re

from . import cstspec
from .cst import Cst, TOK, ER, WL, NERR, IN, ARENA, LOC, SEL, Val, VIS, mangle, TREE, Opt, PRES, Clo, Frame, Tup
from .ev import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
SPECFILE = os.path.join(os.path.dirname(os.path.dirname(HERE)), "spec", "cst.peg")
ROOT = ("adt", "Text", ())
RESERVED = {"Ord3", "Tok", "Span", "Er", "WL", "NErr", "PR", "Out", "Vis", "Loc", "Option", "Vec", "Box", "Seq", "Ghost", "Set", "Map", "Some", "None", "Ok", "Err"}
NSHARD = 32


def alts(e):
    return tuple(e[1]) if e[0] == "alt" else ()


def why(e):
    return (str(e) if isinstance(e, (Unsupported, cstspec.SpecError)) else f"{type(e).__name__}: {e}")[:200]


class CstGen:
    def __init__(self, ast):
        self.c = Cst(ast)
        self.errs = {}
        self.fns = {}         # parse type -> evaluation
        self.exprs = {}
        self.spec, bad = None, None
        try:
            self.spec = cstspec.Spec(open(SPECFILE).read())
            self.spec.wellformed(ROOT)
        except (cstspec.SpecError, OSError) as e:
            self.spec, bad = None, str(e)
        self.reach()
        if bad:
            self.errs["reference grammar"] = bad

    # ---- what there is ----------------------------------------------------------------------------
    def reach(self):
        """evaluate every parse function; least fixpoint of 'may succeed without taking a token'; ranks"""
        c = self.c
        for _ in range(20):
            todo, seen, grow = [ROOT], set(), False
            self.fns, self.errs, c.calls = {}, {}, {}
            while todo:
                T = todo.pop(0)
                if T in seen:
                    continue
                seen.add(T)
                try:
                    r = c.parse_fn(T)
                except Exception as e:
                    self.errs["parse_" + mangle(T)] = why(e)
                    todo += self.below(T)
                    continue
                self.fns[T] = r
                if r["null"] and T not in c.nullable and not self.posted(r):
                    c.nullable.add(T)
                    grow = True
                todo += [x for x in r["used"].get("parse", {}) if x[0] == "adt"]
            if not grow:
                break
        # ranks: a caller stands above everything it may call without having advanced
        edges = {T: {M for M, adv in ms.items() if not all(adv)} for T, ms in c.calls.items()}
        rank, state = {}, {}

        def dfs(T):
            if state.get(T) == 2:
                return rank.get(T)
            if state.get(T) == 1:
                return None
            state[T] = 1
            r, ok = 0, True
            for M in sorted(edges.get(T, ()), key=str):
                x = dfs(M)
                if x is None:
                    ok = False
                else:
                    r = max(r, x + 1)
            state[T] = 2
            if ok:
                rank[T] = r
            return rank.get(T)
        for T in sorted(edges, key=str):
            dfs(T)
        c.rank = rank
        if self.spec and any(T not in rank for T in edges):
            # the text of the code does not show the order: try the one of the reference grammar, every step of it proved like any other
            null, rank = self.reference_order()
            if null is not None:
                c.nullable = {T for T in self.fns if null.get(T, T in c.nullable)}
                c.rank = rank
                self.by_reference = True
        for T in list(self.fns):
            self.fns[T] = c.parse_fn(T)
        bad = [mangle(T) for T in self.fns if mangle(T) in RESERVED]
        if bad:
            raise Unsupported(f"type names {bad}")
        # tree methods
        self.tree = {}
        todo, seen = [ROOT], set()
        while todo:
            T = todo.pop(0)
            if T in seen:
                continue
            seen.add(T)
            todo += self.below(T)
            node = c.is_node(T)
            if not node and not c.find_impl("TreeNodeChild", T):
                self.errs["tree_" + mangle(T)] = "neither TreeNode nor TreeNodeChild"
                continue
            for short in ("ex", "st", "en", "fc" if node else "iv"):
                try:
                    self.tree[(short, T)] = c.tree_fn(T, short)
                except Exception as e:
                    self.errs[f"{short}_{mangle(T)}"] = why(e)

    def reference_order(self):
        """(may match the empty sequence, rank) of the types, read off the reference grammar"""
        ex = {}
        for T in self.fns:
            try:
                ex[cstspec.strip(T)] = self.rule(T)
            except Exception:
                pass
        null = set()
        while True:
            add = {t for t, e in ex.items() if t not in null and cstspec.nullable(e, null)}
            if not add:
                break
            null |= add
        rank, path = {}, set()

        def dfs(t):
            if t in rank:
                return rank[t]
            if t in path or t not in ex:
                return None
            path.add(t)
            rs = [dfs(u) for u in cstspec.lefts(ex[t], null)]
            path.discard(t)
            if None in rs:
                return None
            rank[t] = 1 + max(rs, default=-1)
            return rank[t]
        for t in sorted(ex, key=str):
            dfs(t)
        ts = {T: cstspec.strip(T) for T in self.fns}
        return {T: t in null for T, t in ts.items() if t in ex}, {T: rank[t] for T, t in ts.items() if t in rank}

    def starts(self, e):
        """the rules tried where e starts, and those tried where they start"""
        null, _ = self.reference_order()
        null = {cstspec.strip(T) for T, n in null.items() if n}
        out, todo = [], list(cstspec.lefts(e, null))
        while todo and len(out) < 60:
            t = todo.pop(0)
            if t in out or self.spec.rule(t) is None:
                continue
            out.append(t)
            todo += cstspec.lefts(self.rule(t), null)
        return out

    def posted(self, r):
        """does the parser look at how much it took, or at what it took, before succeeding?  Then 'takes at least one token' is left to the verifier"""
        return "PostConditionFailed" in r["body"]

    def below(self, T):
        out = []

        def w(t):
            if t[0] == "adt":
                out.append(t)
            elif t[0] == "Tup":
                for x in t[1]:
                    w(x)
            elif t[0] in ("Opt", "Vec", "Box"):
                w(t[1])
        try:
            for v in self.c.fields(T).values():
                for f in v:
                    w(f[1])
        except Unsupported:
            pass
        return out

    def problems(self, prop):
        """what could not be extracted or stated, as far as the property is concerned"""
        tree = ("ex_", "st_", "en_", "fc_", "iv_", "tree_")
        if prop == "C13":
            return {k: v for k, v in self.errs.items() if k.startswith(tree)}
        return {k: v for k, v in self.errs.items() if not k.startswith(tree) and (prop == "C16" or k != "reference grammar")}

    # ---- grammar expressions -------------------------------------------------------------------------
    def resolve_refs(self, e):
        """refs to types the reference has no rule for become their code-derived expression; and the reverse"""
        k = e[0]
        if k == "ref":
            t = cstspec.strip(e[1])
            if self.spec.rule(t) is not None:
                if self.has_parse(t):
                    return ("ref", t)
                return self.resolve_refs(self.guarded(t, lambda: self.spec.rule(t)))
            if not self.c.find_impl("Parse", e[1]):
                return self.resolve_refs(self.guarded(t, lambda: cstspec.norm(cstspec.ref(("Tup", (e[1],))))))
            return self.resolve_refs(self.guarded(t, lambda: self.code_expr(e[1])))
        if k in ("any", "sel", "nsel"):
            return e
        if k in ("seq", "alt"):
            return (k, tuple(self.resolve_refs(x) for x in e[1]))
        return (k,) + tuple(self.resolve_refs(x) for x in e[1:])

    def has_parse(self, t):
        for T in self.fns:
            if cstspec.strip(T) == t:
                return True
        return "parse_" + mangle(t) in self.errs

    def guarded(self, t, f):
        self._stack = getattr(self, "_stack", [])
        if t in self._stack or len(self._stack) > 12:
            raise Unsupported(f"the grammar of {mangle(t)} cannot be written out")
        self._stack.append(t)
        try:
            return self.resolve_refs(f())
        finally:
            self._stack.pop()

    def code_expr(self, T):
        if T not in self.exprs:
            self.exprs[T] = cstspec.norm(self.c.adt_expr(T))
        return self.exprs[T]

    def norm(self, e):
        return cstspec.norm(self.resolve_refs(cstspec.norm(self.derefs(e))))

    def derefs(self, e):
        """code-derived: type refs to tuples, options, boxes written out"""
        k = e[0]
        if k == "ref":
            return cstspec.ref(e[1])
        if k in ("any", "sel", "nsel"):
            return e
        if k in ("seq", "alt"):
            return (k, tuple(self.derefs(x) for x in e[1]))
        return (k,) + tuple(self.derefs(x) for x in e[1:])

    def rule(self, T):
        t = cstspec.strip(T)
        r = self.spec.rule(t)
        if r is None:
            return self.norm(self.code_expr(T))
        return self.norm(r)

    # ---- text ------------------------------------------------------------------------------------------
    def shard(self, prop, items):
        return Shard(self, prop, items).text()

    def items(self, prop):
        """the functions this property is about"""
        out = []
        if prop in ("C12", "C14", "C15", "C16"):
            out += [("parse", T) for T in self.fns]
            out += [("tok", None), ("cst", None), ("or", None)]
        if prop == "C13":
            out += [("tree", k) for k in self.tree]
        return out

    def shards(self, prop):
        """[(text, functions)]"""
        res = []
        its = self.items(prop)

        def weight(it):
            if it[0] == "parse":
                return len(self.fns[it[1]]["body"]) + 400
            return 300
        its.sort(key=lambda x: (-weight(x), str(x)))
        n = max(1, min(NSHARD, len(its)))
        bins = [[0, []] for _ in range(n)]
        for it in its:
            b = min(bins, key=lambda b: b[0])
            b[0] += weight(it)
            b[1].append(it)
        for _, b in bins:
            res.append(self.piece(prop, b))
        return res

    def piece(self, prop, items):
        sh = Shard(self, prop, items)
        text = sh.text()
        self.errs.update(sh.errs)
        return text, sh.names, items


def clean(code, prop):
    if prop != "C14":
        code = re.sub(r"assert\([^;\n]*\); //@C14[^\n]*\n", "\n", code)
    return code


class Shard:
    def __init__(self, g, prop, items):
        self.g, self.c, self.prop, self.its = g, g.c, prop, items
        self.names, self.errs = [], {}
        self.T = cstspec.Text(self.c.seln, mangle, None)
        self.lv = prop in ("C12", "C13")
        self.concrete, self.adts, self.lvs, self.stubs, self.tstubs, self.need = set(), set(), set(), set(), set(), {}

    def absorb(self, used):
        self.adts |= set(used.get("adt", {}))
        self.lvs |= set(used.get("lvs", {}))
        for T in used.get("concrete", {}):
            self.concrete.add(T)
            self.adts.add(T)

    def grab(self, f):
        """run f with the evaluator's record of used types fresh; absorb it"""
        c = self.c
        save = c.used
        c.used = {}
        try:
            r = f()
            self.absorb(c.used)
            return r
        finally:
            c.used = save

    def p(self, T, pos):
        return self.T.se(("ref", cstspec.strip(T)), pos) if self.known(T) else self.T.se(self.g.rule(T), pos)

    def known(self, T):
        return self.g.spec.rule(cstspec.strip(T)) is not None

    def nonnull(self, T):
        return T == TOK or T not in self.c.nullable

    def post(self, T, i="i", st=None):
        """ensures clauses of a parse function for type T (result r: PR<T>)"""
        o = [f"r matches Ok(p) ==> {i} <= p.0 <= t.len(),"]
        P = self.prop
        if P == "C12":
            o.append(f"r matches Ok(p) ==> {self.grab(lambda: self.c.lv(T, 'p.1'))} == t@.subrange({i} as int, p.0 as int), //@C12")
        if P in ("C14", "C16") and st is None and self.nonnull(T):
            o.append(f"r matches Ok(p) ==> {i} < p.0, //@{P}")
        if P == "C16" and T == TOK:
            o.append(f"r matches Ok(p) ==> p.1 == t@[{i} as int], //@C16")
        if P == "C15":
            o.append(f"r matches Err(e) ==> goode(t@, {i} as int, e), //@C15")
        if P == "C16":
            o.append(f"out(r) == {st or ('any1(t@, i as int)' if T == TOK else self.p_at(T, i))}, //@C16")
        return "\n  ".join(o)

    def at(self, s):
        return s.replace("(t, ", "(t@, ").replace(" t[", " t@[").replace("t.len()", "t@.len()")

    def p_at(self, T, i):
        return self.at(self.p(T, f"{i} as int"))

    def tt(self, T):
        return self.grab(lambda: self.c.tt(T))

    def stub(self, T):
        n = "parse_" + ("Tok" if T == TOK else mangle(T))
        return (f"#[verifier::external_body]\npub fn {n}(t: &Vec<Tok>, i: usize) -> (r: PR<{self.tt(T)}>)\n  requires i <= t.len()\n  ensures\n  {self.post(T)}\n{{ unimplemented!() }}\n")

    # ---- parse functions ------------------------------------------------------------------------------
    def bro(self):
        if self.prop == "C12":
            l = ["toks"] + (["assoc_l"] if self.till else []) + ["lvdef_" + mangle(T) for T in sorted(self.fconc, key=str)]
            return "broadcast use {" + ", ".join(l) + "};\n"
        return ""

    till = False

    def begin(self, used):
        self.fconc = set(used.get("concrete", {}))

    def parse(self, T):
        r = self.g.fns[T]
        self.begin(r["used"])
        self.till = any(h["kind"] == "many_till" for h in r["helpers"])
        u = dict(r["used"])
        if not self.lv:
            u.pop("lvs", None)
        self.absorb(u)
        out = self.helpers(r, T)
        for M in r["used"].get("parse", {}):
            self.stubs.add(M)
        if r["used"].get("or"):
            self.need["or"] = True
        pre = self.bro()
        if self.prop == "C16":
            e = self.g.rule(T)
            x = self.T.se(e, "i").replace("\n", " ")
            m = mangle(cstspec.strip(T))
            if self.known(T):
                self.need.setdefault("defs", {})[m] = f"pub axiom fn def_{m}(t: Seq<Tok>, i: int) ensures {self.T.pn(cstspec.strip(T))}(t, i) == ({x});"
                pre += f"proof {{ def_{m}(t@, i as int); }}\n"
            # alternatives in another order than the reference's: what each of them starts with, written out
            try:
                c = self.g.norm(self.g.code_expr(T))
            except Exception:
                c = e
            if c != e and alts(c) and sorted(map(str, alts(c))) == sorted(map(str, alts(e))):
                for t in self.g.starts(e):
                    m = mangle(t)
                    self.need.setdefault("defs", {})[m] = f"pub axiom fn def_{m}(t: Seq<Tok>, i: int) ensures {self.T.pn(t)}(t, i) == ({self.T.se(self.g.rule(t), 'i')});".replace("\n", " ")
                    pre += f"proof {{ def_{m}(t@, i as int); }}\n"
        n = mangle(T)
        body = clean(r["body"], self.prop)
        self.names.append("v_parse_" + n)
        return out + f"pub fn v_parse_{n}(t: &Vec<Tok>, i: usize) -> (r: PR<{self.tt(T)}>)\n  requires i <= t.len()\n  ensures\n  {self.post(T)}\n{{\n{pre}{body}\n}}\n"

    def stars_of(self, e, out):
        k = e[0]
        if k in ("star", "till"):
            out.append(e)
        if k in ("ref", "any", "sel", "nsel"):
            return out
        for x in (e[1] if k in ("seq", "alt") else e[1:]):
            self.stars_of(x, out)
        return out

    def helpers(self, r, T):
        out = ""
        hs = [h for h in r["helpers"]]
        ref = None
        for n, h in enumerate(hs):
            kind = h["kind"]
            if kind.startswith("loop"):
                out += self.treeloop(h)
                continue
            E = None
            if self.prop == "C16":
                if h["ex"] is not None:
                    E = self.g.norm(h["ex"])
                else:
                    ref = ref if ref is not None else self.stars_of(self.g.rule(T), [])
                    if n >= len(ref):
                        raise Unsupported("a repetition the reference does not have")
                    E = ref[n]
            out += self.repeat(h, E)
        return out

    def repeat(self, h, E):
        c, P = self.c, self.prop
        name, T, kind = h["name"], h["T"], h["kind"]
        self.names.append(name)
        et = self.tt(T)
        rt = self.tt(h["RT"])
        st = st0 = None
        if P == "C16":
            f = self.T.star(E)
            st, st0 = f"{f}(t@, i0 as int)", f"{f}(t@, i as int)"
            if kind == "many1":
                x = self.at(self.T.se(E[1], "i0 as int"))
                st = f"(match {x} {{ Out::Ok(j) => {f}(t@, j), q => q }})"
        post = [self.post_rep(h, st)]
        req = "i0 <= t.len()"
        if P == "C14":
            req += ", g < i0" if h["strict"] else ", g <= i0"
        inv = ["i0 <= i <= t.len(),", "(v@.len() == 0) == (i == i0)," if kind != "many1" else ""]
        if kind == "many1" and P in ("C14", "C16") and h["gadv"]:
            inv.append("i0 < i,")
        if P == "C14":
            inv.append("g < i0," if h["strict"] else "g <= i0,")
        if P == "C12":
            inv.append(f"flat({self.grab(lambda: c.lvs(T, 'v@'))}) == t@.subrange(i0 as int, i as int), //@C12")
        if P == "C16":
            inv.append(f"{st} == {st0}, //@C16")
        b = self.bro()
        init = push = ""
        if P == "C12":
            l = self.grab(lambda: c.lvs(T, "v@"))
            nm = l[:l.index("(")]
            init = f"proof {{ flat0({l}); }}\n"
            push = f"let ghost old_v = v@;\nlet ghost yy = y.1;\nv.push(y.1);\nproof {{ {nm}_push(old_v, yy); flat_push({nm}(old_v), {self.grab(lambda: c.lv(T, 'yy'))}); }}\n"
        else:
            push = "v.push(y.1);\n"
        unfold = f"proof {{ def_{self.T.star(E)}(t@, i as int); }}\n" if P == "C16" else ""
        body = clean(h["body"], P)
        err = h["err"]
        step = f"if y.0 == i {{ let i = y.0; return Err(NErr::Error({err})); }}\n{push}i = y.0;\n"
        if kind in ("many0", "many1"):
            loop = (f"let r: PR<{et}> = {body};\nmatch r {{\nErr(NErr::Error(_)) => {{ return Ok((i, v)); }}\nErr(e) => {{ return Err(e); }}\nOk(y) => {{\n{step}}}\n}}\n")
        else:
            gt = self.tt(h["GT"])
            gb = clean(h["gbody"], P)
            loop = (f"let rg: PR<{gt}> = {gb};\nmatch rg {{\nOk(z) => {{ return Ok((z.0, (v, z.1))); }}\nErr(NErr::Error(_)) => {{\nlet r: PR<{et}> = {body};\nmatch r {{\n"
                    f"Err(NErr::Error(e)) => {{ return Err(NErr::Error({h['app']})); }}\nErr(e) => {{ return Err(e); }}\nOk(y) => {{\n{step}}}\n}}\n}}\nErr(e) => {{ return Err(e); }}\n}}\n")
        if kind == "many1":
            init += f"let r: PR<{et}> = {body};\nmatch r {{\nErr(NErr::Error(e)) => {{ return Err(NErr::Error({h['app']})); }}\nErr(e) => {{ return Err(e); }}\nOk(y) => {{\n{push}i = y.0;\n}}\n}}\n"
        return (f"pub fn {name}(t: &Vec<Tok>, i0: usize, Ghost(g): Ghost<int>) -> (r: PR<{rt}>)\n  requires {req}\n  ensures\n  {post[0]}\n{{\n{b}let mut i = i0;\nlet mut v: Vec<{et}> = Vec::new();\n{init}"
                f"loop\n  invariant\n  " + "\n  ".join(inv) + f"\n  decreases t.len() - i\n{{\n{b}{unfold}{loop}}}\n}}\n")

    def post_rep(self, h, st):
        p = self.post(h["RT"], "i0", st or "-")
        vec = "p.1@" if h["kind"] != "many_till" else "p.1.0@"
        if h["kind"] == "many0":
            p += f"\n  r matches Ok(p) ==> ({vec}.len() == 0) == (p.0 == i0),"
        if self.prop in ("C14", "C16") and h.get("gadv"):
            p += f"\n  r matches Ok(p) ==> i0 < p.0, //@{self.prop}"
        return p

    # ---- tree functions --------------------------------------------------------------------------------
    def tree_sig(self, short, T, name):
        n = self.tt(T)
        L = self.grab(lambda: self.c.lv(T, "*x"))
        if short in ("fc", "iv"):
            leaf = short == "fc" and self.c.leaf(T)
            e = f"final(f).seen@ == old(f).seen@" + ("" if leaf else f" + {L}")
            return f"pub fn {name}(x: &{n}, f: &mut Vis)\n  ensures {e}, //@C13\n"
        if short == "ex":
            return f"pub fn {name}(x: &{n}) -> (r: bool)\n  requires quiet({L})\n  ensures r == exp({L}), //@C13\n"
        return f"pub fn {name}(x: &{n}) -> (r: Option<u32>)\n  ensures r == {'first' if short == 'st' else 'last'}({L}), //@C13\n"

    def tree(self, key):
        short, T = key
        r = self.g.tree[key]
        u = dict(r["used"])
        u.setdefault("concrete", {})[T] = True
        self.begin(u)
        self.absorb(u)
        for k in r["used"].get("tree", {}):
            self.tstubs.add(k)
        out = "".join(self.treeloop(h) for h in r["helpers"])
        n = f"v_{short}_{mangle(T)}"
        self.names.append(n)
        return out + self.tree_sig(short, T, n) + "{\n" + self.tbro(short) + r["body"] + "\n}\n"

    def tbro(self, short):
        return "broadcast use {" + ", ".join(["sums"] + (["assoc"] if short in ("fc", "iv") else []) + ["lvdef_" + mangle(T) for T in sorted(self.fconc, key=str)]) + "};\n"

    def treeloop(self, h):
        c = self.c
        name, T, rev, goal, kind = h["name"], h["T"], h["rev"], h["goal"], h["kind"][5:]
        self.names.append(name)
        et = self.tt(T)
        lvs = self.grab(lambda: c.lvs(T, "v@"))
        fl = f"flat({lvs})"
        part = f"flat({lvs}.skip(k as int))" if rev else f"flat({lvs}.take(k as int))"
        elv = self.grab(lambda: c.lv(T, "v@[k as int]"))
        if kind == "for":
            sig = f"pub fn {name}(v: &Vec<{et}>, f: &mut Vis)\n  ensures final(f).seen@ == old(f).seen@ + {fl}, //@C13\n"
            inv = f"f.seen@ == old(f).seen@ + {part}, //@C13"
            step, end = f"{h['body']}\n", ""
        elif kind == "any":
            sig = f"pub fn {name}(v: &Vec<{et}>) -> (r: bool)\n  requires quiet({fl})\n  ensures r == exp({fl}), //@C13\n"
            inv = f"quiet({fl}), !exp({part}), //@C13"
            step, end = f"let c = {{ {h['body']} }};\nif c {{ return true; }}\n", "false\n"
        else:
            fn = "first" if goal == "st" else "last"
            sig = f"pub fn {name}(v: &Vec<{et}>) -> (r: Option<u32>)\n  ensures r == {fn}({fl}), //@C13\n"
            inv = f"{part} == nil(), //@C13"
            step, end = f"let c = {{ {h['body']} }};\nif c.is_some() {{ return c; }}\n", "None\n"
        b = self.tbro("fc" if kind == "for" else "")
        lem = f"proof {{ flat_split({lvs}, k as int); assert({lvs}[k as int] == {elv}); }}\n"
        if rev:
            return (sig + f"{{\n{b}let mut k = v.len();\nproof {{ flat_all({lvs}); }}\nwhile k > 0\n  invariant 0 <= k <= v.len(), {inv}\n  decreases k\n{{\n{b}k = k - 1;\n{lem}let e = &v[k];\n{step}}}\n"
                    f"proof {{ flat_all({lvs}); }}\n{end}}}\n")
        return (sig + f"{{\n{b}let mut k: usize = 0;\nproof {{ flat_all({lvs}); }}\nwhile k < v.len()\n  invariant 0 <= k <= v.len(), {inv}\n  decreases v.len() - k\n{{\n{b}{lem}let e = &v[k];\n{step}k = k + 1;\n}}\n"
                f"proof {{ flat_all({lvs}); }}\n{end}}}\n")

    # ---- the other functions ---------------------------------------------------------------------------
    OR = ("requires good(t@, i as int, a), good(t@, i as int, b)\n  ensures good(t@, i as int, r), //@C15\n")

    def or_sig(self, name):
        req = self.OR if self.prop == "C15" else ""
        return f"pub fn {name}(t: &Vec<Tok>, i: usize, a: WL, b: WL) -> (r: WL)\n  {req}"

    def other(self, kind):
        c = self.c
        c.reset()
        c.mode, c.goal, c.start, c.iter_next, c.exits, c.n = "own", None, "i", True, [], 0
        if kind == "or":
            im = c.find_impl("ParseError", WL)
            m = c.method_of(im[0], "or")
            body = c.call_item_top(m, im[1], [Val("a", WL), Val("b", WL)], c.cd)
            self.fconc = set()
            self.names.append("v_or_wl")
            return self.or_sig("v_or_wl") + "{\n" + clean(body, self.prop) + "\n}\n"
        if kind == "tok":
            im = c.find_impl("Parse", TOK)
            m = c.method_of(im[0], "parse")
            body = c.call_item_top(m, im[1], [Val("i", IN, adv=False), Val("ARENA", ARENA)], lambda v: c.mat(v).code)
            self.begin({})
            self.absorb(c.used)
            self.names.append("v_parse_Tok")
            return f"pub fn v_parse_Tok(t: &Vec<Tok>, i: usize) -> (r: PR<Tok>)\n  requires i <= t.len()\n  ensures\n  {self.post(TOK)}\n{{\n{self.bro()}{clean(body, self.prop)}\n}}\n"
        if kind == "cst":
            T = ("adt", "Cst", ())
            it = [x for h, _, x in c.inherent.get("Cst", []) if c.method_of(x, "parse")]
            m = c.method_of(it[0], "parse")
            c.owner = T
            for _ in range(6):
                c.unres, c.used, c.helpers, c.n = False, {}, [], 0
                c.calls.pop(T, None)
                body = c.call_item_top(m, {"Self": T}, [Val("0", IN, adv=False), Val("ARENA", ARENA)], lambda v: c.cd(v))
                if not c.unres:
                    break
            c.calls.pop(T, None)
            body = re.sub(r"assert\([^;\n]*\); //@C14[^\n]*\n", "\n", body)   # nothing calls this one: it is not part of the recursion
            u = dict(c.used)
            self.begin(u)
            if not self.lv:
                u.pop("lvs", None)
            self.absorb(u)
            for M in u.get("parse", {}):
                self.stubs.add(M)
            P = self.prop
            e = []
            if P == "C12":
                e.append(f"r matches Ok(c) ==> {self.grab(lambda: c.lv(T, 'c'))} == t@, //@C12")
            if P == "C15":
                e.append("r matches Err(w) ==> good(t@, 0, w), //@C15")
            if P == "C16":
                e.append(f"r.is_ok() <==> {self.p(ROOT, '0').replace('(t, ', '(t@, ')} == Out::Ok(t.len() as int), //@C16")
            pre = self.bro()
            if P == "C12":
                pre += "proof { assert(t@.subrange(0, t.len() as int) =~= t@); }\n"
            self.names.append("v_cst_parse")
            ens = "  ensures\n  " + "\n  ".join(e) + "\n" if e else ""
            return self.helpers(dict(helpers=c.helpers), ROOT) + f"pub fn v_cst_parse(t: &Vec<Tok>) -> (r: Result<{self.tt(T)}, WL>)\n{ens}{{\n{pre}let i: usize = 0;\n{body}\n}}\n"
        raise Unsupported(kind)

    # ---- declarations ----------------------------------------------------------------------------------
    def decls(self):
        c = self.c
        out, done = [], set()
        body = {}
        # concrete types pull in the types of their fields
        todo = list(self.concrete)
        while todo:
            T = todo.pop()
            if T in body:
                continue
            body[T] = self.grab(lambda: self.struct(T))
            if self.lv:
                body[T] += self.grab(lambda: f"pub broadcast axiom fn lvdef_{mangle(T)}(x: {mangle(T)}) ensures #[trigger] lv_{mangle(T)}(x) == ({c.lvdef(T)});\n")
        lv = ""
        while self.lvs - done:
            for T in sorted(self.lvs - done, key=str):
                done.add(T)
                k = mangle(T)
                ty = self.tt(T)
                e = self.grab(lambda: c.lv(T, "s[k]"))
                e2 = self.grab(lambda: c.lv(T, "x"))
                lv += f"pub open spec fn lvs_{k}(s: Seq<{ty}>) -> Seq<Seq<Tok>> {{ Seq::new(s.len(), |k: int| {e}) }}\n"
                lv += f"pub proof fn lvs_{k}_push(s: Seq<{ty}>, x: {ty}) ensures lvs_{k}(s.push(x)) == lvs_{k}(s).push({e2}) {{ assert(lvs_{k}(s.push(x)) =~= lvs_{k}(s).push({e2})); }}\n"
        for T in sorted(self.adts, key=str):
            k = mangle(T)
            if T in body:
                out.append(body[T])
            else:
                out.append(f"#[verifier::external_body] pub struct {k} {{ _p: usize }}\n")
            if self.lv:
                out.append(f"pub uninterp spec fn lv_{k}(x: {k}) -> Seq<Tok>;\n")
        return "".join(out) + (lv if self.lv else "")

    def struct(self, T):
        c = self.c
        N = c.tt(T)
        fs = c.fields(T)

        def f(l, vis):
            return "{ " + ", ".join(f"{vis}{n}: {c.tt(t)}" for _, t, n in l) + " }"
        if None in fs:
            return f"pub struct {N} {f(fs[None], 'pub ')}\n"
        return f"pub enum {N} {{ " + ", ".join(f"{v} {f(l, '')}" for v, l in fs.items()) + " }\n"

    def text(self):
        out = ""
        for kind, x in self.its:
            label = mangle(x) if kind == "parse" else f"{x[0]}_{mangle(x[1])}" if kind == "tree" else kind
            try:
                snap = (set(self.concrete), set(self.adts), set(self.lvs), set(self.stubs), set(self.tstubs), len(self.names))
                out += self.parse(x) if kind == "parse" else self.tree(x) if kind == "tree" else self.other(kind)
            except Exception as e:
                self.errs[label] = why(e)
                self.concrete, self.adts, self.lvs, self.stubs, self.tstubs = snap[:5]
                del self.names[snap[5]:]
        stubs = "".join(self.stub(T) for T in sorted(self.stubs, key=str))
        for short, T in sorted(self.tstubs, key=str):
            stubs += "#[verifier::external_body]\n" + self.tree_sig(short, T, f"{short}_{mangle(T)}") + "{ unimplemented!() }\n"
        if self.need.get("or"):
            stubs += "#[verifier::external_body]\n" + self.or_sig("or_wl") + "{ unimplemented!() }\n"
        decl = self.decls()
        gram = ""
        if self.prop == "C16":
            stars = self.T.stardefs()
            defs = "\n".join(self.need.get("defs", {}).values())
            gram = "".join(f"pub uninterp spec fn p_{mangle(t)}(t: Seq<Tok>, i: int) -> Out;\n" for t in sorted(self.T.prefs, key=str)) + stars + "\n" + defs + "\n"
        s = self.c.seln
        pre = f"pub const SEL_ZOIDELIMITER: u32 = {s.get('ZoiDelimiter', 4000)};\npub const SEL_ANYTEXT: u32 = {s.get('AnyText', 4001)};\n" + open(os.path.join(HERE, "cst_prelude.rs")).read()
        return ("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, non_camel_case_types, non_snake_case, path_statements)]\nuse vstd::prelude::*;\nverus! { mod m { use vstd::prelude::*;\n"
                + pre + decl + gram + stubs + out + "} }\nfn main() {}\n")
