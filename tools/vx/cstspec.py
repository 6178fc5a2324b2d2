"""The reference token grammar spec/cst.peg: parsing, normalisation, well-formedness, and its text as Verus specifications."""
import hashlib
import re

TOKRE = re.compile(r"\s*(?:([A-Za-z_]\w*)|'(\w+)'|\[\^([^\]]*)\]|(.))")


class SpecError(Exception):
    pass


def norm(e):
    """flattened sequences and choices"""
    k = e[0]
    if k in ("seq", "alt"):
        o = []
        for x in e[1]:
            x = norm(x)
            if x[0] == k:
                o += x[1]
            else:
                o.append(x)
        return o[0] if len(o) == 1 else (k, tuple(o))
    if k in ("ref", "any", "sel", "nsel"):
        return e
    return (k,) + tuple(norm(x) for x in e[1:])


def strip(t):
    """a type without its boxes"""
    k = t[0]
    if k == "Box":
        return strip(t[1])
    if k == "Tup":
        return ("Tup", tuple(strip(x) for x in t[1]))
    if k == "adt":
        return ("adt", t[1], tuple(strip(x) for x in t[2]))
    if k in ("Opt", "Vec"):
        return (k, strip(t[1]))
    return t


def ref(t):
    """the grammar expression of a type"""
    t = strip(t)
    if t[0] == "Tup":
        return ("seq", tuple(ref(x) for x in t[1]))
    if t[0] == "Opt":
        return ("opt", ref(t[1]))
    if t[0] == "adt":
        return ("ref", t)
    return ("any",)


class Spec:
    def __init__(self, text):
        self.rules, self.types, self.generic = {}, {}, {}
        self.memo = {}
        for line in text.split("\n"):
            line = line.split("#")[0].strip()
            if not line:
                continue
            if line.startswith("words "):
                e, ws = line[6:].split(" : ")
                for w in ws.split():
                    self.rules[w] = ([], re.sub(r"\bWORD\b", f"'{w}'", e))
                continue
            h, e = line.split(" = ", 1)
            if h.startswith("type "):
                self.types[h[5:].strip()] = e
                continue
            m = re.fullmatch(r"(\w+)(?:<([\w, ]+)>)?", h)
            if not m or m[1] in self.rules:
                raise SpecError(f"rule head {h}")
            self.rules[m[1]] = ([v.strip() for v in m[2].split(",")] if m[2] else [], e)

    # ---- parsing ---------------------------------------------------------------------------
    def toks(self, s):
        out = []
        for m in TOKRE.finditer(s.strip()):
            if m[1]:
                out.append(("id", m[1]))
            elif m[2]:
                out.append(("sel", m[2]))
            elif m[3] is not None:
                out.append(("nsel", tuple(m[3].split())))
            elif m[4].strip():
                out.append(("op", m[4]))
        return out

    def parse(self, s, env):
        ts = self.toks(s)
        pos = [0]

        def peek():
            return ts[pos[0]] if pos[0] < len(ts) else ("end", "")

        def take(v=None):
            t = peek()
            if v is not None and t != ("op", v):
                raise SpecError(f"expected {v} in {s}")
            pos[0] += 1
            return t

        def typ():
            if peek() == ("op", "("):
                take()
                xs = [typ()]
                while peek() == ("op", ","):
                    take()
                    xs.append(typ())
                take(")")
                return ("Tup", tuple(xs))
            k, n = take()
            if k != "id":
                raise SpecError(f"type in {s}")
            args = []
            if peek() == ("op", "<"):
                take()
                args.append(typ())
                while peek() == ("op", ","):
                    take()
                    args.append(typ())
                take(">")
            if n in env:
                return env[n]
            if n == "Option":
                return ("Opt", args[0])
            if n in self.types:
                return self.parse_type(self.types[n])
            return ("adt", n, tuple(args))

        def alt():
            xs = [seq()]
            while peek() == ("op", "/"):
                take()
                xs.append(seq())
            return ("alt", tuple(xs)) if len(xs) > 1 else xs[0]

        def seq():
            xs = []
            while peek()[0] != "end" and peek() not in (("op", "/"), ("op", ")"), ("op", ",")):
                xs.append(post())
            return ("seq", tuple(xs))

        def post():
            if peek() == ("op", "!"):
                take()
                return ("not", post())
            if peek() == ("op", "^"):
                take()
                return ("cut", post())
            e = prim()
            while peek() in (("op", "?"), ("op", "*"), ("op", "+")):
                _, o = take()
                e = ("opt", e) if o == "?" else ("star", e) if o == "*" else ("seq", (e, ("star", e)))
            return e

        def prim():
            k, v = peek()
            if k in ("sel", "nsel"):
                take()
                return (k, v)
            if (k, v) == ("op", "."):
                take()
                return ("any",)
            if (k, v) == ("op", "("):
                take()
                e = alt()
                take(")")
                return e
            if k == "id" and v in ("nonempty", "till"):
                take()
                take("(")
                a = alt()
                if v == "till":
                    take(",")
                    b = alt()
                    take(")")
                    return ("till", a, b)
                take(")")
                return ("nonempty", a)
            return ref(typ())
        self._typ = typ
        e = alt()
        if pos[0] != len(ts):
            raise SpecError(f"trailing text in {s}")
        return norm(e)

    def parse_type(self, s):
        e = self.parse(s, {})
        if e[0] != "ref":
            raise SpecError(f"type {s}")
        return e[1]

    def rule(self, t):
        """normalised expression of type t (boxes stripped), or None"""
        if t in self.memo:
            return self.memo[t]
        r = None
        if t[0] == "adt" and t[1] in self.rules:
            vs, e = self.rules[t[1]]
            if len(vs) == len(t[2]):
                r = self.parse(e, dict(zip(vs, t[2])))
        self.memo[t] = r
        return r

    def closure(self, roots):
        seen, todo = [], list(roots)
        while todo:
            t = todo.pop(0)
            if t in seen:
                continue
            seen.append(t)
            e = self.rule(t)
            if e is None:
                raise SpecError(f"no rule for {t}")
            todo += refs(e)
        return seen

    def wellformed(self, root):
        """the rules define p_N: no left recursion.  Returns the rules that may match without taking a token"""
        ts = self.closure([root])
        null = set()
        while True:
            add = {t for t in ts if t not in null and nullable(self.rule(t), null)}
            if not add:
                break
            null |= add
        left = {t: set(lefts(self.rule(t), null)) for t in ts}
        done, path = set(), set()

        def dfs(t):
            if t in done:
                return
            if t in path:
                raise SpecError(f"left recursion at {t[1]}")
            path.add(t)
            for u in left[t]:
                dfs(u)
            path.discard(t)
            done.add(t)
        for t in ts:
            dfs(t)
        return ts, null


def refs(e):
    if e[0] == "ref":
        return [e[1]]
    if e[0] in ("any", "sel", "nsel"):
        return []
    xs = e[1] if e[0] in ("seq", "alt") else e[1:]
    return [r for x in xs for r in refs(x)]


def nullable(e, null):
    k = e[0]
    if k == "ref":
        return e[1] in null
    if k in ("any", "sel", "nsel", "nonempty"):
        return False
    if k in ("star", "opt", "not"):
        return True
    if k == "seq":
        return all(nullable(x, null) for x in e[1])
    if k == "alt":
        return any(nullable(x, null) for x in e[1])
    if k == "till":
        return nullable(e[2], null)
    return nullable(e[1], null)


def lefts(e, null):
    """rules tried at the position where e starts"""
    k = e[0]
    if k == "ref":
        return [e[1]]
    if k in ("any", "sel", "nsel"):
        return []
    if k == "seq":
        out = []
        for x in e[1]:
            out += lefts(x, null)
            if not nullable(x, null):
                break
        return out
    if k == "alt":
        return [r for x in e[1] for r in lefts(x, null)]
    return [r for x in e[1:] for r in lefts(x, null)]


def show(e):
    k = e[0]
    if k == "ref":
        return "@" + str(e[1])
    if k in ("any",):
        return "."
    if k in ("sel", "nsel"):
        return f"{k}:{e[1]}"
    xs = e[1] if k in ("seq", "alt") else e[1:]
    return f"{k}({','.join(show(x) for x in xs)})"


def hsh(e):
    return hashlib.sha256(show(e).encode()).hexdigest()[:10]


class Text:
    """Verus text of grammar expressions; stars become functions of their own"""

    def __init__(self, seln, mangle, resolve):
        self.seln, self.mangle, self.resolve = seln, mangle, resolve
        self.stars, self.prefs, self.n = {}, {}, 0

    def sel(self, s):
        if s not in self.seln:
            raise SpecError(f"the reference names selmaho {s}, which the code does not have")
        return f"{self.seln[s]}u32"

    def pn(self, t):
        self.prefs[t] = True
        return "p_" + self.mangle(t)

    def star(self, e):
        h = ("st_" if e[0] == "star" else "tl_") + hsh(e)
        if h not in self.stars:
            self.stars[h] = None
            self.stars[h] = e
        return h

    def se(self, e, p):
        """outcome of e at position p"""
        k = e[0]
        if k == "ref":
            return f"{self.pn(e[1])}(t, {p})"
        if k == "any":
            return f"any1(t, {p})"
        if k == "sel":
            return f"one(t, {p}, {self.sel(e[1])})"
        if k == "nsel":
            c = " && ".join(f"t[{p}].selmaho != {self.sel(s)}" for s in e[1])
            return f"(if 0 <= {p} < t.len() && {c} {{ Out::Ok({p} + 1) }} else {{ Out::No }})"
        if k in ("star", "till"):
            return f"{self.star(e)}(t, {p})"
        self.n += 1
        j = f"j{self.n}"
        if k == "seq":
            if not e[1]:
                return f"Out::Ok({p})"
            if len(e[1]) == 1:
                return self.se(e[1][0], p)
            a = self.se(e[1][0], p)
            return f"(match {a} {{ Out::Ok({j}) => {self.se(('seq', e[1][1:]), j)}, q => q }})"
        if k == "alt":
            if len(e[1]) == 1:
                return self.se(e[1][0], p)
            return f"(match {self.se(e[1][0], p)} {{ Out::No => {self.se(('alt', e[1][1:]), p)}, q => q }})"
        a = self.se(e[1], p)
        if k == "opt":
            return f"(match {a} {{ Out::No => Out::Ok({p}), q => q }})"
        if k == "not":
            return f"(match {a} {{ Out::Ok(_) => Out::No, Out::No => Out::Ok({p}), q => q }})"
        if k == "cut":
            return f"(match {a} {{ Out::No => Out::Cut, q => q }})"
        if k == "nonempty":
            return f"(match {a} {{ Out::Ok({j}) => if {j} > {p} {{ Out::Ok({j}) }} else {{ Out::No }}, q => q }})"
        raise SpecError(f"expression {k}")

    def stardefs(self):
        """declarations and defining axioms of the stars met so far (and those inside them)"""
        out, done = [], set()
        while True:
            todo = [h for h in self.stars if h not in done]
            if not todo:
                break
            for h in todo:
                done.add(h)
                e = self.stars[h]
                out.append(f"pub uninterp spec fn {h}(t: Seq<Tok>, i: int) -> Out;")
                x = self.se(e[1], "i")
                step = f"match {x} {{ Out::Ok(j) => if j > i {{ {h}(t, j) }} else {{ Out::No }}, Out::No => %s, q => q }}"
                if e[0] == "star":
                    d = step % "Out::Ok(i)"
                else:
                    d = f"match {self.se(e[2], 'i')} {{ Out::No => {step % 'Out::No'}, q => q }}"
                out.append(f"pub axiom fn def_{h}(t: Seq<Tok>, i: int) ensures {h}(t, i) == ({d});")
        return "\n".join(out)


def flat(spec, root, mangle):
    """one rule per line: name, tab, expression in prefix form"""
    def sx(e):
        k = e[0]
        if k == "ref":
            return f"(r {mangle(e[1])})"
        if k == "any":
            return "(any)"
        if k == "sel":
            return f"(s {e[1]})"
        if k == "nsel":
            return "(n " + " ".join(e[1]) + ")"
        xs = e[1] if k in ("seq", "alt") else e[1:]
        return f"({k} " + " ".join(sx(x) for x in xs) + ")" if xs else f"({k})"
    ts, _ = spec.wellformed(root)
    return "".join(f"{mangle(t)}\t{sx(spec.rule(t))}\n" for t in ts)
