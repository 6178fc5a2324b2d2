"""PEG reference grammars: parser, well-formedness analysis, and compilation to Verus spec functions.

The grammar text (/verif/spec/*.peg) is the hand-written oracle.  Nothing here reads /repo.
Expression forms (tuples):
  ('nt', name) ('cls', 'abc') ('seq', [..]) ('alt', [..]) ('not', e) ('and', e) ('opt', e)
  ('rep', e, min) ('eof',) ('longest', [..])
"""
import re

TOK = re.compile(r"\s*(?:(?P<cls>\[[^\]]*\])|(?P<rep>\{\d+,\})|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>[/!&?*+()|]))")


def parse_expr(text):
    toks, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SyntaxError(f"peg: {text[i:]!r}")
        toks.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else (None, None)

    def alt(sep="/"):
        nonlocal pos
        xs = [seq()]
        while peek() == ("op", sep):
            pos += 1
            xs.append(seq())
        return xs

    def alte():
        xs = alt()
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq():
        xs = []
        while True:
            t, v = peek()
            if t is None or (t == "op" and v in "/|)"):
                break
            xs.append(prefix())
        return xs[0] if len(xs) == 1 else ("seq", xs)

    def prefix():
        nonlocal pos
        t, v = peek()
        if (t, v) == ("op", "!"):
            pos += 1
            return ("not", prefix())
        if (t, v) == ("op", "&"):
            pos += 1
            return ("and", prefix())
        e = atom()
        while True:
            t, v = peek()
            if t == "op" and v in "?*+":
                pos += 1
                e = ("opt", e) if v == "?" else ("rep", e, 0 if v == "*" else 1)
            elif t == "rep":
                pos += 1
                e = ("rep", e, int(v[1:-2]))
            else:
                return e

    def atom():
        nonlocal pos
        t, v = peek()
        pos += 1
        if t == "cls":
            return ("cls", v[1:-1])
        if t == "id":
            if v == "eof":
                return ("eof",)
            if v == "longest":
                assert peek() == ("op", "(")
                pos += 1
                xs = alt("|")
                assert peek() == ("op", ")")
                pos += 1
                return ("longest", xs)
            return ("nt", v)
        if (t, v) == ("op", "("):
            e = alte()
            assert peek() == ("op", ")"), text
            pos += 1
            return e
        raise SyntaxError(f"peg atom {t} {v} in {text}")

    e = alte()
    assert pos == len(toks), (text, toks[pos:])
    return e


def load(path):
    g = {}
    for line in open(path):
        line = line.split("#")[0] if not re.search(r"\[[^\]]*#", line) else line
        if not line.strip():
            continue
        name, rhs = line.split("=", 1)
        assert name.strip() not in g
        g[name.strip()] = parse_expr(rhs)
    return g


class Grammar:
    def __init__(self, rules):
        self.rules = rules
        self.reps = {}  # key -> elem expr ; key = NT name for simple, "RULE__k" for complex
        self._analyse_null()
        for n, e in rules.items():
            self._number(n, e)
        self._ranks()

    # nullable = may succeed without consuming
    def _analyse_null(self):
        self.null = {n: False for n in self.rules}
        ch = True
        while ch:
            ch = False
            for n, e in self.rules.items():
                v = self.nullable(e)
                if v != self.null[n]:
                    self.null[n] = v
                    ch = True

    def nullable(self, e):
        k = e[0]
        if k == "nt":
            return self.null[e[1]]
        if k == "cls":
            return False
        if k in ("not", "and", "opt", "eof"):
            return True
        if k == "seq":
            return all(self.nullable(x) for x in e[1])
        if k in ("alt", "longest"):
            return any(self.nullable(x) for x in e[1])
        if k == "rep":
            return e[2] == 0 or self.nullable(e[1])
        raise KeyError(k)

    def _number(self, rule, e):
        cnt = [0]

        def go(e):
            k = e[0]
            if k == "rep":
                assert not self.nullable(e[1]), f"nullable repetition in {rule}"
                go(e[1])
                self.reps[self.rep_key(e, rule, cnt)] = e[1]
            elif k in ("seq", "alt", "longest"):
                for x in e[1]:
                    go(x)
            elif k in ("not", "and", "opt"):
                go(e[1])
        go(e)

    def rep_key(self, e, rule, cnt):
        if e[1][0] == "nt":
            return e[1][1]
        key = getattr(self, "_rk", None)
        if key is None:
            key = self._rk = {}
        if id(e) not in key:
            cnt[0] += 1
            key[id(e)] = f"{rule}__{cnt[0]}"
            self._keep = getattr(self, "_keep", []) + [e]
        return key[id(e)]

    def _left(self, e):
        """(set of nodes callable at entry position)"""
        k = e[0]
        if k == "nt":
            return {e[1]}
        if k in ("cls", "eof"):
            return set()
        if k in ("not", "and", "opt"):
            return self._left(e[1])
        if k == "rep":
            return {"*" + self.rep_key(e, None, None)}
        if k in ("alt", "longest"):
            return set().union(*[self._left(x) for x in e[1]])
        if k == "seq":
            s = set()
            for x in e[1]:
                s |= self._left(x)
                if not self.nullable(x):
                    break
            return s
        raise KeyError(k)

    def _ranks(self):
        g = {n: self._left(e) for n, e in self.rules.items()}
        for k, e in self.reps.items():
            g["*" + k] = self._left(e)
        self.rank = {}
        state = {}

        def visit(n, stack):
            if state.get(n) == 2:
                return
            if state.get(n) == 1:
                raise ValueError("left recursion: " + " > ".join(stack + [n]))
            state[n] = 1
            r = 0
            for m in sorted(g[n]):
                visit(m, stack + [n])
                r = max(r, self.rank[m] + 1)
            state[n] = 2
            self.rank[n] = r
        for n in sorted(g):
            visit(n, [])

    # ---- Verus spec functions over Seq<char> -------------------------------------------------
    def verus(self):
        out = []
        for n, e in self.rules.items():
            out.append(f"#[verifier::opaque]\npub open spec fn p_{n}(s: Seq<char>) -> Option<Seq<char>>\n  decreases s.len(), {self.rank[n]}nat\n{{\n  {self._g(e, 's', False, True)}\n}}")
        for k, e in self.reps.items():
            out.append(f"#[verifier::opaque]\npub open spec fn star_{k}(s: Seq<char>) -> (nat, Seq<char>)\n  decreases s.len(), {self.rank['*' + k]}nat\n{{\n  match {self._g(e, 's', False, True)} {{ Some(r) => if r.len() < s.len() {{ (1 + star_{k}(r).0, star_{k}(r).1) }} else {{ (0, s) }}, None => (0, s) }}\n}}")
            if not k in self.rules:
                out.append(f"pub open spec fn elem_{k}(s: Seq<char>) -> Option<Seq<char>> {{\n  {self._g(e, 's', False, None)}\n}}")
        for n, e in self.rules.items():
            rv = " ".join(f"reveal({x});" for x in [f"p_{n}"] + self.callees(e))
            out.append(f"pub proof fn def_p_{n}(s: Seq<char>) ensures p_{n}(s) == ({self._g(e, 's', False, True)}) {{ {rv} }}")
        for k, e in self.reps.items():
            rv = " ".join(f"reveal({x});" for x in sorted({f"star_{k}"} | set(self.callees(e))))
            out.append(f"pub broadcast proof fn def_star_{k}(s: Seq<char>) ensures #[trigger] star_{k}(s) == (match {self._g(e, 's', False, True)} {{ Some(r) => if r.len() < s.len() {{ (1 + star_{k}(r).0, star_{k}(r).1) }} else {{ (0, s) }}, None => (0, s) }}) {{ {rv} }}")
        return "\n".join(out)

    def callees(self, e):
        r = set()

        def go(e):
            if e[0] == "nt":
                r.add("p_" + e[1])
            elif e[0] == "rep":
                r.add("star_" + self.rep_key(e, None, None))
            elif e[0] in ("seq", "alt", "longest"):
                for x in e[1]:
                    go(x)
            elif e[0] in ("not", "and", "opt"):
                go(e[1])
        go(e)
        return sorted(r)

    _n = 0

    def fresh(self):
        Grammar._n += 1
        return f"q{Grammar._n}"

    def _guard(self, v, strict, first, call, none="None::<Seq<char>>"):
        if first is None:  # not inside the recursion: no guard needed
            return call
        if first:
            return call
        return f"(if {v}.len() {'<' if strict else '<='} s.len() {{ {call} }} else {{ {none} }})"

    def _g(self, e, v, strict, first):
        """expression of type Option<Seq<char>> for e at position v. strict: v proved shorter than s; first: v is s"""
        k = e[0]
        if k == "nt":
            return self._guard(v, strict, first, f"p_{e[1]}({v})")
        if k == "cls":
            return f"(if {v}.len() > 0 && (" + " || ".join(f"{v}[0] == {chlit(c)}" for c in e[1]) + f") {{ Some({v}.skip(1)) }} else {{ None }})"
        if k == "eof":
            return f"peof({v})"
        if k == "not":
            return f"(if {self._g(e[1], v, strict, first)} is Some {{ None }} else {{ Some({v}) }})"
        if k == "and":
            return f"(if {self._g(e[1], v, strict, first)} is Some {{ Some({v}) }} else {{ None }})"
        if k == "opt":
            r = self.fresh()
            return f"(match {self._g(e[1], v, strict, first)} {{ Some({r}) => Some({r}), None => Some({v}) }})"
        if k == "rep":
            t = self.fresh()
            call = self._guard(v, strict, first, f"star_{self.rep_key(e, None, None)}({v})", f"(0nat, {v})")
            if e[2] == 0:
                return f"Some({call}.1)"
            return f"({{ let {t} = {call}; if {t}.0 >= {e[2]} {{ Some({t}.1) }} else {{ None::<Seq<char>> }} }})"
        if k == "alt":
            xs = e[1]
            acc = self._g(xs[-1], v, strict, first)
            for x in reversed(xs[:-1]):
                r = self.fresh()
                acc = f"(match {self._g(x, v, strict, first)} {{ Some({r}) => Some({r}), None => {acc} }})"
            return acc
        if k == "longest":
            acc = self._g(e[1][0], v, strict, first)
            for x in e[1][1:]:
                acc = f"plonger({acc}, {self._g(x, v, strict, first)})"
            return acc
        if k == "seq":
            def go(i, v, strict, first):
                if i == len(e[1]) - 1:
                    return self._g(e[1][i], v, strict, first)
                x = e[1][i]
                if x[0] == "not":
                    return f"(if {self._g(x[1], v, strict, first)} is Some {{ None }} else {{ {go(i + 1, v, strict, first)} }})"
                if x[0] == "and":
                    return f"(if {self._g(x[1], v, strict, first)} is Some {{ {go(i + 1, v, strict, first)} }} else {{ None }})"
                r = self.fresh()
                ns = strict or not self.nullable(x)
                nf = None if first is None else False
                return f"(match {self._g(x, v, strict, first)} {{ Some({r}) => {go(i + 1, r, ns, nf)}, None => None }})"
            return go(0, v, strict, first)
        raise KeyError(k)


def chlit(c):
    return {"'": r"'\''", "\\": r"'\\'", "\n": r"'\n'", "\t": r"'\t'", "\r": r"'\r'"}.get(c, f"'{c}'" if 32 <= ord(c) < 127 else "'\\u{%x}'" % ord(c))


if __name__ == "__main__":
    import sys
    g = Grammar(load(sys.argv[1]))
    print(len(g.rules), len(g.reps), sorted(n for n in g.null if g.null[n]))
    print(sorted(g.reps))
    print(max(g.rank.values()))
