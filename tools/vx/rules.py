"""Extraction of /repo/src/rules.rs (expanded) into Verus + contracts from the reference PEG."""
import re
from .ev import *
from . import peg

PR = Opt(Tup(STR, STR))


class RulesEv(Ev):
    def __init__(self, items, grammar):
        super().__init__()
        self.fns = {i["sig"]["name"]: i for i in items if i["k"] == "fn"}
        self.traits = {}
        for i in items:
            if i["k"] == "impl" and i["tr"] and i["tr"][-1]["id"] == "ParseResultExt":
                for m in i["items"]:
                    if m["k"] == "fn":
                        self.traits[m["sig"]["name"]] = m
        self.consts = {i["name"]: i for i in items if i["k"] == "const"}
        self.g = grammar
        self.fns_out = []
        self.repcount = {}
        self.skipped = []
        self.outlined = {}
        self.rule_input = None

    # names under contract: the reference's nonterminals that exist as plain recognisers
    def contract_fn(self, n):
        n = n.split("::")[-1]
        it = self.fns.get(n)
        if it and n in self.g.rules and len(it["sig"]["params"]) == 1:
            return ("r_" + n, [STR], PR)
        return None

    def lookup_fn(self, n):
        return self.fns.get(n.split("::")[-1])

    def path_value(self, n, e, env):
        if n in self.consts:
            c = self.consts[n]
            return self.lit(strip_ref(c["e"]), self.type_of(c["ty"]))
        return None

    def trait_method(self, name, ty):
        if ty == PR or ty == Opt(None):
            return self.traits.get(name)
        return None

    def type_of(self, t):
        if t is None:
            return None
        k = t["k"]
        if k == "tref":
            return self.type_of(t["e"])
        if k == "tptr":
            return USIZE
        if k == "ttuple":
            return Tup(*[self.type_of(x) for x in t["es"]]) if t["es"] else UNIT
        if k == "timpl" or k == "tfn":
            return ("fn",)
        if k == "tpath":
            s = t["path"][-1]
            n = s["id"]
            if n == "str":
                return STR
            if n in ("usize", "u32", "u8", "bool", "char", "i32", "u64", "isize"):
                return (n,)
            if n == "ParseResult":
                return PR
            if n == "Option":
                return Opt(self.type_of(s["args"][0]))
        return None

    def ev_index(self, e, env, fr, k, want):
        r = self.as_range(e["i"], env)
        if r is None or r["incl"]:
            raise Unsupported("index")

        def got(s):
            if s.ty != STR:
                raise Unsupported("slice of non-str")

            def go(vs):
                a = vs[0]
                b = vs[1]
                return self.bind(f"{s.code}.slice({a}, {b})", STR, k, "sl")
            if r["a"] is None and r["b"] is None:
                return k(s)
            if r["a"] is None:
                return self.ev(r["b"], env, fr, lambda b: go(("0usize", b.code)), USIZE)
            if r["b"] is None:
                return self.ev(r["a"], env, fr, lambda a: go((a.code, f"{s.code}.len()")), USIZE)
            return self.evs([r["a"], r["b"]], env, fr, lambda vs: go((vs[0].code, vs[1].code)), [USIZE, USIZE])
        return self.ev(e["e"], env, fr, got)

    def pred_closure(self, a, env, fr):
        """closure over chars, with its own body as postcondition (only side-effect free expressions)"""
        f = self.static_arg(a, env, fr)
        ch = self.fresh("ch")
        t, ty = self.inline_value(f, [Val(ch, CHAR)], fr)
        t = flatten(t)
        if "let " in t:
            # `{ let x = ch; EXPR }` produced by parameter binding
            raise Unsupported("predicate closure too complex: " + t)
        spec = re.sub(r"(lit_\d+\(\))\.contains_char\(", r"has(\1@, ", t)
        return f"|{ch}: char| -> (b: bool) ensures b == ({spec}) {{ {t} }}"

    def method(self, v, name, e, env, fr, k):
        if not isinstance(v, Val):
            return None
        a = e["args"]
        if v.ty == STR:
            if name == "as_ptr":
                return k(Val(f"{v.code}.as_ptr()", USIZE))
            if name == "len":
                return k(Val(f"{v.code}.len()", USIZE))
            if name == "is_empty":
                return k(Val(f"{v.code}.is_empty()", BOOL))
            if name == "split_at":
                return self.ev(a[0], env, fr, lambda i: self.bind(f"{v.code}.split_at({i.code})", Tup(STR, STR), k), USIZE)
            if name == "chars":
                return k(Val(f"{v.code}.chars()", ("Chars",)))
            if name == "get" and self.as_range(a[0], env):
                return self.str_get(v, self.as_range(a[0], env), env, fr, k)
            if name in ("starts_with", "ends_with"):
                return self.str_at(v, name, a, env, fr, k)
            if name == "contains":
                def got(c):
                    if isinstance(c, Val) and c.ty == CHAR:
                        return k(Val(f"{v.code}.contains_char({c.code})", BOOL))
                    raise Unsupported("str::contains pattern")
                return self.ev(a[0], env, fr, got)
            if name == "trim_start_matches":
                def got(c):
                    if isinstance(c, Val) and c.ty == CHAR:
                        return self.bind(f"{v.code}.trim_start_char({c.code})", STR, k)
                    raise Unsupported("trim pattern")
                return self.ev(a[0], env, fr, got)
        if v.ty == ("Chars",):
            if not self.is_atom(v.code):
                t = self.fresh("it")
                return f"let mut {t} = {v.code};\n" + self.method(Val(t, v.ty), name, e, env, fr, k)
            if name == "find":
                return self.bind(f"{v.code}.find({self.pred_closure(a[0], env, fr)})", Opt(CHAR), k)
            if name == "next":
                return self.bind(f"{v.code}.next()", Opt(CHAR), k)
            if name == "as_str":
                return k(Val(f"{v.code}.as_str()", STR))
        if v.ty == CHAR and name == "len_utf8":
            return k(Val(f"char_len_utf8({v.code})", USIZE))
        if v.ty == USIZE and name == "clone":
            return k(v)
        return None

    def binop(self, op, a, b, ty, k):
        if a.ty == STR and op in ("==", "!="):
            return k(Val(f"({'!' if op == '!=' else ''}{a.code}.eq_str({b.code}))", BOOL))
        return super().binop(op, a, b, ty, k)

    # ---- lifting of loops: contract from the static parser being repeated
    def lift(self, clo, args, k):
        parser, minv = None, "0usize"
        for n, v in clo.env.items():
            if isinstance(v, (Clo, FnRef)):
                if parser is not None:
                    raise Unsupported("loop over several parsers")
                parser = v
            elif v.ty == USIZE and v.lit:
                minv = v.code
        if parser is None or len(args) != 1 or args[0].ty != STR:
            raise Unsupported("loop of unknown shape")
        key = None
        if isinstance(parser, FnRef) and self.contract_fn(parser.name):
            key = parser.name.split("::")[-1]
        else:
            c = self.repcount.get(self.cur, 0) + 1
            self.repcount[self.cur] = c
            key = f"{self.cur}__{c}"
        if key not in self.g.reps:
            raise Unsupported(f"repetition {key} not in the reference grammar")
        mn = int(re.match(r"\d+", minv)[0])
        name = f"l_{key}_{mn}"
        if not any(f[0] == name for f in self.lifted):
            self.lifted.append(None)
            slot = len(self.lifted) - 1
            env = dict(clo.env)
            p = self.fresh("input")
            fr = Frame(True, lambda v: f"return {self.code(v)};", PR)
            fr.star = (key, p)
            pre = self.bind_param(clo.params[0], Val(p, STR), env, STR, fr)
            old, self.inline_depth = self.inline_depth, 0
            body = pre + self.ev(clo.body, env, fr, lambda v: self.code(v), PR)
            self.inline_depth = old
            simple = "__" not in key
            rank = self.g.rank["*" + key]
            nn = mn > 0
            sig = (f"#[verifier::loop_isolation(false)]\npub fn {name}<'a>({p}: Str<'a>) -> (r: Option<(Str<'a>, Str<'a>)>)\n"
                   f"  requires ntc({p})\n  ensures\n    shp({p}, r), //@shape\n{'    prog(' + p + ', r), //@shape' + chr(10) if nn else ''}    conf({p}, r, ({{ let t = star_{key}(strip({p}@)); if t.0 >= {mn} {{ Some(t.1) }} else {{ None }} }})), //@conf\n"
                   f"  decreases strip({p}@).len(), {rank}nat\n")
            self.lifted[slot] = (name, sig + "{\n  broadcast use def_star_" + key + ";\n" + self.finish(body) + "\n}\n", key)
            self.lifted[slot] = (name, hints(self.lifted[slot][1]), key)
        return self.bind(f"{name}({self.code(args[0])})", PR, k, "r")

    def loop_clauses(self, fr, muts, e):
        key, p = getattr(fr, "star", (None, None))
        if key is None:
            raise Unsupported("loop")
        strs = [v.name for v, c in muts if c.ty == STR]
        cnts = [v.name for v, c in muts if c.ty in (("int",), USIZE) and v.init is not None and re.fullmatch(r"\d+(usize)?", v.init.code)]
        ptrs = [v.name for v, c in muts if c.ty == USIZE and v.name not in cnts]
        rest = [(v.name, c.ty) for v, c in muts if v.name not in strs + cnts + ptrs and c.ty]
        offs = any(n.get("k") == "binary" and n["op"] == "-" for n in walk(e))   # offsets rather than addresses
        plain = not ptrs and not rest      # no other variable could hold where the match ends
        inv = [f"ntc({p})"]

        def held(x, ty, guard, s, top=True):
            """what a variable of the loop may say about the part matched so far"""
            if ty[0] == "Opt" and ty[1]:
                inv.append(f"{guard}{x} is None ==> {s}@ == {p}@ && addr({s}) == addr({p})")
                held(f"{x}->0", ty[1], guard + f"{x} is Some ==> ", s, ty[1] not in (USIZE, STR))
            elif ty[0] == "Tup":
                for i, t in enumerate(ty[1]):
                    if t == USIZE:     # where the match starts, where it ends
                        inv.append(f"{guard}({x}).{i} == " + (f"addr({p})" if not offs and i == 0 else f"addr({s})" if not offs else "0" if i == 0 else f"addr({s}) - addr({p})"))
                    elif t:
                        held(f"{x}.{i}" if "->" not in x else f"({x}).{i}", t, guard, s)
            elif ty == USIZE:
                for y in ([f"addr({p})"] + ([f"addr({s})"] if top else [])) if not offs else ["0", f"addr({s}) - addr({p})"]:
                    inv.append(f"{guard}{x} == {y}")
            elif ty == STR:
                inv.append(f"{guard}addr({x}) == addr({p})")
                if top:
                    inv.append(f"{guard}addr({x}) + blen({x}@) == addr({s})")
        for s in strs:
            inv.append(f"suf({p}, {s})")
            inv.append(f"nolc(src({p}).text, pos({p}), pos({s}))")
            inv.append(f"star_{key}(strip({p}@)).1 == star_{key}(strip({s}@)).1")
            for c in cnts:
                inv.append(f"star_{key}(strip({p}@)).0 == {c} + star_{key}(strip({s}@)).0")
                inv.append(f"{c} + strip({s}@).len() <= strip({p}@).len() && {c} + {s}@.len() <= {p}@.len()")
                if plain:
                    inv.append(f"{c} == addr({s}) - addr({p})")
            for q in ptrs:
                inv.append(f"{q} == addr({s})")
                if offs:
                    inv.append(f"{q} == addr({s}) - addr({p})")
            for x, ty in rest:
                held(x, ty, "", s)
        if not strs:
            raise Unsupported("loop without a string cursor")
        t = "  invariant\n" + "".join(f"    {x}, //@cand\n" for x in inv)
        t += f"  decreases strip({strs[0]}@).len()\n"
        return t

    def ev_array(self, e, env, fr, k, want):
        """alternatives of `longest`: those that are a nonterminal of the reference without a
        recogniser of their own are outlined into a function under that nonterminal's contract"""
        top = self.g.rules.get(self.cur)
        if not top or top[0] != "longest" or len(e["es"]) != len(top[1]) or self.rule_input is None:
            return super().ev_array(e, env, fr, k, want)

        def go(i, out):
            if i == len(e["es"]):
                return k(Arr(out))
            alt = top[1][i]
            nxt = lambda v: self.atomize(v, lambda w: go(i + 1, out + [w]))
            if alt[0] == "nt" and alt[1] not in self.fns:
                cur, self.cur = self.cur, alt[1]
                text, ty = self.value_text(e["es"][i], env, fr)
                self.cur = cur
                free = set(re.findall(r"\b[a-z]\w*_\d+\b", text)) - set(re.findall(r"\b(?:let (?:mut )?|\||Some\()(\w+_\d+)", text))
                bound = set()
                for m in re.finditer(r"(?:let |Some\(|Ok\(|\|)([^=|]*?)(?: =|\) =>|: char\|)", text):
                    bound |= set(re.findall(r"\w+_\d+", m[1]))
                free = {x for x in free - bound if not x.startswith(("l_", "lit_", "r_")) or x in text.split()}
                free = {x for x in free if not re.search(r"\b" + x + r"\(", text)}
                if ty == PR and free <= {self.rule_input}:
                    self.outlined[alt[1]] = self.wrap(alt[1], self.rule_input, text)
                    return self.bind(f"r_{alt[1]}({self.rule_input})", PR, nxt, "r")
            return self.ev(e["es"][i], env, fr, nxt)
        return go(0, [])

    def wrap(self, n, p, body):
        nn = not self.g.null[n]
        sig = (f"pub fn r_{n}<'a>({p}: Str<'a>) -> (r: Option<(Str<'a>, Str<'a>)>)\n  requires ntc({p})\n  ensures\n    shp({p}, r), //@shape\n"
               f"{'    prog(' + p + ', r), //@shape' + chr(10) if nn else ''}    conf({p}, r, p_{n}(strip({p}@))), //@conf\n  decreases strip({p}@).len(), {self.g.rank[n]}nat\n")
        return hints(sig + f"{{\n  proof {{ def_p_{n}(strip({p}@)); }}\n{self.finish(body)}\n}}\n")

    # ---- named rules
    def rule(self, n):
        it = self.fns[n]
        self.cur = n
        self.inline_depth = 0
        p = self.rule_input = self.fresh("input")
        env = {}
        fr = Frame(True, lambda v: f"return {self.code(v)};", PR)
        pre = self.bind_param(it["sig"]["params"][0]["pat"], Val(p, STR), env, STR, fr)
        body = pre + self.ev(it["body"], env, fr, lambda v: self.code(v), PR)
        return self.wrap(n, p, body)

    def build(self, only=None):
        out, errors, missing = [], {}, []
        for n in self.g.rules:
            if n not in self.fns:
                missing.append(n)
                continue
            if not self.contract_fn(n):
                errors[n] = "signature"
                continue
            try:
                out.append((n, self.rule(n)))
            except Unsupported as u:
                errors[n] = f"unsupported: {u}"
        for n in missing:
            if n in self.outlined:
                out.append((n, self.outlined[n]))
            else:
                errors[n] = "reference rule has no recogniser in the code"
        for n in errors:
            if n in self.g.rules:      # callers of a recogniser whose body is out of reach see its contract (reported as not proved)
                t = self.wrap(n, self.fresh("input"), "")
                out.append((None, "#[verifier::external_body]\n" + re.sub(r"  decreases .*\n", "", t[:t.index("\n{\n") + 1]) + "{ unimplemented!() }\n"))
        return out, [x for x in self.lifted if x], errors

    def lit_fns(self):
        s = ""
        for v, n in self.lits.items():
            cs = [peg.chlit(c) for c in v]
            s += (f"#[verifier::external_body]\npub fn {n}<'a>() -> (r: Str<'a>) ensures r@ == {n}_s(), forall|c: char| #[trigger] has(r@, c) == ({' || '.join('c == ' + c for c in cs) or 'false'}) {{ unimplemented!() }}\n"
                  f"pub open spec fn {n}_s() -> Seq<char> {{ seq![{', '.join(cs)}] }}\n")
        return s


def hints(text):
    """lemma groups a function body may need, chosen by the operations it contains"""
    h = ""
    if ".find(" in text or ".next(" in text or "trim_start" in text:
        h += "broadcast use grp_find; "
    if "trim_start" in text:
        h += "broadcast use grp_trim; "
    if "best_" in text or re.search(r"\.len\(\) [<>]", text):
        h += "broadcast use grp_cmp; "
    return text.replace("\n{\n", "\n{\n" + h, 1)


def strip_ref(e):
    while e["k"] == "ref":
        e = e["e"]
    return e


def assemble(ev, rules, lifted, nmods=8):
    prelude = open(__file__.rsplit("/", 1)[0] + "/prelude.rs").read()
    src = "use vstd::prelude::*;\nverus! {\n" + prelude + "\n" + ev.lit_fns() + "\n}\n"
    src += "pub mod sp { use vstd::prelude::*; use super::*; verus! {\n" + ev.g.verus() + "\n} }\n"
    frs = [(n, t) for n, t in rules] + [(x[0], x[1]) for x in lifted]
    mods = [[] for _ in range(nmods)]
    for i, x in enumerate(frs):
        mods[i % nmods].append(x)
    for j, m in enumerate(mods):
        uses = "".join(f"use super::m{i}::*; " for i in range(nmods) if i != j)
        src += f"pub mod m{j} {{ use vstd::prelude::*; use super::*; use super::sp::*; {uses}\nverus! {{\nbroadcast use super::grp;\n" + "\n".join(t for _, t in m) + "\n} }\n"
    src += "fn main() {}\n"
    return src
