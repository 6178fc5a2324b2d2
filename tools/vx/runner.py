"""Runs Verus on a generated crate and maps its diagnostics back to functions and contract clauses."""
import json
import os
import re
import subprocess
import time


class Outcome:
    def __init__(self):
        self.ok = False
        self.verified = 0          # queries (one or more per function) accepted
        self.functions = {}        # function -> ms of solver time
        self.failures = []         # dicts: fn, kind, clause, tags, text
        self.resource = []         # functions where the solver ran out of resources
        self.broken = None         # the generated text was not accepted as a program
        self.smt_ms = 0
        self.seconds = 0.0
        self.rounds = 1
        self.dropped = []          # candidate loop invariants that were not inductive
        self.log = ""
        self.retried = []          # functions proved only under another random seed


FNRE = re.compile(r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:(?:open|closed|broadcast|uninterp) )*(?:proof |spec |exec )?fn (\w+)")


def owner(lines, ln):
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = FNRE.match(lines[i])
        if m:
            return m[1]
    return "?"


def run_once(path, text, threads, timeout, extra):
    with open(path, "w") as f:
        f.write(text)
    t0 = time.time()
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "4", "--num-threads", str(threads), "--error-format=json"] + extra
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], "timeout", time.time() - t0
    diags = []
    for line in p.stderr.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    js = None
    i = p.stdout.find("{")
    if i >= 0:
        try:
            js = json.loads(p.stdout[i:])
        except ValueError:
            pass
    return js, diags, p.stderr, time.time() - t0


def verify(path, text, threads=8, timeout=600, extra=()):
    """Verify `text`; loop invariants on lines marked //@cand are candidates and are dropped (Houdini)
    when Verus reports them as not inductive, until the rest is decided."""
    out = Outcome()
    for rnd in range(6):
        out.rounds = rnd + 1
        js, diags, err, secs = run_once(path, text, threads, timeout, list(extra))
        out.seconds += secs
        out.failures, out.resource, out.broken = [], [], None
        if js is None:
            out.broken = "verifier timeout" if err == "timeout" else "verifier produced no result: " + err[-2000:]
            return out
        lines = text.split("\n")
        vr = js.get("verification-results", {})
        out.verified = vr.get("verified", 0)
        out.log = ""
        drop = set()
        for d in diags:
            if d.get("level") != "error" or "aborting due to" in d["message"]:
                continue
            msg = d["message"]
            out.log += d.get("rendered") or msg
            prim = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
            if d.get("code"):
                out.broken = (d.get("rendered") or msg)[:1500]
                continue
            if not prim:
                out.broken = msg
                continue
            s = prim[0]
            ln = s["line_start"]
            src = lines[ln - 1] if ln <= len(lines) else ""
            fn = owner(lines, ln)
            if "rlimit" in msg or "Resource limit" in msg:
                out.resource.append(fn)
                continue
            if "invariant not satisfied" in msg and "//@cand" in src:
                drop.add(ln)
                continue
            kind = ("postcondition" if "postcondition" in msg else "precondition" if "precondition" in msg else
                    "overflow" if "overflow" in msg or "underflow" in msg else "termination" if "decreases" in msg else
                    "invariant" if "invariant" in msg else "assertion" if "assert" in msg else None)
            if kind is None:
                out.broken = (d.get("rendered") or msg)[:1500]
                continue
            if kind == "precondition":
                # primary span: the call or the requires clause of the callee; the caller owns the obligation
                at = [x for x in d["spans"] if (x.get("label") or "").startswith("failed precondition")]
                other = [x for x in d["spans"] if x not in at]
                if other:
                    fn = owner(lines, other[0]["line_start"])
                clause = (at[0]["text"][0]["text"].strip() if at and at[0]["text"] else src.strip())
                src = ""
            else:
                clause = src.strip()
            m = re.search(r"//@(\S+)", lines[ln - 1]) if kind in ("postcondition", "invariant", "assertion") else None
            out.failures.append({"fn": fn, "kind": kind, "clause": re.sub(r"\s*//@\S+", "", clause)[:300], "tag": m[1] if m else None, "message": msg, "line": ln})
        if drop and not out.broken:
            for ln in drop:
                out.dropped.append(lines[ln - 1].strip())
                lines[ln - 1] = ""
            text = "\n".join(lines)
            continue
        break
    real = lambda: [f for f in out.failures if f["fn"] != "vacuity_canary"] + out.resource
    if real() and not out.broken:
        # a proof found under another random seed or with more resources is a proof
        for seed, rl in ((7, 20), (23, 40)) if len({f if isinstance(f, str) else f["fn"] for f in real()}) <= 8 else ():
            js2, diags2, err2, secs2 = run_once(path, text, threads, timeout, list(extra) + ["--rlimit", str(rl), "--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"])
            out.seconds += secs2
            if js2 is None:
                break
            bad = set()
            for d in diags2:
                if d.get("level") == "error" and "aborting due to" not in d["message"]:
                    for x in d["spans"]:
                        bad.add(owner(lines, x["line_start"]))
            if not bad and not js2.get("verification-results", {}).get("success"):
                break
            solved = ({f["fn"] for f in out.failures} | set(out.resource)) - bad - {"vacuity_canary"}
            if solved:
                out.retried = sorted(set(out.retried) | solved)
                out.failures = [f for f in out.failures if f["fn"] not in solved]
                out.resource = [f for f in out.resource if f not in solved]
                out.verified = max(out.verified, js2.get("verification-results", {}).get("verified", 0))
            if not real():
                vr = dict(vr, success=not out.failures)
                break
    smt = js.get("times-ms", {}).get("smt", {})
    out.smt_ms = smt.get("smt-run", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            out.functions[f["function"].split("::")[-1]] = f.get("time", f.get("time-micros", 0) // 1000)
    out.ok = bool(vr.get("success")) and not out.failures and not out.resource and not out.broken
    if not out.ok and not out.failures and not out.resource and not out.broken:
        out.broken = "verifier failed without a diagnostic: " + err[-1500:]
    return out
