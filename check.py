#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree (VERIF_TIER, VERIF_SEED)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from vx import extract, runner, units  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
REPLAY = os.path.join(VERIF, "replay")
PROBE_TARGET = os.path.join(extract.TARGET, "probe")


class Crate(Exception):
    pass


def build_probe(scratch):
    src = os.path.join(VERIF, "probe")
    if extract.REPO != "/repo":
        d = os.path.join(scratch, "probe")
        shutil.copytree(src, d)
        p = os.path.join(d, "Cargo.toml")
        t = open(p).read().replace('path = "/repo"', f'path = "{extract.REPO}"')
        open(p, "w").write(t)
        src = d
    last = ""
    for feats in (["--features", "hooks"], []):
        env = {"RUSTFLAGS": "--cfg sneturfahi_verif"} if feats else {}
        p = extract.cargo(["build", "--release", "--offline"] + feats, src, extract.STABLE, PROBE_TARGET, extra_env=env)
        if p.returncode == 0:
            exe = os.path.join(scratch, "probe_exe")
            shutil.copy2(os.path.join(PROBE_TARGET, "release/probe"), exe)
            return exe, bool(feats)
        last = p.stderr
    raise Crate("the probe does not build against the crate: " + "\n".join(l for l in last.splitlines() if l.startswith("error"))[:1500])


def run_probe(exe, scratch, prop, secs, shards):
    """-> (violation or None, [stats], error)"""
    procs = []
    for i in range(shards):
        out = os.path.join(scratch, f"probe_{prop}_{i}.json")
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ, PROBE_SHARD=str(i), PROBE_SHARDS=str(shards))
        p = subprocess.Popen([exe, "search", prop, str(secs), str(SEED * 1000 + i), os.path.join(VERIF, "spec"), out],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        procs.append((p, out))
    viol, stats, err = None, [], None
    for p, out in procs:
        try:
            so, se = p.communicate(timeout=secs + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            err = "probe timeout"
            continue
        if p.returncode == 1 and os.path.exists(out):
            viol = viol or json.load(open(out))
        elif p.returncode == 0:
            stats += [json.loads(x) for x in so.splitlines()]
        elif p.returncode < 0 and p.returncode != -9 and os.path.exists(out + ".cur"):
            case = open(out + ".cur", errors="replace").read()
            viol = viol or {"property": prop, "case": case, "what": f"the process ended with signal {-p.returncode} (stack exhausted or aborted)"}
        else:
            err = f"probe ended with {p.returncode}: {se[-300:]}"
    return viol, stats, err


def main():
    prop = sys.argv[1]
    P = units.PROPS[prop]
    t0 = time.time()
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        return decide(prop, P, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, P, scratch, t0):
    thorough = TIER == "thorough"
    log = []
    with cf.ThreadPoolExecutor(8) as ex:
        fp = ex.submit(build_probe, scratch)
        fe = ex.submit(extract.expand, scratch)
        try:
            ast = fe.result()
        except extract.ExtractError as e:
            print(f"ERROR: {e}")
            return 2
        jobs = {}
        for u in P["units"]:
            if u in units.SHARDED:
                jobs[u] = ex.submit(verify_shards, u, prop, ast, scratch, thorough)
                continue
            jobs[u] = ex.submit(verify_unit, u, ast, scratch, 8 if len(P["units"]) == 1 else 4, thorough)
        try:
            exe, hooks = fp.result()
        except Crate as e:
            exe, hooks = None, False
            log.append(str(e))
        res = {u: j.result() for u, j in jobs.items()}
    # ---- obligations
    failures, undecided, canary_bad = [], [], []
    for u, (o, fns, errs, info) in res.items():
        for q, why in errs.items():
            undecided.append({"unit": u, "function": q, "why": why})
        if o is None:
            continue
        if o.broken:
            undecided.append({"unit": u, "function": "*", "why": o.broken})
        for f in o.resource:
            undecided.append({"unit": u, "function": f, "why": "solver ran out of resources"})
        if not o.broken and not info["canary"]:
            canary_bad.append(u)
        for f in o.failures:
            if units.counts(prop, P, u, f):
                failures.append(dict(f, unit=u))
            else:
                undecided.append({"unit": u, "function": f["fn"], "why": f"an obligation of another property failed here, and the proof uses it: {f['clause']}"})
    if canary_bad:
        print(f"ERROR: the assumptions of unit {canary_bad} are inconsistent (the canary obligation was proved)")
        return 2
    if exe is None and not failures:
        print("ERROR: " + "; ".join(log))
        return 2
    # ---- replay / bounded stand-in
    viol, stats, err = None, [], None
    if exe:
        if failures:
            secs, shards = 60, 8
        elif undecided:
            secs, shards = (300 if thorough else 60), 8
        else:
            secs, shards = (120 if thorough else 12), 4
        viol, stats, err = run_probe(exe, scratch, prop, secs, shards)
        if err:
            log.append(err)
    rc, line = 0, None
    known = load_known(prop)
    if viol and any(k.get("case") == viol["case"] for k in known):
        viol = None
    if failures or viol:
        rp = os.path.join(REPLAY, f"{prop}.json")
        body = {"property": prop, "failed_obligations": failures, "undecided": undecided, "failing_input": viol,
                "verifier_output": {u: (o.log[-4000:] if o else "") for u, (o, *_r) in res.items()},
                "replay_cmd": None}
        if viol:
            case = os.path.join(REPLAY, f"{prop}.case")
            with open(case, "w") as f:
                f.write(viol["case"])
            body["replay_cmd"] = f"cargo run --release --offline --features hooks (in /verif/probe, RUSTFLAGS='--cfg sneturfahi_verif') -- replay {prop} {case} {VERIF}/spec"
        with open(rp, "w") as f:
            json.dump(body, f, indent=1)
        for f in failures[:12]:
            print(f"FAILED OBLIGATION unit={f['unit']} function={f['fn']} kind={f['kind']}: {f['clause']}")
        if viol:
            print(f"FAILING INPUT {viol['case']!r}: {viol['what']}")
        line = f"VIOLATION property={prop} replay={rp}" + ("" if viol else " no-failing-input-found")
        rc = 1
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    evidence(prop, P, res, failures, undecided, viol, stats, hooks, log, t0)
    for u in undecided:
        print(f"NOT DECIDED BY PROOF unit={u['unit']} function={u['function']}: {u['why'][:300]} (bounded stand-in used)")
    if line:
        print(line)
    else:
        n = sum(o.verified for o, *_ in res.values() if o)
        print(f"OK property={prop}: {n} obligations discharged, {len(undecided)} bounded, {time.time() - t0:.0f} s")
    return rc


def verify_shards(u, prop, ast, scratch, thorough):
    """the syntax-tree unit: many small crates, each verifying some functions against the contracts of all they call"""
    try:
        gen, pieces = units.shards(u, ast, prop)
    except Exception as e:
        return None, [], {"*": f"{type(e).__name__}: {e}"}, {}
    lock = threading.Lock()
    tot = runner.Outcome()
    fns, bad, canary, trusted, stubs = [], {}, [], set(), set()

    def run(piece, name):
        text, names, items = piece
        i = text.rindex("} }\nfn main()")
        d = os.path.join(scratch, u + name)
        os.makedirs(d, exist_ok=True)
        o = runner.verify(os.path.join(d, "s.rs"), text[:i] + CANARY + text[i:], threads=1, timeout=300)
        if o.broken and len(items) > 1:
            h = len(items) // 2
            with lock:
                a, b = gen.piece(prop, items[:h]), gen.piece(prop, items[h:])
            run(a, name + "a")
            run(b, name + "b")
            return
        with lock:
            tot.verified += o.verified
            tot.smt_ms += o.smt_ms
            tot.seconds += o.seconds
            if o.broken:
                for n in names:
                    bad[n] = o.broken[:300]
                return
            canary.append(any(f["fn"] == "vacuity_canary" for f in o.failures))
            tot.failures += [f for f in o.failures if f["fn"] != "vacuity_canary"]
            tot.resource += o.resource
            tot.log += o.log if any(f["fn"] != "vacuity_canary" for f in o.failures) else ""
            fns.extend(names)
            for x in re.findall(r"#\[verifier::external_body\]\s*pub (?:broadcast )?(?:proof )?fn (\w+)", text):
                stubs.add(x)

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda k: run(pieces[k], f"_{k}"), range(len(pieces))))
    errs = dict(gen.problems(prop), **bad)
    have = set(fns)
    for x in stubs - {"visit", "eq_ot", "panics", "some_bool"}:
        if "v_" + x not in have:
            errs.setdefault(x, "its contract is used but was not verified")
    trusted = stubs & {"visit", "eq_ot", "panics", "some_bool"}
    return tot, sorted(fns), errs, {"canary": bool(canary) and all(canary), "trusted": sorted(trusted), "dropped": []}


CANARY = "\nproof fn vacuity_canary() ensures false {}\n"


def verify_unit(u, ast, scratch, threads, thorough):
    try:
        text, fns, errs = units.assemble(u, ast)
    except Exception as e:  # a part of the crate the unit is built from is missing or reshaped
        return None, [], {"*": f"{type(e).__name__}: {e}"}, {}
    i = text.rindex("} }\nfn main()")
    text = text[:i] + CANARY + text[i:]
    d = os.path.join(scratch, u)
    os.makedirs(d, exist_ok=True)
    o = runner.verify(os.path.join(d, u + ".rs"), text, threads=threads, timeout=600 if thorough else 400)
    can = [f for f in o.failures if f["fn"] == "vacuity_canary"]
    o.failures = [f for f in o.failures if f["fn"] != "vacuity_canary"]
    trusted = sorted(set(re.findall(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:broadcast )?(?:proof )?(?:fn|struct) (\w+)", text)))
    return o, fns, errs, {"canary": bool(can), "trusted": trusted, "dropped": o.dropped}


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("open", []) if k["property"] == prop]


def evidence(prop, P, res, failures, undecided, viol, stats, hooks, log, t0):
    ob = sum(o.verified + len(o.failures) + len(o.resource) for o, *_ in res.values() if o) + sum(1 for u in undecided if u["function"] != "*")
    di = sum(o.verified for o, *_ in res.values() if o)
    whole = [u for u in undecided if u["function"] == "*" or True]
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "verus <generated unit> --multiple-errors 4 (Z3 back end), generated from /repo's current source by tools/vx",
        "trusted_base": sorted({f"{u}: {x}" for u, (o, f, e, i) in res.items() for x in i.get("trusted", [])}) + ["Verus 0.2026.09.13 and Z3", "rustc nightly macro expansion, tools/astdump (syn), tools/vx extraction"],
        "units": {u: {"functions_under_contract": f, "obligations_discharged": o.verified if o else 0, "solver_ms": o.smt_ms if o else 0,
                      "verifier_s": round(o.seconds, 1) if o else 0, "verifier_runs": o.rounds if o else 0,
                      "loop_invariant_candidates_dropped": i.get("dropped", []), "not_extracted": e} for u, (o, f, e, i) in res.items()},
        "failed": failures, "bounded_stand_ins": undecided,
        "cross_check": {"bounded": True, "what": "the real code run on generated inputs against the reference semantics; never counted as proved", "hooks": hooks,
                        "evaluations": sum(s["evaluations"] for s in stats), "runs": stats},
        "log": log,
    }
    level = "proof"
    if undecided:
        level = "exploration"
        cov.update({"evaluations": sum(s["evaluations"] for s in stats), "distinct_nontrivial": sum(s["distinct"] for s in stats),
                    "rule": "inputs enumerated over small alphabets and sampled from the reference grammar; distinct inputs counted per shard",
                    "samples": [x for s in stats for x in s["samples"]][:10]})
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": P["assumes"], "wall_s": round(time.time() - t0, 1), "violations": 1 if failures or viol else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
