#!/usr/bin/env python3
"""quiet.py SPEC.json [ID..]: behaviour-preserving edits. Applies each to /repo, checks that it compiles, runs the checks,
undoes it (by hand only; no check uses this)"""
import json
import os
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
spec = json.load(open(sys.argv[1]))
only = sys.argv[2:]
for q in spec:
    if only and q["id"] not in only:
        continue
    ok = True
    for f, a, b in q["edits"]:
        s = open(REPO + "/" + f).read()
        if s.count(a) < 1:
            print(q["id"], "EDIT DOES NOT APPLY", f, repr(a[:60]))
            ok = False
            break
        open(REPO + "/" + f, "w").write(s.replace(a, b, 1))
    if ok:
        d = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
        os.makedirs("/verif/quiet", exist_ok=True)
        env = dict(os.environ, CARGO_TARGET_DIR="/tmp/quiet_t" + str(os.getpid()), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode:
            print(q["id"], "DOES NOT COMPILE", r.stderr[:600])
        else:
            open(f"/verif/quiet/{q['id']}.diff", "w").write(d)
            for p in q["props"]:
                r = subprocess.run(["python3", "/verif/check.py", p], capture_output=True, text=True)
                ls = r.stdout.strip().split("\n")
                und = [x.split("(bounded")[0][:150] for x in ls if x.startswith("NOT DECIDED")]
                print(q["id"], p, "rc", r.returncode, ls[-1][:150], flush=True)
                for x in und[:3]:
                    print("    ", x, flush=True)
                if len(und) > 3:
                    print("     ...", len(und), flush=True)
                if r.returncode:
                    for x in ls[:-1]:
                        if "FAIL" in x:
                            print("    ", x[:260], flush=True)
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
