#!/usr/bin/env python3
"""mkseed.py SPEC.json : builds /verif/seeded/<id>/ from edits and a demo program and confirms it in a scratch copy of /repo
(builds, stable tests pass, demo passes without and fails with the change).  Only used by hand.
SPEC: {"id","property","needs","breaks","edits":[[file,old,new],..],"demo":"rust program","parse":bool}"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sd"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after a build; exit 0 when the property holds on this input
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
printf '[package]\\nname = "probe"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nsneturfahi = { path = "%s" }\\nbumpalo = "3"\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})))


def main():
    specs = json.load(open(sys.argv[1]))
    for sp in specs if isinstance(specs, list) else [specs]:
        one(sp)


def tests():
    env = {"RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "1",
           "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "RUSTC_WRAPPER": "", "CARGO_TARGET_DIR": S + "/target"}
    p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", S, env)
    return p.returncode, p.stdout


def one(sp):
    if not os.path.isdir(S):
        sh(f"cp -a /repo {S}", "/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", S)
    d = os.path.join(V, "seeded", sp["id"])
    tmp = "/tmp/seed_" + sp["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for f, old, new in sp["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(sp["id"], "BAD EDIT", f, t.count(old), old[:60])
            return
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", S).stdout
    open(tmp + "/patch.diff", "w").write(diff)
    open(tmp + "/demo.sh", "w").write(DEMO)
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/main.rs", "w").write(sp["demo"])
    shutil.copy(V + "/probe/Cargo.lock", tmp + "/Cargo.lock")
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    rc, out = tests()
    if rc != 0:
        print(sp["id"], "TESTS FAIL", [l for l in out.splitlines() if "FAILED" in l or l.startswith("error")][:6])
        return
    p = sh(f"bash {tmp}/demo.sh", S)
    if p.returncode == 0:
        print(sp["id"], "DEMO PASSES WITH PATCH")
        return
    w = p.stdout[-300:]
    sh("git checkout -q -- .", S)
    p = sh(f"bash {tmp}/demo.sh", S)
    if p.returncode != 0:
        print(sp["id"], "DEMO FAILS WITHOUT PATCH", p.stdout[-600:])
        return
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    shutil.rmtree(tmp)
    print(sp["id"], "OK", [l for l in w.splitlines() if l.strip()][-1:])


main()
