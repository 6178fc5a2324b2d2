"""/repo's current source -> macro-expanded source -> syntax tree (JSON)."""
import glob
import json
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET") or os.path.join(VERIF, "target")


class ExtractError(Exception):
    pass


def copy_repo(dst):
    os.makedirs(dst, exist_ok=True)
    for n in os.listdir(REPO):
        if n in ("target", ".git", "discussions"):
            continue
        s = os.path.join(REPO, n)
        d = os.path.join(dst, n)
        if os.path.isdir(s):
            shutil.copytree(s, d, ignore=shutil.ignore_patterns("target", ".git"), dirs_exist_ok=True)
        else:
            shutil.copy2(s, d)


def cargo(args, cwd, toolchain, target, timeout=600, extra_env=None):
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["RUSTUP_TOOLCHAIN"] = toolchain
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    env.update(extra_env or {})
    return subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


STABLE = "stable-x86_64-unknown-linux-gnu"


def tool_build():
    p = cargo(["build", "--offline", "--release", "--locked"], os.path.join(VERIF, "tools/astdump"), STABLE, os.path.join(TARGET, "astdump"))
    if p.returncode != 0:
        raise ExtractError("astdump does not build: " + p.stderr[-1500:])
    return os.path.join(TARGET, "astdump/release/astdump")


def expand(scratch):
    """scratch/out.rs and the parsed syntax tree of the library crate (macros expanded by rustc)"""
    src = os.path.join(scratch, "src_copy")
    copy_repo(src)
    p = cargo(["rustc", "--lib", "--offline", "--", "-Zunpretty=expanded"], src, "nightly", os.path.join(TARGET, "expand"))
    if p.returncode != 0:
        raise ExtractError("the crate does not compile: " + p.stderr[-1500:])
    out = os.path.join(scratch, "out.rs")
    with open(out, "w") as f:
        f.write(p.stdout)
    exe = tool_build()
    q = subprocess.run([exe, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if q.returncode != 0:
        raise ExtractError("the expanded source does not parse: " + q.stderr[-1500:])
    return json.loads(q.stdout)


def module(ast, *path):
    cur = ast
    for n in path:
        cur = [i for i in cur if i["k"] == "mod" and i["name"] == n][0]["items"]
    return cur
