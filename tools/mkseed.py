#!/usr/bin/env python3
"""Turn a bug description into a directory under seeded/ and try it out.

usage: mkseed.py make <spec.py>...     write seeded/<id>, try demo and tests in a scratch copy
       mkseed.py check <id> [PROP...]  run checks with the bug applied to /repo, then restore it
"""
import glob, json, os, re, runpy, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed"
REPO = S + "/repo"
SRC = os.environ.get("MKSEED_REPO", "/repo")

DEMO = """#!/bin/sh
# Exits 0 when the library behaves as promised, and with another code otherwise.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/ws" "$work/ws"
find "$work/ws" -name Cargo.toml -exec sed -i "s#@REPO@#$repo#g" {} +
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$work/target}" CARGO_INCREMENTAL=0
cd "$work/ws"
timeout 280 cargo run --offline --quiet --release -p demo
"""
WS = """[workspace]
resolver = "2"
members = ["jf/*"%s, "demo"]

[profile.release]
opt-level = 1
debug = 0
overflow-checks = true
incremental = false
codegen-units = 16
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def closure(deps):
    todo, seen = list(deps), []
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.append(d)
        t = open(f"{V}/ws/{d}/Cargo.toml").read().split("[dev-dependencies]")[0]
        for p in re.findall(r'path = "\.\./\.\./(shims/[\w-]+)"', t):
            todo.append(p)
        for p in re.findall(r'path = "\.\./([\w-]+)"', t):
            todo.append(os.path.dirname(d) + "/" + p)
    return seen


def copy_crate(src, dst, strip):
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
    f = dst + "/Cargo.toml"
    t = open(f).read().replace(f'"{SRC}/', '"@REPO@/')
    if strip:
        t = re.sub(r"\[dev-dependencies\]\n(.*\n)*?(?=\[|\Z)", "", t)
    open(f, "w").write(t)


def fresh_repo():
    shutil.rmtree(REPO, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", SRC, REPO])


def test_ws():
    w = S + "/ws"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for k in ("jf", "shims"):
        shutil.copytree(f"{V}/ws/{k}", f"{w}/{k}")
    for f in glob.glob(w + "/*/*/Cargo.toml"):
        t = open(f).read().replace(f'"{SRC}/', f'"{REPO}/')
        open(f, "w").write(t)
    shutil.copy(f"{V}/ws/Cargo.lock", w)
    open(w + "/Cargo.toml", "w").write(open(f"{V}/ws/Cargo.toml").read().replace(', "h/*"', ""))
    return w


TESTS = {"jf-rescue": "gadgets", "jf-merkle-tree": "gadgets", "jf-pcs": "test-srs", "jf-plonk": "test-srs,test-apis",
         "jf-signature": "gadgets,bls", "jf-elgamal": "gadgets"}


def make(spec, skip_tests=False):
    s = runpy.run_path(spec)["SPEC"]
    d = f"{V}/seeded/{s['id']}"
    fresh_repo()
    for f, a, b in s["edits"]:
        p = f"{REPO}/{f}"
        t = open(p).read()
        if t.count(a) != 1:
            sys.exit(f"{s['id']}: {t.count(a)} matches in {f}")
        open(p, "w").write(t.replace(a, b))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = sh(f"git -C {REPO} diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    cl = closure(["jf/" + x.split()[0] for x in s["deps"] if x.startswith("jf-")])
    for c in cl:
        copy_crate(f"{V}/ws/{c}", f"{d}/ws/{c}", True)
    if os.path.isdir(d + "/ws/shims"):
        t = WS % ', "shims/*"'
    else:
        t = WS % ""
    if s.get("opt"):
        t = t.replace("opt-level = 1", f"opt-level = {s['opt']}")
    open(d + "/ws/Cargo.toml", "w").write(t)
    shutil.copy(f"{V}/ws/Cargo.lock", d + "/ws/Cargo.lock")
    os.makedirs(d + "/ws/demo/src")
    lines = []
    for x in s["deps"]:
        if x.startswith("jf-"):
            n, *feat = x.split()
            fs = (", features = [%s]" % ", ".join(f'"{y}"' for y in feat[0].split(","))) if feat else ""
            lines.append(f'{n} = {{ path = "../jf/{n}"{fs} }}')
        else:
            lines.append(x)
    open(d + "/ws/demo/Cargo.toml", "w").write(
        '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n' + "\n".join(lines) + "\n")
    open(d + "/ws/demo/src/main.rs", "w").write(s["main"].lstrip())
    env = dict(os.environ, DEMO_TARGET_DIR=S + "/demo-target")
    # settle the lock file for this subset of crates
    tmp = S + "/lock"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d + "/ws", tmp)
    for f in glob.glob(tmp + "/**/Cargo.toml", recursive=True):
        t = open(f).read().replace("@REPO@", REPO)
        open(f, "w").write(t)
    r = sh("cargo metadata --offline --format-version 1 >/dev/null", cwd=tmp)
    if r.returncode:
        print(r.stdout)
    shutil.copy(tmp + "/Cargo.lock", d + "/ws/Cargo.lock")
    r1 = sh(d + "/demo.sh", cwd=REPO, env=env)
    sh(f"git -C {REPO} stash -q")
    r0 = sh(d + "/demo.sh", cwd=REPO, env=env)
    sh(f"git -C {REPO} stash pop -q")
    ok = r0.returncode == 0 and r1.returncode not in (0, 124)
    print(s["id"], "demo clean", r0.returncode, "patched", r1.returncode, "" if ok else "BAD")
    if not ok or "error[" in r1.stdout:
        print(r0.stdout[-3000:], "-----", r1.stdout[-3000:])
        ok = False
    else:
        print("   ", r1.stdout.strip().splitlines()[-1][:200] if r1.stdout.strip() else "")
    if ok and not skip_tests:
        w = test_ws()
        for c in s["tests"]:
            f = f"--features {TESTS[c]}" if c in TESTS else ""
            r = sh(f"CARGO_TARGET_DIR={S}/test-target timeout 1500 cargo test --offline --release --lib -p {c} {f}", cwd=w)
            res = re.findall(r"test result: .*", r.stdout)
            print("    tests", c, r.returncode, res[:1] or r.stdout[-1500:])
            if r.returncode:
                print("\n".join(l for l in r.stdout.splitlines() if "panicked" in l or "FAILED" in l)[:1500])
                ok = False
    if not ok:
        print("   NOT USABLE", s["id"])
    return ok


def check(i, props):
    d = f"{V}/seeded/{i}"
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    if not props:
        props = [json.load(open(d + "/meta.json"))["property"]]
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        sys.exit(r.stdout)
    try:
        for p in props:
            r = sh(f"./check {p}", cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "sig=" in l]
            print(i, p, "exit", r.returncode, (v[1][:180] if len(v) > 1 else r.stdout[-300:]))
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in [a for a in sys.argv[2:] if not a.startswith("-")]:
            make(f, "--skip-tests" in sys.argv)
    else:
        check(sys.argv[2], sys.argv[3:])
