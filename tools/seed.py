#!/usr/bin/env python3
"""seed.py FILE.json [ID...]: make /verif/seeded/<id>/ from a list of edits and confirm each in a scratch copy of /repo.
Entry: {id, property, needs, what_it_breaks, edits: [[file, old, new]...], demo: bash text}"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# exit 0 when the property holds for the input below, non-zero otherwise (run in /repo after the build)
BIN="$PWD/target/debug/mofmt"
LIB="$PWD/target/debug"
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
entries = json.load(open(sys.argv[1])); only = sys.argv[2:]
for e in entries:
    if only and e["id"] not in only: continue
    d = os.path.join(HERE, "seeded", e["id"])
    S = tempfile.mkdtemp(prefix="seed-"); W = os.path.join(S, "repo")
    shutil.copytree("/repo", W, symlinks=True)
    env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", RUSTUP_TOOLCHAIN="stable")
    ok = True
    for f, old, new in e["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) < 1: print(e["id"], "edit not applicable:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new, 1))
    if not ok: shutil.rmtree(S); continue
    diff = sh("git diff", W).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(PRE + e["demo"].strip() + "\n"); os.chmod(d + "/demo.sh", 0o755)
    for n, t in (e.get("files") or {}).items(): open(os.path.join(d, n), "w").write(t)
    json.dump({k: e[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    b = sh("cargo test --workspace --offline -q", W, env=env)
    bad = sh(f"timeout 120 bash {d}/demo.sh", W)
    sh("git checkout -- .", W); sh("find src -name '*.rs' | xargs touch", W)
    b0 = sh("cargo build --offline -q", W, env=env)
    good = sh(f"timeout 120 bash {d}/demo.sh", W)
    print(e["id"], "tests", "pass" if b.returncode == 0 else "FAIL " + " ".join(x for x in b.stdout.split("\n") if x.startswith("test ") or "panicked" in x)[:200], "| patched demo", bad.returncode, "| clean demo", good.returncode, "" if good.returncode == 0 and bad.returncode else (bad.stdout[-300:], good.stdout[-300:]))
    if b.returncode or good.returncode or not bad.returncode: shutil.rmtree(d)
    shutil.rmtree(S)
