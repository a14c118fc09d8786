#!/usr/bin/env python3
"""catch.py [ID...]: run the check of each planted bug's property on a scratch copy with the bug applied; print what is caught."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
    W = tempfile.mkdtemp(prefix="catch-")
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {W}; cp /repo/Cargo.lock {W}/; cd {W}; git init -q; git apply {S}/{i}/patch.diff", shell=True, check=True)
    t = time.time()
    r = subprocess.run(["python3", os.path.join(HERE, "checks/check.py"), prop], cwd=HERE, env=dict(os.environ, MOFMT_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [l for l in r.stdout.splitlines() if l.startswith("  ") and not l.startswith("      ")]
    print(i, prop, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else f"missed rc={r.returncode}", f"{time.time()-t:.0f}s", (lines or [r.stdout[-300:]])[0][:200], flush=True)
    shutil.rmtree(W)
