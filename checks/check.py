#!/usr/bin/env python3
"""check.py ID: decide property ID on /repo's current working tree.

Dumps the type-resolved MIR of the current tree, runs the analyses that decide the property, compares
what they report with the known findings, writes evidence/ID.json and exits 0 (held) or 1 (violated)."""
import json, os, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
ENGINE = os.path.join(HERE, "engine/target/release/engine")
DRIVER = os.path.join(HERE, "driver/target/debug/mirdump")

from props import PROPS, CLIENTS


def build():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env["CARGO_NET_OFFLINE"] = "true"
    for v in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        env.pop(v, None)
    for d, tool, args in ((os.path.join(HERE, "driver"), DRIVER, ["+nightly", "build", "--offline"]),
                          (os.path.join(HERE, "engine"), ENGINE, ["build", "--release", "--offline"])):
        r = subprocess.run(["cargo"] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout)
            print("cannot build", d)
            sys.exit(2)


def load_known():
    known = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                known.append(line[len("finding:"):].strip())
    return known


def main():
    pid = sys.argv[1]
    spec = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build()
    work = tempfile.mkdtemp(prefix="mofmt-check-")
    results = {}
    try:
        r = subprocess.run([os.path.join(HERE, "tools/dump.sh"), work], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout)
            print(f"ERROR property={pid}: /repo does not compile")
            sys.exit(2)
        env = dict(os.environ)
        env["ENGINE_TIER"] = tier
        env.update(spec.get("env", {}))
        for c in spec["clients"]:
            if CLIENTS[c]["kind"] == "engine":
                env["ENGINE_SECS"] = str(CLIENTS[c]["secs"][tier])
                p = subprocess.run([ENGINE, work, os.path.join(HERE, "spec/grammar.txt"), c], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                try:
                    results[c] = json.loads(p.stdout)[0]
                except (ValueError, IndexError):
                    # nothing is known about this tree then, so nothing is reported
                    results[c] = {"findings": [], "stats": {}, "undecided": {f"the analysis failed ({p.returncode}): {p.stderr[-400:]}": 1}}
            else:
                mod = __import__(c)
                with open(os.path.join(work, "mofmt-lib.json")) as f:
                    lib = json.load(f)
                with open(os.path.join(work, "mofmt-bin.json")) as f:
                    binary = json.load(f)
                results[c] = mod.run(lib, binary)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = load_known()
    violations, seen_known, undecided = [], [], {}
    for c, res in results.items():
        for f in res["findings"]:
            if pid in f["props"]:
                key = f"property={pid} rule={f['rule']} function={f['func']} {f['msg']}"
                if key in known:
                    seen_known.append(key)
                else:
                    violations.append((key, c, f))
        for k, v in (res.get("undecided") or {}).items():
            undecided[f"{c}: {k}"] = v

    cov = {"explanation": spec["explanation"], "rule": spec["rule"]}
    obligations, samples = 0, []
    for c, res in results.items():
        st = res.get("stats", {})
        cov[c] = st
        obligations += int(st.get("obligations", 0) or 0)
        names = res.get("function_names") or []
        cov[c + "_functions"] = len(names)
        samples += [f"{c}: {n}" for n in names[:12]]
        for k, floor in (CLIENTS[c].get("floors") or {}).items():
            n = int(st.get(k, len(names) if k == "functions" else 0))
            if n < floor and not violations and not res.get("undecided"):
                print(f"ERROR property={pid}: {c} analysed only {n} {k}, at least {floor} expected")
                sys.exit(2)
    cov["obligations"] = obligations
    cov["discharged"] = obligations - len(violations) - len(seen_known)
    cov["undecided"] = undecided
    cov["samples"] = samples[:24] or ["-"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in undecided:
        print(f"UNDECIDED property={pid} {k}")
    for k in sorted(set(seen_known)):
        print(f"KNOWN-FINDING: {k}")
    if violations:
        os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
        path = os.path.join(HERE, "work", pid + ".violations.json")
        with open(path, "w") as f:
            json.dump([{"client": c, **fi} for _, c, fi in violations], f, indent=1)
        for key, c, f in violations[:20]:
            print(f"  {f['func']} ({f['span']}): [{f['rule']}] {f['msg']}")
            for step in (f.get("path") or [])[:12]:
                print(f"      {step}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    print(f"property={pid} held: {obligations} obligations, {sum(cov[c + '_functions'] for c in results)} functions, {ev['wall_s']} s")


main()
