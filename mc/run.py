"""python -m mc.run <property> [--tier quick|thorough] [--replay FILE] [--jobs N]

Explores the bounded space of one property over 8 worker processes (fixed,
different PYTHONHASHSEED each), writes evidence/<property>.json and prints the
verdict.  Exit 0: the property held on everything explored.  Exit 1: a line
`VIOLATION property=<id> replay=<path>`."""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def child_env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF)
    return e


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def is_known(prop, v, known):
    for k in known:
        if k["property"] == prop and k["case"] == v["case"]:
            return k
    return None


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    code = (
        "import sys,json\n"
        "from mc import worker\n"
        "r=json.load(open(sys.argv[1]))\n"
        "mod=worker.load(r['property'])\n"
        "st=worker.Stats()\n"
        "m=worker.run_case(mod,r['case'],st,getattr(mod,'CASE_TIMEOUT',120))\n"
        "print(json.dumps(m))\n"
    )
    p = subprocess.run([PY, "-c", code, path], env=child_env(r["hashseed"]), cwd=VERIF,
                       stdout=subprocess.PIPE, text=True)
    if p.returncode:
        sys.exit(2)
    msg = json.loads(p.stdout.strip().splitlines()[-1])
    if msg is None:
        print("replay: property %s holds on %s" % (prop, path))
        return 0
    print("replay: %s" % msg)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.prop, a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mc_")
    stop = os.path.join(tmp, "stop")
    procs = []
    try:
        for s in range(a.jobs):
            out = open(os.path.join(tmp, "out%d" % s), "w+")
            err = open(os.path.join(tmp, "err%d" % s), "w+")
            p = subprocess.Popen([PY, "-m", "mc.worker", a.prop, a.tier, str(seed), str(s), str(a.jobs), stop],
                                 env=child_env(s), cwd=VERIF, stdout=out, stderr=err)
            procs.append((p, out, err))
        results, errors = [], []
        pending = list(procs)
        while pending:
            for t in list(pending):
                p, out, err = t
                if p.poll() is None:
                    continue
                pending.remove(t)
                out.seek(0)
                txt = out.read().strip()
                if p.returncode or not txt:
                    err.seek(0)
                    errors.append(err.read()[-3000:])
                    open(stop, "w").close()
                    continue
                r = json.loads(txt.splitlines()[-1])
                results.append(r)
                if r["violations"]:
                    open(stop, "w").close()
            time.sleep(0.05)
    finally:
        for p, out, err in procs:
            if p.poll() is None:
                p.kill()
            out.close()
            err.close()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    if os.environ.get("MC_TIMES"):
        for r in results:
            print(r["shard"], round(r["wall"], 1), {k: (round(v, 1), round(r["slow"][k], 1)) for k, v in r["ftime"].items()})
    known = known_findings()
    fresh, seen_known = [], []
    for r in results:
        for v in r["violations"]:
            k = is_known(a.prop, v, known)
            if k:
                seen_known.append(k)
            else:
                fresh.append((v, r["hashseed"]))
    if errors and not fresh:
        sys.stderr.write("\n".join(errors) + "\n")
        print("ERROR property=%s: a worker of the check failed" % a.prop)
        sys.exit(2)
    states = set()
    for r in results:
        states.update(r["states"])
    fams, notes = {}, {}
    for r in results:
        for k, v in r["families"].items():
            fams[k] = fams.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    sys.path.insert(0, VERIF)
    meta = PROPS[a.prop] if a.prop in PROPS else {}
    cases = sum(r["cases"] for r in results)
    execs = sum(r["execs"] for r in results)
    steps = sum(r["steps"] for r in results)
    samples = [s for r in results for s in r["samples"]][:6]
    if fresh:
        samples = [v["case"] for v, _ in fresh[:2]] + samples
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": steps,
            "traces_validated_against_impl": execs,
            "cases": cases,
            "cases_per_family": fams,
            "counters": notes,
            "samples": samples,
            "exhaustive": not fresh and not any(r["capped"] for r in results),
            "rule": meta.get("space", ""),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in {json.dumps(k, sort_keys=True): k for k in seen_known}.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    print("%s %s: %d cases, %d executions, %d operations, %d states, %.1f s %s" % (
        a.prop, a.tier, cases, execs, steps, ev["coverage"]["states"], ev["wall_s"], json.dumps(fams)))
    if fresh:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        fresh.sort(key=lambda x: len(json.dumps(x[0]["case"])))
        v, hs = fresh[0]
        body = json.dumps({"property": a.prop, "hashseed": hs, "msg": v["msg"], "case": v["case"]}, indent=1)
        path = os.path.join(d, "%s-%s.json" % (a.prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(body + "\n")
        print("  " + v["msg"][:2000])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        sys.exit(1)
    sys.exit(0)


ASSUMPTIONS = [
    "single-threaded use of the public API",
    "the reference model in mc/ref.py states the documented behaviour",
    "random answers, set orders of demands/LSPs and PYTHONHASHSEED are the only nondeterminism (all owned by mc/env.py)",
]
PROPS = {}
try:
    with open(os.path.join(VERIF, "mc", "spaces.json")) as _f:
        PROPS = json.load(_f)
except FileNotFoundError:
    pass

if __name__ == "__main__":
    main()
