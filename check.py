#!/usr/bin/env python3
"""Decides one property: python3 check.py ID [--tier quick|thorough] [--replay FILE]

1. Generates the proof obligations of every function under contract from the current source in
   /repo and discharges them (pyvc, z3 / cvc5), one process per function.
2. Replays the same contracts on the real code with seeded concrete cases (and searches harder when
   an obligation fails, to find a failing input).
3. Writes evidence/<ID>.json.  Exit 0: held.  Exit 1: VIOLATION line.
"""
from __future__ import annotations

import argparse
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

REPO = os.environ.get("PYVC_REPO", "/repo")
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
REPO_PY = "/opt/venv/bin/python"
JOBS = max(2, min(8, os.cpu_count() or 2))


NJOBS = [2]


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=f"{ROOT}:{REPO}", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             JUPYTER_PLATFORM_DIRS="1", PYVC_JOBS=str(NJOBS[0]), PYTHONHASHSEED="0", PYVC_REPO=REPO)
    return e


def run_all(cmds, jobs, deadline):
    """Runs (key, argv) with a job limit; returns {key: (returncode or None, stderr tail)}."""
    out, live, todo = {}, {}, list(cmds)
    while todo or live:
        while todo and len(live) < jobs:
            key, argv, cwd = todo.pop(0)
            err = tempfile.TemporaryFile()
            live[key] = (subprocess.Popen(argv, cwd=cwd, env=env(), stdout=subprocess.DEVNULL,
                                          stderr=err, start_new_session=True), err)
        time.sleep(0.05)
        for key, (p, err) in list(live.items()):
            rc = p.poll()
            if rc is None and time.time() > deadline:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                rc = -99
            if rc is not None:
                err.seek(0)
                out[key] = (rc, err.read()[-1500:].decode("utf-8", "replace"))
                err.close()
                del live[key]
    return out


def load(p):
    try:
        return json.loads(pathlib.Path(p).read_text())
    except (OSError, ValueError):
        return None


def concrete(prop, tier, seed, scratch, seconds, jobs, scale=1.0, tag="c"):
    cmds = []
    for k in range(jobs):
        out = scratch / f"{tag}{k}.json"
        cmds.append((f"{tag}{k}", [REPO_PY, "-m", "concrete.run", prop, "--seed", str(seed), "--tier", tier,
                                  "--out", str(out), "--seconds", str(seconds), "--shard", f"{k}/{jobs}",
                                  "--scale", str(scale)], str(scratch)))
    return cmds


def merge(prop, scratch, jobs, tag, rcs):
    tot = {"evaluations": 0, "distinct": 0, "skipped": 0, "known": {}, "failure": None, "samples": [],
           "rules": {}, "per_oracle": {}, "skip_reasons": {}, "crashes": []}
    for k in range(jobs):
        r = load(scratch / f"{tag}{k}.json")
        if r is None:
            tot["crashes"].append(f"shard {k}: rc {rcs.get(f'{tag}{k}')}")
            continue
        for f in ("evaluations", "distinct", "skipped"):
            tot[f] += r[f]
        tot["known"] |= r["known"]
        tot["rules"] |= r["rules"]
        for d in ("per_oracle", "skip_reasons"):
            for n, c in r.get(d, {}).items():
                tot[d][n] = tot[d].get(n, 0) + c
        if r["failure"] and (tot["failure"] is None or r["failure"]["index"] < tot["failure"]["index"]):
            tot["failure"] = r["failure"]
        for s in r["samples"]:
            if len(tot["samples"]) < 4 and s not in tot["samples"]:
                tot["samples"].append(s)
        if r.get("stopped_early"):
            tot["stopped_early"] = True
    return tot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-contracts", action="store_true")
    ap.add_argument("--no-concrete", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif_{prop}_"))
    try:
        if a.replay:
            return replay(a.replay, scratch)
        return check(prop, tier, seed, t0, scratch, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, scratch):
    r = load(path)
    f = r.get("failing_input")
    if not f:
        print(json.dumps(r, indent=1))
        return 1
    out = scratch / "r.json"
    subprocess.run([REPO_PY, "-m", "concrete.run", r["property"], "--seed", str(f["seed"]), "--tier", "quick",
                    "--out", str(out), "--only", f"{f['oracle']}:{f['index']}"], cwd=str(scratch), env=env())
    g = load(out)
    print(json.dumps(g["failure"], indent=1) if g and g["failure"] else "did not fail")
    return 1 if g and g["failure"] else 0


def fname(c):
    return re.sub(r"\W+", "_", c) + ".json"


def check(prop, tier, seed, t0, scratch, a):
    spec = PROPS[prop]
    quick = tier == "quick"
    deadline = t0 + (420 if quick else 3000)
    contracts = [] if a.no_contracts else spec["contracts"]
    cmds = []
    for c in contracts:
        mod, name = c.split(":", 1)
        cmds.append((c, [VT, "-m", "pyvc.worker", mod, name, str(scratch / fname(c)),
                         "1" if quick else "3"], str(ROOT)))
    NJOBS[0] = max(2, JOBS // max(1, len(contracts)))
    cj = max(1, min(spec.get("shards", 4), JOBS))
    con = [] if a.no_concrete else concrete(prop, tier, seed, scratch, spec.get("seconds", 60) if quick else 900,
                                             cj, spec.get("scale", 3.0) if quick else 1.0)
    rcs = run_all(cmds + con, JOBS, deadline)
    results, failed, undecided, vac = [], [], [], []
    for c in contracts:
        r = load(scratch / fname(c))
        if r is None:
            r = {"contract": c, "function": c, "status": "unsupported", "obligations": 0, "discharged": 0,
                 "why": f"verifier did not finish: {rcs.get(c)}", "paths": 0, "solver_s": 0, "backends": {},
                 "failed": [], "assumed": {}, "used_contracts": {}, "inlined": {}, "labels": []}
        results.append(r)
        if r["status"] == "failed":
            failed += [dict(f, contract=r["contract"], function=r["function"]) for f in r["failed"]]
        elif r["status"] == "vacuous":
            vac.append(r)
        elif r["status"] != "verified":
            undecided.append(r)
    cc = merge(prop, scratch, cj, "c", rcs) if con else None
    fail = cc and cc["failure"]
    rounds = 1
    if not fail and con and (failed or vac or undecided):
        # an obligation is not discharged: search harder for a failing input
        left = max(20, min(120 if quick else 600, deadline - time.time() - 10))
        rcs2 = run_all(concrete(prop, tier, seed + 7919, scratch, left, JOBS, 4.0, "d"), JOBS,
                       time.time() + left + 60)
        c2 = merge(prop, scratch, JOBS, "d", rcs2)
        rounds = 2
        for f in ("evaluations", "distinct", "skipped"):
            cc[f] += c2[f]
        cc["known"] |= c2["known"]
        fail = c2["failure"]
    known_file = load(ROOT / "known_findings.json") or {"findings": []}
    listed = {k["key"]: k for k in known_file["findings"] if k.get("property") == prop and k.get("status") == "known"}
    for key, what in (cc["known"] if cc else {}).items():
        if key in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[key]['what']}")
        elif not fail:
            fail = {"oracle": key, "seed": seed, "index": -1, "message": what, "rule": "", "case": "", "traceback": ""}
    violation = None
    if fail or failed or vac:
        d = ROOT / "evidence" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        path = d / f"{prop}.json"
        path.write_text(json.dumps({
            "property": prop, "repo": REPO, "failing_input": fail or None,
            "failed_obligations": failed,
            "vacuous_contracts": [{"contract": v["contract"], "why": v["why"]} for v in vac],
            "replay_cmd": f"python3 {ROOT}/check.py {prop} --replay {path}",
        }, indent=1, default=str))
        violation = f"VIOLATION property={prop} replay={path}" + ("" if fail else " no-failing-input-found")
    write_evidence(prop, tier, seed, t0, spec, results, undecided, cc, rounds, violation)
    for r in results:
        print(f"  {r['status']:<12} {r['contract']}: {r['discharged']}/{r['obligations']} obligations, "
              f"{r['paths']} paths, {r.get('solver_s', 0)} s {r.get('why', '')}")
    if cc:
        print(f"  replay: {cc['evaluations']} cases, {cc['skipped']} skipped {cc['skip_reasons'] or ''} {cc['crashes'] or ''}")
    for f in failed[:8]:
        print(f"  NOT DISCHARGED {f['function']} line {f['line']}: {f['label']} [{f['status']}, {f['backend']}]")
    if fail:
        print(f"  FAILING INPUT {fail['oracle']}[{fail['seed']},{fail['index']}]: {fail['message'][:600]}")
    if violation:
        print(violation)
        return 1
    if not any(r["discharged"] for r in results) and not (cc and cc["evaluations"]):
        print(f"NO ANSWER property={prop}: nothing was discharged and nothing could be replayed")
        return 2
    print(f"OK property={prop} ({time.time() - t0:.1f} s)")
    return 0


def write_evidence(prop, tier, seed, t0, spec, results, undecided, cc, rounds, violation):
    ob = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    trusted, backends = {}, {}
    for r in results:
        for k, v in r["assumed"].items():
            trusted[k] = trusted.get(k, 0) + v
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
    bounded = [f"{r['function']}: {r['why']}" for r in undecided] + list(spec.get("bounded", []))
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": f"{VT} -m pyvc.worker MODULE CONTRACT OUT 1 (run by check.py for each function)",
        "trusted_base": ["pyvc: translation of the Python subset to verification conditions (/verif/pyvc)",
                         "z3 5.x, cvc5 1.4", *sorted(f"library contract assumed: {k} (used {v} times)"
                                                     for k, v in trusted.items())],
        "functions": [{k: r.get(k) for k in ("function", "contract", "status", "why", "obligations", "discharged",
                                             "paths", "solver_s", "backends", "inlined", "used_contracts", "labels")}
                      for r in results],
        "backends": backends,
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "bounded_stand_ins": bounded,
        "explanation": "Obligations are generated from the functions' current source and discharged without a bound; "
                       "'bounded_stand_ins' names what is only checked on the replayed cases.",
    }
    if cc:
        cov |= {"evaluations": cc["evaluations"], "distinct_nontrivial": cc["distinct"],
                "rule": "; ".join(f"{k}: {v}" for k, v in cc["rules"].items())[:4000],
                "samples": cc["samples"] or ["none"], "replay_rounds": rounds,
                "cases_per_oracle": cc["per_oracle"], "skipped": cc["skipped"],
                "skip_reasons": cc["skip_reasons"]}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": spec["level"], "coverage": cov,
          "assumptions": ["machine integers are mathematical integers and floats are extended reals (no rounding)",
                          *spec.get("assumptions", [])],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as ex:  # noqa: BLE001  (a crash of the checker is never a verdict)
        import traceback
        traceback.print_exc()
        sys.exit(2)
