"""python -m concrete.run PROP --seed S --tier T --out FILE [--seconds N] [--shard k/n] [--only oracle:index]"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pkgutil
import signal
import sys
import time
import traceback

from . import base


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--seconds", type=float, default=60)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    real_out = sys.stdout
    t0 = time.time()
    import concrete
    for m in pkgutil.iter_modules(concrete.__path__):
        if m.name.startswith("o_"):
            importlib.import_module("concrete." + m.name)
    k, n = map(int, a.shard.split("/"))
    res = {"evaluations": 0, "skipped": 0, "known": {}, "failure": None, "samples": [], "rules": {},
           "per_oracle": {}, "distinct": 0}
    def expired(*_):
        raise AssertionError("no answer within 150 s")
    signal.signal(signal.SIGALRM, expired)
    seen = set()
    todo = []
    for o in base.REG:
        if o.prop != a.prop:
            continue
        if a.only:
            name, idx = a.only.rsplit(":", 1)
            if o.name == name:
                todo.append((o, int(idx)))
            continue
        cnt = max(1, int((o.quick if a.tier == "quick" else o.thorough) * a.scale))
        todo += [(o, i) for i in range(cnt) if i % n == k]
    todo.sort(key=lambda t: t[1])
    for o, i in todo:
        if time.time() - t0 > a.seconds:
            res["stopped_early"] = True
            break
        res["rules"][o.name] = o.rule
        rng = base.rng_for(a.seed, o.name, i)
        case = None
        signal.alarm(150)
        try:
            with base.quiet():
                case = o.gen(rng, i)
                o.check(case)
            res["evaluations"] += 1
            res["per_oracle"][o.name] = res["per_oracle"].get(o.name, 0) + 1
            s = base.show(case)
            if s not in seen:
                seen.add(s)
                res["distinct"] += 1
            if len(res["samples"]) < 3 and not any(x.startswith(o.name + ":") for x in res["samples"]):
                res["samples"].append(f"{o.name}: {s}")
        except base.Skip as ex:
            res["skipped"] += 1
            res.setdefault("skip_reasons", {}).setdefault(f"{o.name}: {ex}", 0)
            res["skip_reasons"][f"{o.name}: {ex}"] += 1
        except base.Known as ex:
            res["evaluations"] += 1
            res["known"].setdefault(ex.key, ex.what)
        except KeyboardInterrupt:
            raise
        except BaseException as ex:  # noqa: BLE001
            res["evaluations"] += 1
            res["failure"] = {"oracle": o.name, "seed": a.seed, "index": i,
                              "rule": o.rule,
                              "message": f"{type(ex).__name__}: {ex}",
                              "case": base.show(case, 6000),
                              "traceback": traceback.format_exc()[-3000:]}
            break
    signal.alarm(0)
    res["wall_s"] = time.time() - t0
    tmp = a.out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=str)
    os.replace(tmp, a.out)
    print("done", res["evaluations"], "failure" if res["failure"] else "", file=real_out)
    real_out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
