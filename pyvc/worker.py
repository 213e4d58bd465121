"""Verifies one contract and writes a JSON summary: python3-vt -m pyvc.worker MODULE NAME OUT"""
import importlib
import json
import os
import re
import sys
import threading


STOP = 3       # failures after which the rest is not attempted


def main():
    mod, name, out, scale = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    name, _, select = name.partition("~")
    sys.setrecursionlimit(20000)
    from .verify import discharge_all, verify
    m = importlib.import_module("contracts." + mod)
    table = {c.name: c for c in m.ALL}
    for extra in getattr(m, "IMPORTS", ()):
        table |= {c.name: c for c in importlib.import_module("contracts." + extra).ALL}
    c = next(x for x in m.ALL if x.name == name)
    c.timeout_ms = int(c.timeout_ms * scale)
    r = verify(c, table, stop_after=STOP, select=select or None)
    while r.status == "failed":          # a slow machine must not look like a broken proof
        r.engine.timeout_ms = int(4 * c.timeout_ms)
        again = [o for o in r.failed if o.status is not None]
        for o in again:
            o.status = None
        discharge_all(r.engine, again)
        r.solver_s += sum(o.time for o in again)
        if any(o.status != "discharged" for o in again):
            break
        r.engine.timeout_ms = c.timeout_ms
        discharge_all(r.engine, r.failed, STOP)
        if not r.failed:
            r.status = "verified"
    focus = getattr(c, "focus", None)
    if focus and r.status == "failed" and not any(o.status is not None and re.search(focus, o.label) for o in r.failed):
        r.status, r.why = "unsupported", "rests on conditions of other properties which are not discharged: " + "; ".join(
            sorted({o.label for o in r.failed if o.status is not None}))[:200]
    res = {"contract": name, "function": r.qual, "status": r.status, "why": r.why, "paths": r.paths,
           "obligations": len(r.obligations), "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall, 2),
           "discharged": sum(o.status == "discharged" for o in r.obligations),
           "backends": {}, "failed": [], "assumed": r.assumed, "used_contracts": r.used,
           "inlined": r.inlined, "labels": sorted({o.label for o in r.obligations if o.kind == "post"})}
    for o in r.obligations:
        if o.status == "discharged":
            res["backends"][o.backend] = res["backends"].get(o.backend, 0) + 1
        elif o.status is not None:
            f = {"label": o.label, "line": o.line, "status": o.status, "backend": str(o.backend),
                 "kind": o.kind, "goal": str(o.goal)[:1500]}
            if o.model is not None:
                f["model"] = str(o.model)[:3000]
            res["failed"].append(f)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    os._exit(0)


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(3)
