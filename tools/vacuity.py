"""Looks for proofs which hold only because their assumptions contradict each other: `false` is added to what every loop iteration and
every contract has to show; a loop or contract for which it is proved on every path is listed.  Run with python3-vt; not a check."""
import collections
import importlib
import os
import pathlib
import sys
import threading

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
os.environ.setdefault("PYVC_REPO", "/repo")


def main(mods):
    import z3
    from pyvc import engine, loops, verify
    engine.side_by_side = lambda text, seconds: ("unknown", None)      # the quick tries only
    init = loops.LoopInv.__init__

    def wrapped(self, inv, *a, **k):
        def also(I, frame, q, entry, *m):
            out = list(inv(I, frame, q, entry, *m))
            if z3.is_expr(q) and not z3.is_int_value(q) and q.num_args():
                out.append((f"VACUOUS {getattr(inv, '__name__', '?')}", z3.BoolVal(False)))
            return out
        init(self, also, *a, **k)
    loops.LoopInv.__init__ = wrapped
    for m in mods:
        mod = importlib.import_module("contracts." + m)
        table = {}
        for q in getattr(mod, "IMPORTS", ()):
            table.update({c.name: c for c in importlib.import_module("contracts." + q).ALL})
        table.update({c.name: c for c in mod.ALL})
        for c in mod.ALL:
            if len(sys.argv) > 2 and sys.argv[2:] and c.name not in sys.argv[2:]:
                continue
            old = c.ensures
            c.ensures = lambda I, ctx, res, old=old: [*old(I, ctx, res), ("VACUOUS result", z3.BoolVal(False))]
            try:
                r = verify.verify(c, table)
            except Exception as ex:     # noqa: BLE001
                print(m, c.name, "not run:", type(ex).__name__, str(ex)[:80], flush=True)
                continue
            finally:
                c.ensures = old
            seen = collections.defaultdict(set)
            for o in r.obligations:
                if "VACUOUS" in o.label:
                    seen[o.label, o.line].add(o.status)
            bad = [k for k, v in seen.items() if v == {"discharged"}]
            if bad or not seen:
                print(m, c.name, r.status, r.why, "CONTRADICTION in" if bad else "nothing added", bad, flush=True)
        print(m, "done", flush=True)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main, args=([sys.argv[1]] if len(sys.argv) > 1 else sorted(
        p.stem for p in (pathlib.Path(__file__).resolve().parent.parent / "contracts").glob("*.py") if p.stem not in ("__init__", "common")),))
    t.start()
    t.join()
