"""Thread pools: every task is run, tasks finish in any order (concurrent.futures)."""
import z3

from .sym import And, Implies, LibV, RecV, Ref, SeqC, SInt, T, Unsupported, int_t

POOL, FUTURE = LibV("concurrent.futures.ThreadPoolExecutor"), LibV("concurrent.futures.Future")
INT = z3.IntSort()


def install(I):
    L, e = I.lib, I.e

    def cpus(I, a, kw, nd):
        e.trusted("multiprocessing.cpu_count is positive")
        n = z3.Int("cpu_count")
        e.assume(n >= 1)
        return SInt(n)
    L["multiprocessing.cpu_count"] = L["os.cpu_count"] = cpus

    def pool(I, a, kw, nd):
        w = a[0] if a else kw.pop("max_workers", None)
        if kw or len(a) > 1:
            raise Unsupported("options of a thread pool")
        if w is not None and e.spec_mode == 0:
            e.oblige("a thread pool has workers", int_t(w) >= 1, nd, kind="safety")
        return RecV(POOL, {})
    L[POOL.name] = pool

    def submit(I, obj, a, kw, nd):
        e.trusted("a task of a thread pool is one call of its function; tasks which share no written state do not affect each other")
        return RecV(FUTURE, {"value": I.call_value(a[0], list(a[1:]), kw, nd)})
    L[f"rec:{POOL.name}.submit"] = submit
    L[f"rec:{FUTURE.name}.result"] = lambda I, obj, a, kw, nd: obj.fields["value"]
    L[f"rec:{POOL.name}.shutdown"] = lambda I, obj, a, kw, nd: None

    def as_completed(I, a, kw, nd):
        if len(a) != 1 or kw:
            raise Unsupported("options of as_completed")
        s = I.seq_of(I.content(a[0]))
        n = s.n if z3.is_expr(s.n) else z3.IntVal(s.n)
        e.trusted("as_completed gives every task once, in any order")
        fin, pos = z3.Function(e.fresh_name("finished"), INT, INT), z3.Function(e.fresh_name("finished_at"), INT, INT)
        j = z3.Int("j!fin")
        e.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), And(0 <= fin(j), fin(j) < n, pos(fin(j)) == j)), patterns=[fin(j)]))
        e.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), And(0 <= pos(j), pos(j) < n, fin(pos(j)) == j)), patterns=[pos(j)]))
        I.completion = (fin, pos)
        return e.alloc(SeqC(n, lambda k: s.get(fin(k))))
    L["concurrent.futures.as_completed"] = as_completed
