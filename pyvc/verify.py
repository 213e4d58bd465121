"""Runs contracts: generates and discharges the obligations of one function at a time."""
from __future__ import annotations

import fcntl
import json
import os
import re
import tempfile
import time
import traceback

import z3

from . import interp as interp_mod
from .engine import Engine
from .repo import Repo
from .sym import (And, ArrC, FuncV, Implies, ListC, Not, ObjC, Or, PyRaise, RecV, Ref, SBool, SeqC, SF,
                  SInt, SU, T, Unsupported, ViewC)


class Contract:
    """The specification of one function.

    setup(I)            -> (vars, ctx): symbolic arguments satisfying the precondition
    ensures(I, c, res)  -> [(label, z3 Bool)]
    raises(I, c, exc)   -> [(label, z3 Bool)]: what must hold when it raises
    apply(I, f, vars, node): the contract as seen by a caller (None: callers inline the body)
    """
    qual = ""
    uses: tuple = ()
    budget_s = 200
    timeout_ms = 8000

    def setup(self, I):
        raise NotImplementedError

    def ensures(self, I, c, res):
        return []

    def raises(self, I, c, exc):
        return [("does not raise " + exc.name, z3.BoolVal(False))]

    def configure(self, I):
        pass

    apply = None


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.qual = contract.qual
        self.name = getattr(contract, "name", contract.qual)
        self.status = "verified"     # verified / failed / unsupported / error
        self.obligations = []
        self.why = ""
        self.paths = 0
        self.solver_s = 0.0
        self.assumed, self.used, self.inlined = {}, {}, {}
        self.wall = 0.0

    @property
    def failed(self):
        return [o for o in self.obligations if o.status != "discharged"]


def interp_for(contract, eng, repo, table):
    I = interp_mod.Interp(eng, repo)
    for u in contract.uses:
        c = table[u]
        I.contracts[c.qual] = c
    I.target = contract.qual
    contract.configure(I)
    return I


def verify(contract, table=None, size=None, only_gen=False, stop_after=None, select=None):
    """select: a regular expression; only the postconditions it matches are kept (with everything else)."""
    t0 = time.time()
    res = Result(contract)
    eng = Engine(timeout_ms=contract.timeout_ms, size=size, budget_s=contract.budget_s)
    reach = []
    try:
        repo = Repo()
        I = interp_for(contract, eng, repo, table or {})
        try:
            f = repo.find(contract.qual)
        except (KeyError, FileNotFoundError):
            raise Unsupported(f"function {contract.qual} is gone") from None

        def thunk():
            vars_, ctx = contract.setup(I)
            fv = f
            if I.e.pc:
                pass
            I.depth = 0
            n0 = len(eng.pc)
            try:
                out = call_target(I, fv, vars_)
            except PyRaise as ex:
                eng.spec_mode += 1
                try:
                    gs = contract.raises(I, ctx, ex)
                finally:
                    eng.spec_mode -= 1
                for lab, g in gs:
                    eng.oblige(f"on {ex.name}: {lab}", g, ex.node, kind="raise")
                reach.append([f.t for f in eng.pc])
                return
            eng.spec_mode += 1
            try:
                gs = contract.ensures(I, ctx, out)
            finally:
                eng.spec_mode -= 1
            for lab, g in gs:
                eng.oblige(lab, g, f.node, kind="post")
            reach.append([f.t for f in eng.pc])
        res.paths = eng.explore(thunk)
    except Unsupported as ex:
        res.status, res.why = "unsupported", str(ex)
    except RecursionError:
        res.status, res.why = "unsupported", "term too deep"
    except Exception as ex:  # noqa: BLE001  (an engine failure is never a verdict on the code)
        res.status, res.why = "unsupported", f"engine: {type(ex).__name__}: {ex}"
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    res.obligations = [o for o in eng.obligations if select is None or o.kind != "post" or re.search(select, o.label)]
    if getattr(contract, "focus", None):
        res.obligations.sort(key=lambda o: not re.search(contract.focus, o.label))
    res.engine = eng
    res.assumed, res.used, res.inlined = eng.assumed, eng.used_contracts, eng.inlined
    res.wall = time.time() - t0
    if res.status == "unsupported" or only_gen:
        return res
    discharge_all(eng, res.obligations, stop_after)
    res.solver_s = sum(o.time for o in res.obligations)
    if res.failed:
        res.status = "failed"
    # vacuity: at least one explored path must be satisfiable
    ok = False
    for pc in reach[:12]:
        s = eng.solver(2000)
        for a in eng.relevant_axioms(pc):
            s.add(a)
        s.add(*pc)
        s.add(*eng.literal_axioms())
        if s.check() != z3.unsat:
            ok = True
            break
    if not ok:
        res.status, res.why = "vacuous", "no reachable path satisfies the precondition"
    if not res.obligations:
        res.status, res.why = "vacuous", "no obligations were generated"
    res.wall = time.time() - t0
    return res


def discharge_all(eng, obs, stop_after=None):
    """Discharges obligations, in forked children when PYVC_JOBS asks for more than one.

    stop_after: leave the rest unattempted (status None) after so many failures."""
    todo = [o for o in obs if o.status != "discharged"]
    bad = 0
    jobs = min(int(os.environ.get("PYVC_JOBS", "4")), max(1, len(todo) // 4))
    if jobs <= 1:
        for o in todo:
            eng.discharge(o)
            report(o)
            bad += o.status != "discharged"
            if stop_after and bad >= stop_after:
                break
        return
    # a counter file hands out the obligations, so that a slow one does not hold up the others
    pids = []
    with tempfile.TemporaryDirectory(prefix="pyvc_") as d:
        counter = os.path.join(d, "next")
        with open(counter, "w") as f:
            f.write("0")
        for w in range(jobs):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with open(os.path.join(d, f"r{w}"), "w") as out:
                        while (k := take(counter)) < len(todo):
                            o = todo[k]
                            eng.discharge(o)
                            report(o)
                            if o.status != "discharged":
                                bad += 1
                                if stop_after and bad * jobs >= stop_after:
                                    take(counter, len(todo))
                            out.write(json.dumps([k, o.status, str(o.backend), o.time,
                                                  None if o.model is None else str(o.model)[:3000]]) + "\n")
                            out.flush()
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        for w in range(jobs):
            with open(os.path.join(d, f"r{w}")) as f:
                for line in f:
                    try:
                        k, st, be, t, m = json.loads(line)
                    except ValueError:
                        continue
                    todo[k].status, todo[k].backend, todo[k].time, todo[k].model = st, be, t, m
    if stop_after and any(o.status not in (None, "discharged") for o in todo):
        return
    for o in todo:
        if o.status is None:        # its child died: try once more here
            eng.discharge(o)


def take(path, jump=None):
    with open(path, "r+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        k = int(f.read())
        f.seek(0)
        f.write(str(k + 1 if jump is None else max(k, jump)))
        f.truncate()
    return k


def report(ob):
    if os.environ.get("PYVC_DEBUG") and ob.time > 1:
        print(f"    {ob.status} {ob.backend} L{ob.line} {ob.label} {ob.time:.1f}", flush=True)


def call_target(I, f, vars_):
    if "self" in vars_ and f.self_v is None and f.node.args.args and f.node.args.args[0].arg == "self":
        pass
    va = f.node.args
    names = [a.arg for a in [*va.posonlyargs, *va.args, *va.kwonlyargs]]
    extra = {a.arg: vars_[a.arg] for a in (va.vararg, va.kwarg) if a is not None and a.arg in vars_}
    vars_ = {k: v for k, v in vars_.items() if k not in extra}
    given = {k: v for k, v in vars_.items() if k in names}
    missing = [k for k in vars_ if k not in names]
    if missing:
        raise Unsupported(f"{f.qual} no longer takes {missing}")
    bound = I.bind(f, [], given, f.node)
    bound.update(extra)
    return I.run_body(f, bound)


# ------------------------------------------------------------------ symbolic inputs and views
def arr2(I, name, n, d, dtype="float", finite=False, missing=False):
    """A symbolic n x d array (missing: numbers and NaN, but no infinities)."""
    from . import lib_np
    if dtype == "float":
        v = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        if missing:
            m = z3.Function(name + "_missing", z3.IntSort(), z3.IntSort(), z3.BoolSort())
            return lib_np.new(I, (n, d), lambda i, j: SF(v(i, j), z3.If(m(i, j), z3.IntVal(3), z3.IntVal(0))), "float")
        if finite:
            return lib_np.new(I, (n, d), lambda i, j: SF(v(i, j)), "float")
        k = z3.Function(name + "_kind", z3.IntSort(), z3.IntSort(), z3.IntSort())
        a, b = z3.Ints("a!k b!k")
        I.e.axiom(z3.ForAll([a, b], And(k(a, b) >= 0, k(a, b) <= 3), patterns=[k(a, b)]), {k.name()})
        return lib_np.new(I, (n, d), lambda i, j: SF(v(i, j), k(i, j)), "float")
    s = {"bool": z3.BoolSort(), "int": z3.IntSort()}[dtype]
    v = z3.Function(name, z3.IntSort(), z3.IntSort(), s)
    w = SBool if dtype == "bool" else SInt
    return lib_np.new(I, (n, d), lambda i, j: w(v(i, j)), dtype)


def arr1(I, name, n, dtype="float", finite=False, sort=None):
    from . import lib_np
    if dtype == "float":
        v = z3.Function(name, z3.IntSort(), z3.RealSort())
        if finite:
            return lib_np.new(I, (n,), lambda i: SF(v(i)), "float")
        k = z3.Function(name + "_kind", z3.IntSort(), z3.IntSort())
        a = z3.Int("a!k")
        I.e.axiom(z3.ForAll([a], And(k(a) >= 0, k(a) <= 3), patterns=[k(a)]), {k.name()})
        return lib_np.new(I, (n,), lambda i: SF(v(i), k(i)), "float")
    s = {"bool": z3.BoolSort(), "int": z3.IntSort(), "object": sort}[dtype]
    v = z3.Function(name, z3.IntSort(), s)
    w = {"bool": SBool, "int": SInt, "object": SU}[dtype]
    return lib_np.new(I, (n,), lambda i: w(v(i)), dtype)


def seq_of_sort(I, name, n, sort):
    f = z3.Function(name, z3.IntSort(), sort)
    return I.e.alloc(SeqC(n, lambda k: SU(f(k)), ("u", sort.name(), sort))), f


def nat(I, name, lo=0):
    n = z3.Int(name)
    I.e.assume(n >= lo)
    return n


class A:
    """Specification view of an array (state captured now)."""

    def __init__(self, I, ref):
        from . import lib_np
        self.c = lib_np.arr(I, ref)
        self.shape = [lib_np.dim_t(d) for d in self.c.shape]
        self.dtype = self.c.dtype

    def __call__(self, *idx):
        return self.c.elem(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx])

    def b(self, *idx):
        from .sym import bool_t
        return bool_t(self(*idx))

    def i(self, *idx):
        from .sym import int_t
        return int_t(self(*idx))


def define(I, name, sorts, fn, rsort=None):
    """A named specification function: unfolded by the solver where it is mentioned."""
    vs = [I.e.generic("v", s) for s in sorts]       # reductions in the body depend on them
    body = fn(*vs)
    f = z3.Function(I.e.fresh_name(name), *sorts, body.sort() if rsort is None else rsort)
    if vs:
        I.e.axiom(z3.ForAll(vs, f(*vs) == body, patterns=[f(*vs)]), {f.name()})
    else:
        I.e.axiom(f() == body, {f.name()})
    return f


def inr(i, n):
    return And(0 <= i, i < n)


def forall(vs, t):
    return z3.ForAll(vs, t)


def term_eq(I, a, b):
    """Specification equality of two scalars (NaN equals NaN)."""
    from .sym import f_same, is_floaty, bool_t, int_t
    if is_floaty(a) or is_floaty(b):
        return f_same(a, b)
    r = I.eq_t(a, b)
    return T(r) if isinstance(r, bool) else r


def same_arr(I, x, y, label):
    """Elementwise equality of two array views, with shapes."""
    out = [(f"{label}: rank", T(len(x.shape) == len(y.shape)))]
    if len(x.shape) != len(y.shape):
        return out
    vs = [I.e.generic("i") for _ in x.shape]
    for q, (p, r) in enumerate(zip(x.shape, y.shape)):
        out.append((f"{label}: extent {q}", p == r))
    out.append((f"{label}: elements", z3.ForAll(vs, Implies(And(*[inr(v, d) for v, d in zip(vs, x.shape)]),
                                                          term_eq(I, x(*vs), y(*vs))))))
    return out
