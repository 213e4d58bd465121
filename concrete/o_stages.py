"""C01-C09: schedule resolution and running, on random stage graphs and random call histories."""
import copy
from typing import NamedTuple

import numpy as np

from .base import Skip, find, need, oracle


class Box:
    """A mutable object of the user's own."""

    def __init__(self, *items):
        self.items = list(items)

    def __eq__(self, other):
        return isinstance(other, Box) and self.items == other.items

    def __repr__(self):
        return f"Box{self.items}"


def val(*parts):
    """A value which can be changed at every level."""
    return [*parts, [[0]], {"k": [0]}, Box(0, [0])]


def tamper(v):
    """Change everything a value holds."""
    if isinstance(v, list):
        for x in list(v):
            tamper(x)
        v.append("tampered")
    elif isinstance(v, dict):
        for x in list(v.values()):
            tamper(x)
        v["new"] = "tampered"
    elif isinstance(v, Box):
        tamper(v.items)


class World:
    """Random stage classes over a pool of argument names, all behaviour recorded in `log`."""

    def __init__(self, spec, trick=False):
        from instancespace.stages.stage import RunAfter, RunBefore, Stage
        self.log, self.count, self.fail_on = [], {}, {}
        self.cls = {}
        self.spec = spec
        world = self
        for name in spec["order"]:
            self.cls[name] = type(name, (Stage,), {})
        self.name = {c: n for n, c in self.cls.items()}
        ty = {a: t for a, t in spec["types"].items()}
        for name, s in spec["stages"].items():
            ins = [(a, ty[a]) for a in s["ins"]]
            for k, t in enumerate(s["before"]):
                ins.append((f"rb{k}", RunBefore[self.cls[t]]))
            for k, t in enumerate(s["after"]):
                ins.append((f"ra{k}", RunAfter[self.cls[t]]))
            if s.get("marker_first"):
                ins = ins[::-1]
            outs = [(a, ty[a]) for a in s["outs"]]
            IN, OUT = NamedTuple("In", ins), NamedTuple("Out", outs)

            def run(inputs, name=name, s=s, OUT=OUT):
                k = world.count.get(name, 0)
                world.count[name] = k + 1
                got = inputs._asdict()
                world.log.append((name, {a: copy.deepcopy(got[a]) for a in s["ins"]}))
                if s.get("mutates"):
                    for a in s["ins"]:
                        tamper(got[a])
                if world.fail_on.get(name) == k:
                    raise RuntimeError("stage failed")
                return OUT(**{a: val(name, a, k) for a in s["outs"]})
            c = self.cls[name]
            c._inputs = staticmethod(lambda IN=IN: IN)
            c._outputs = staticmethod(lambda OUT=OUT: OUT)
            c._run = staticmethod(run)
        for c in self.cls.values():
            c.__abstractmethods__ = frozenset()
        self.INIT = NamedTuple("Init", [(a, ty[a]) for a in spec["init"]])

    def initial(self, tag):
        return self.INIT(**{a: val("init", a, tag) for a in self.spec["init"]})

    def builder(self, order=None):
        from instancespace.stage_builder import StageBuilder
        b = StageBuilder()
        for n in (order or self.spec["order"]):
            if n in self.spec["stages"]:
                b.add_stage(self.cls[n])
        return b

    def steps(self, runner):
        o = getattr(runner, "_stage_order", None)
        if o is None:
            raise Skip("the schedule is not visible")
        return [[self.name[s] for s in e] for e in o]


def g_graph(rng, i, markers=0.4, rewrite=0.3, clash=0.2, missing=0.1, nmax=7):
    n = int(rng.integers(1, nmax + 1))
    names = [f"S{k}" for k in range(n)]
    pool = [f"v{k}" for k in range(int(rng.integers(2, 9)))]
    types = {a: [int, float, list, dict][k % 4] for k, a in enumerate(pool)}
    init = [a for a in pool if rng.random() < 0.35]
    producible = list(init)
    stages = {}
    for k, s in enumerate(names):
        cand = pool if rng.random() < 0.15 else producible
        ins = [a for a in cand if rng.random() < 0.4]
        if rng.random() < rewrite and ins:
            outs = [str(rng.choice(ins))]
        else:
            outs = []
        fresh = [a for a in pool if a not in producible]
        if fresh and rng.random() < 0.8:
            outs.append(str(rng.choice(fresh)))
        if rng.random() < clash:
            outs.append(str(rng.choice(pool)))
        outs = sorted(set(outs))
        producible = sorted(set(producible) | set(outs))
        stages[s] = dict(ins=ins, outs=outs, before=[], after=[], mutates=bool(rng.random() < 0.4),
                         marker_first=bool(rng.random() < 0.5))
    for s in names:
        if rng.random() < markers:
            t = str(rng.choice(names + ["X"]))
            if t != s or rng.random() < 0.3:
                stages[s]["before"].append(t)
        if rng.random() < markers:
            t = str(rng.choice(names + (["X"] if rng.random() < 0.3 else [])))
            if t != s or rng.random() < 0.3:
                stages[s]["after"].append(t)
    order = list(names) + ["X"]
    rng.shuffle(order)
    return dict(types=types, init=init, stages=stages, order=[str(s) for s in order])


def build(w, order=None):
    from instancespace.stage_builder import StageResolutionError
    from instancespace.stage_runner import StageRunningError
    try:
        return w.builder(order).build(w.INIT), None
    except (StageResolutionError, StageRunningError) as ex:
        return None, ex


def closure(spec):
    """Stages which can ever run, by their needs and predecessors alone."""
    have, done = set(spec["init"]), set()
    st = spec["stages"]
    after = {s: set(st[s]["after"]) | {t for t in st if s in st[t]["before"]} for s in st}
    while True:
        new = [s for s in st if s not in done and set(st[s]["ins"]) <= have and after[s] <= done]
        if not new:
            return done
        for s in new:
            done.add(s)
        for s in new:
            have |= set(st[s]["outs"])


def reference(spec):
    """The documented resolution, step by step: ('steps', [...]) or ('error', None)."""
    st = spec["stages"]
    have, done, steps = set(spec["init"]), set(), []
    after = {s: set(st[s]["after"]) | {t for t in st if s in st[t]["before"]} for s in st}
    mut = {s: set(st[s]["ins"]) & set(st[s]["outs"]) for s in st}
    while done != set(st):
        ready = {s for s in st if s not in done and set(st[s]["ins"]) <= have and after[s] <= done}
        for s in ready:
            for t in ready:
                if s != t and mut[s] & mut[t]:
                    return "error", None
        step = {s for s in ready if not any(mut[t] & set(st[s]["ins"]) for t in ready if t != s)}
        for s in step:
            for t in step:
                if s != t and set(st[s]["outs"]) & set(st[t]["outs"]):
                    return "error", None
        if not step:
            return "error", None
        steps.append(step)
        done |= step
        for s in step:
            have |= set(st[s]["outs"])
    return "steps", steps


@oracle("C01", g_graph, 500, 8000)
def schedule_valid(spec):
    """random stage graphs with missing inputs, rewritten arguments and ordering markers: a returned schedule is complete and feasible; unmet needs raise"""
    w = World(spec)
    r, ex = build(w)
    st = spec["stages"]
    if closure(spec) != set(st):
        need(r is None, "built although some stage can never run")
        return
    if r is None:
        return
    steps = w.steps(r)
    flat = [s for e in steps for s in e]
    need(sorted(flat) == sorted(st), f"schedule {steps} of stages {sorted(st)}")
    have = set(spec["init"])
    for e in steps:
        for s in e:
            need(set(st[s]["ins"]) <= have, f"{s} runs before its inputs are available: {steps}")
        for s in e:
            have |= set(st[s]["outs"])


@oracle("C01", lambda r, i: g_graph(r, i, markers=0.0, rewrite=0.0, clash=0.0), 300, 4000)
def schedule_found(spec):
    """random conflict-free graphs: building succeeds exactly when every need can be met"""
    w = World(spec)
    r, ex = build(w)
    ok = closure(spec) == set(spec["stages"])
    need((r is not None) == ok, f"build {'succeeded' if r else 'failed: ' + str(ex)[:200]} but needs can{'' if ok else 'not'} be met")
    if r is not None:
        flat = [s for e in w.steps(r) for s in e]
        need(sorted(flat) == sorted(spec["stages"]), "every stage once")


@oracle("C02", lambda r, i: g_graph(r, i, markers=0.7, rewrite=0.1, clash=0.05), 500, 8000)
def markers(spec):
    """random graphs with RunBefore/RunAfter, cycles and absent targets: markers order the steps strictly, unsatisfiable ones raise, running needs no value for them"""
    w = World(spec)
    r, ex = build(w)
    st = spec["stages"]
    if closure(spec) != set(st):
        need(r is None, "built although the markers or needs cannot be satisfied")
        return
    kind, exp = reference(spec)
    need((r is not None) == (kind == "steps"), f"build {'succeeded' if r else 'failed: ' + str(ex)[:300]}, expected {kind}")
    if r is None:
        return
    at = {s: k for k, e in enumerate(w.steps(r)) for s in e}
    for s in st:
        for t in st[s]["before"]:
            need(t not in at or at[s] < at[t], f"{s} must run before {t}: {at}")
        for t in st[s]["after"]:
            need(t in at and at[s] > at[t], f"{s} must run after {t}: {at}")
    out = r.run_all(w.initial("a"))
    need(all(not k.startswith(("rb", "ra")) for k in out), "markers became data")
    need(sorted(n for n, _ in w.log) == sorted(st), "every stage ran once")


def g_marker_out(rng, i):
    return dict(kind=i % 4, param=bool(rng.integers(2)))


@oracle("C02", g_marker_out, 8, 8)
def marker_outputs(c):
    """stages whose outputs contain a (parameterised or bare) marker are rejected, an ordinary output is not"""
    from instancespace.stage_builder import StageBuilder
    from instancespace.stages.stage import RunAfter, RunBefore, Stage
    T = type("T", (Stage,), {})
    ty = [RunBefore[T], RunAfter[T], int, list][c["kind"]]
    IN, OUT = NamedTuple("In", []), NamedTuple("Out", [("q", ty)])
    S = type("S", (Stage,), {"_inputs": staticmethod(lambda: IN), "_outputs": staticmethod(lambda: OUT)})
    try:
        StageBuilder().add_stage(S)
        ok = True
    except TypeError:
        ok = False
    need(ok == (c["kind"] >= 2), f"output of type {ty} accepted: {ok}")


@oracle("C03", lambda r, i: g_graph(r, i, markers=0.25, rewrite=0.6, clash=0.5), 600, 10000)
def conflicts(spec):
    """random graphs with shared and rewritten outputs: no step holds a conflict, ambiguous sets raise, resolvable ones follow the documented order"""
    w = World(spec)
    r, ex = build(w)
    st = spec["stages"]
    kind, exp = reference(spec)
    if r is not None:
        for e in w.steps(r):
            for s in e:
                for t in e:
                    if s == t:
                        continue
                    need(not set(st[s]["outs"]) & set(st[t]["outs"]), f"{s} and {t} of one step share an output")
                    need(not set(st[t]["ins"]) & set(st[t]["outs"]) & set(st[s]["ins"]),
                         f"{s} reads what {t} rewrites in the same step")
    need((r is not None) == (kind == "steps"), f"build {'succeeded' if r else 'failed: ' + str(ex)[:300]}, expected {kind} {exp}")
    if r is not None:
        need([set(e) for e in w.steps(r)] == exp, f"steps {w.steps(r)} expected {exp}")


@oracle("C04", g_graph, 300, 5000)
def build_repeatable(spec):
    """random graphs added in two orders and built three times: same steps or same failure, initial inputs and stages unchanged, duplicates rejected"""
    from instancespace.stage_builder import StageResolutionError
    from instancespace.stage_runner import StageRunningError
    w = World(spec)
    b = w.builder()
    args_of = getattr(b, "_named_tuple_to_stage_arguments", None)
    init = args_of(w.INIT) if args_of else w.INIT
    before = init.copy() if isinstance(init, set) else None
    res = []
    for bb, a in ((b, init), (b, init), (w.builder(spec["order"][::-1]), w.INIT)):
        try:
            res.append([set(e) for e in w.steps(bb.build(a))])
        except (StageResolutionError, StageRunningError) as ex:
            res.append(type(ex).__name__)
    need(res[0] == res[1], f"second build differs: {res[:2]}")
    need(res[0] == res[2], f"adding in another order differs: {res}")
    if before is not None:
        need(init == before, "the caller's initial inputs changed")
    for n in spec["stages"]:
        try:
            b.add_stage(w.cls[n])
        except ValueError:
            continue
        need(False, f"{n} could be added twice")
    try:
        again = [set(e) for e in w.steps(b.build(init))]
    except (StageResolutionError, StageRunningError) as ex:
        again = type(ex).__name__
    need(again == res[0], "building after a rejected duplicate differs")


# ------------------------------------------------------------------ running
class Ref:
    """The run semantics of the properties, over the schedule of the runner."""

    def __init__(self, w, steps):
        self.w, self.steps = w, steps
        self.at = {s: k for k, e in enumerate(steps) for s in e}
        self.avail, self.cur, self.ran, self.end, self.count = {}, 0, set(), {}, {}
        self.log = []

    def restart(self, init):
        self.avail, self.cur, self.ran, self.end = dict(init._asdict()), 0, set(), {}

    def run(self, s, over):
        st = self.w.spec["stages"][s]
        k = self.at[s]
        if k > self.cur:
            return "early"
        if k < self.cur:
            self.avail = dict(self.end[k])
            self.cur = k
            self.ran = {t for t in self.ran if self.at[t] <= k}
        have = self.avail | over
        if not set(st["ins"]) <= set(have):
            return "missing"
        n = self.count.get(s, 0)
        self.count[s] = n + 1
        self.log.append((s, {a: copy.deepcopy(have[a]) for a in st["ins"]}))
        if self.w.fail_on.get(s) == n:
            return "failed"
        self.avail |= {a: val(s, a, n) for a in st["outs"]}
        self.ran.add(s)
        if set(self.steps[self.cur]) <= self.ran:
            self.end[self.cur] = dict(self.avail)
            self.cur += 1
        return "ok"


def g_history(rng, i, kinds=("all", "iter", "stage", "until", "part", "fresh"), fail=0.2):
    for _ in range(60):
        spec = g_graph(rng, i, markers=0.2, rewrite=0.35, clash=0.15)
        if reference(spec)[0] == "steps" and len(spec["stages"]) >= 2:
            break
    else:
        raise Skip("no resolvable graph")
    names = sorted(spec["stages"])
    ops = []
    for _ in range(int(rng.integers(2, 14))):
        k = str(rng.choice(kinds, p=None))
        if rng.random() < 0.6 and "stage" in kinds and ops:
            k = "stage"
        s = str(rng.choice(names))
        over = [a for a in spec["types"] if rng.random() < 0.2] if rng.random() < 0.4 else []
        ops.append((k, s, over, int(rng.integers(1, len(names) + 1))))
    fails = {str(rng.choice(names)): int(rng.integers(0, 3))} if rng.random() < fail else {}
    return dict(spec=spec, ops=ops, fails=fails)


def play(c, want):
    from instancespace.stage_runner import StageRunningError
    w = World(c["spec"])
    r, ex = build(w)
    if r is None:
        raise Skip("the graph does not build")
    w.fail_on = c["fails"]
    ref = Ref(w, w.steps(r))
    order = [s for e in ref.steps for s in e]
    st = c["spec"]["stages"]

    def same_log(what):
        need(w.log == ref.log, f"{what}: executed {w.log[-3:]} expected {ref.log[-3:]}")

    for k, (op, s, over, m) in enumerate(c["ops"]):
        tag = f"t{k}"
        what = f"call {k} ({op} {s})"
        if op in ("all", "iter", "until", "part"):
            init = w.initial(tag)
            keep = copy.deepcopy(init)
            ref.restart(init)
            todo = order
            if op == "until":
                todo = [t for t in order if ref.at[t] < ref.at[s]] + [s]
            if op == "part":
                todo = order[:m]
            status, last = "ok", None
            for t in todo:
                status = ref.run(t, {})
                if status != "ok":
                    break
            outs = []
            try:
                if op == "all":
                    got = r.run_all(init)
                elif op == "until":
                    got = r.run_until_stage(w.cls[s], init)
                else:
                    g = r.run_iter(init)
                    got = None
                    if op == "iter":
                        while True:
                            try:
                                outs.append(next(g))
                            except StopIteration as e:
                                got = e.value
                                break
                    else:
                        for _ in range(m):
                            outs.append(next(g))
                        g.close()
                real = "ok"
            except RuntimeError as e:
                real = "failed" if "stage failed" in str(e) else repr(e)
            need(real == status, f"{what}: {real}, expected {status}")
            same_log(what)
            need(init == keep, f"{what}: the caller's initial inputs changed")
            if real == "ok" and got is not None:
                need(got == ref.avail, f"{what}: returned {got} expected {ref.avail}")
            for t, o in zip(todo, outs):
                need(w.name[o.stage] == t, f"{what}: yielded {o.stage} expected {t}")
                n = [x for x, _ in ref.log].count(t) - 1
                need(o.output._asdict() == {a: val(t, a, n) for a in st[t]["outs"]}, f"{what}: output of {t}")
        else:
            ov = {a: val("over", a, tag) for a in over}
            if op == "fresh":
                ov = {a: val("over", a, tag) for a in st[s]["ins"]}
            keep = copy.deepcopy(ov)
            status = ref.run(s, ov)
            try:
                o = r.run_stage(w.cls[s], **ov)
                real = "ok"
                n = ref.count.get(s, 1) - 1
                need(status != "ok" or o._asdict() == {a: val(s, a, n) for a in st[s]["outs"]}, f"{what}: output")
            except StageRunningError:
                real = "early"
            except KeyError:
                real = "missing"
            except RuntimeError as e:
                real = "failed" if "stage failed" in str(e) else repr(e)
            need(real == status, f"{what}: {real}, expected {status}; log {w.log[-2:]}")
            need(ov == keep, f"{what}: the caller's arguments changed")
            same_log(what)


def hist(*kinds, fail=0.2):
    return lambda rng, i: g_history(rng, i, kinds, fail)


@oracle("C05", hist("all", "iter", "all", "iter", "stage", "part", "until"), 300, 5000)
def full_runs(c):
    """random schedules and histories of full, iterated, partial and single runs (some failing): every execution sees the latest values, each stage once per full run, results overlay"""
    play(c, "C05")


@oracle("C06", hist("stage", "stage", "part", "until", "all", "fresh"), 300, 5000)
def gating(c):
    """random histories ending in single-stage runs: premature stages raise without effect, allowed ones execute once"""
    play(c, "C06")


@oracle("C07", hist("all", "stage", "stage", "until", fail=0.1), 300, 5000)
def rerun(c):
    """random histories with reruns of earlier stages: later values are invisible and later steps must be run again"""
    play(c, "C07")


@oracle("C08", hist("all", "stage", "stage", "iter", fail=0.05), 300, 5000)
def isolation(c):
    """stages which tamper with every list they are given, and random overrides: nobody else sees the change, overrides last one call"""
    for s in c["spec"]["stages"].values():
        s["mutates"] = True
    play(c, "C08")


@oracle("C09", hist("until", "until", "stage"), 300, 5000)
def until(c):
    """random schedules and targets, followed by single-stage runs: exactly the earlier steps and the target ran"""
    play(c, "C09")


def g_space(rng, i):
    return dict(k=i % 4, seed=int(rng.integers(1 << 30)))


@oracle(["C01", "C05", "C06", "C07", "C08", "C09"], g_space, 12, 60)
def facade(c):
    """the public facade with three plug-in stages over real metadata and options: run_iter, run_until_stage, run_stage behave as the runner"""
    import pandas as pd
    from instancespace.data.metadata import Metadata
    from instancespace.data.options import InstanceSpaceOptions, PerformanceOptions
    from instancespace.instance_space import InstanceSpace
    from instancespace.stages.stage import Stage
    rng = np.random.default_rng(c["seed"])
    log = []

    def stage(name, ins, outs, f):
        IN, OUT = NamedTuple("In", ins), NamedTuple("Out", outs)

        def run(inputs):
            log.append((name, copy.deepcopy(inputs._asdict())))
            return OUT(*f(inputs))
        return type(name, (Stage,), {"_inputs": staticmethod(lambda: IN), "_outputs": staticmethod(lambda: OUT),
                                     "_run": staticmethod(run)})
    from numpy.typing import NDArray

    def f1(i):
        i.features[:] = -1
        return (float(np.sum(i.algorithms)),)
    from instancespace.instance_space import _InstanceSpaceInputs as ISI
    ty = ISI.__annotations__
    A = stage("A", [("features", ty["features"]), ("algorithms", ty["algorithms"])], [("u", float)], f1)
    B = stage("B", [("u", float), ("features", ty["features"]), ("perf_options", ty["perf_options"])], [("v", float), ("u", float)],
              lambda i: (float(i.features.sum()), i.u + 1))
    C = stage("C", [("u", float), ("v", float)], [("w", float)], lambda i: (i.u * 10 + i.v,))
    n = int(rng.integers(2, 6))
    x, y = rng.normal(size=(n, 2)), rng.normal(size=(n, 2))
    md = Metadata(["f1", "f2"], ["a1", "a2"], pd.Series([f"i{k}" for k in range(n)]), None, x.copy(), y.copy())
    op = InstanceSpaceOptions.from_dict({"perf": {"epsilon": 0.37}})
    sp = InstanceSpace(md, op, stages=[C, A, B])
    su, sv = float(y.sum()), float(x.sum())
    if c["k"] == 0:
        got = list(sp.run_iter())
        need([o.stage for o in got] == [A, B, C], "order of run_iter")
        need([tuple(o.output) for o in got] == [(su,), (sv, su + 1), ((su + 1) * 10 + sv,)], "outputs of run_iter")
    elif c["k"] == 1:
        got = sp.run_until_stage(B)
        need([m for m, _ in log] == ["A", "B"], "executed stages")
        need(got["u"] == su + 1 and got["v"] == sv and "w" not in got, "values")
        need(got["perf_options"].epsilon == 0.37, "options")
        o = sp.run_stage(C)
        need(o.w == (su + 1) * 10 + sv, "continuing")
    elif c["k"] == 2:
        sp.run_until_stage(A)
        o = sp.run_stage(B, u=5.0)
        need(tuple(o) == (sv, 6.0), "override")
        o = sp.run_stage(C, v=1.0)
        need(o.w == 61.0, "override has priority")
        o = sp.run_stage(C)
        need(o.w == 60.0 + sv, "override is not remembered")
    else:
        from instancespace.stage_runner import StageRunningError
        for s in (B, C):
            try:
                sp.run_stage(s)
                need(False, "premature stage ran")
            except StageRunningError:
                pass
        need(log == [], "something was executed")
        list(sp.run_iter())
        o = sp.run_stage(A)
        need(o.u == su, "rerun of the first stage")
        try:
            sp.run_stage(C)
            need(False, "stage C ran although B was rolled back")
        except StageRunningError:
            pass
    need(bool(np.array_equal(md.features, x)) and bool(np.array_equal(md.algorithms, y)), "metadata changed")
