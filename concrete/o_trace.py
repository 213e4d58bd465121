"""C27-C29: footprints."""
import random
import time
from unittest import mock

import numpy as np
from shapely.geometry import MultiPolygon, Polygon, box
from shapely.ops import unary_union

from .base import Known, Skip, close, find, labels, need, oracle, same

ST = "instancespace.stages."


def mods():
    import instancespace.data.model as dm
    import instancespace.stages.trace as tr
    return dm, tr


def topts(purity=0.55, sim=True, cores=2):
    import instancespace.data.options as o
    return o.TraceOptions.default(use_sim=sim, purity=purity), o.ParallelOptions.default(flag=True, n_cores=cores)


# ------------------------------------------------------------------ measures
def g_poly(rng, i):
    k = int(rng.integers(1, 4))
    bs = []
    for _ in range(k):
        x, y = rng.integers(-4, 4, 2)
        w, h = rng.integers(1, 4, 2)
        bs.append((float(x), float(y), float(x + w), float(y + h)))
    n = int(rng.integers(0, 14))
    z = rng.uniform(-5, 5, (max(n, 1), 2))
    y = rng.random(len(z)) < rng.choice([0.0, 0.5, 1.0])
    return dict(boxes=bs, z=z, y=y, smooth=bool(i % 3 == 0), empty=["no", "no", "no", "none", "empty"][int(rng.integers(5))])


def grid_area(bs):
    xs = sorted({v for b in bs for v in (b[0], b[2])})
    ys = sorted({v for b in bs for v in (b[1], b[3])})
    t = 0.0
    for a, b in zip(xs, xs[1:]):
        for c, d in zip(ys, ys[1:]):
            mx, my = (a + b) / 2, (c + d) / 2
            if any(p[0] < mx < p[2] and p[1] < my < p[3] for p in bs):
                t += (b - a) * (d - c)
    return t


def count(bs, pts):
    return sum(any(p[0] < x < p[2] and p[1] < y < p[3] for p in bs) for x, y in pts)


@oracle("C27", g_poly, 400, 6000)
def polygon_measures(c):
    """random unions of boxes (several parts, no polygon, no good or no inside points, smoothed borders): area and counts against coordinate arithmetic"""
    dm, _ = mods()
    f = find("instancespace.data.model:Footprint.from_polygon", ["polygon", "z", "y_bin", "smoothen"])
    z0, y0 = c["z"].copy(), c["y"].copy()
    if c["empty"] == "none":
        fp = f(None, c["z"], c["y"], c["smooth"])
        need(fp.polygon is None and fp.area == fp.elements == fp.good_elements == fp.density == fp.purity == 0,
             f"measures of no polygon: {fp}")
        return
    poly = Polygon() if c["empty"] == "empty" else unary_union([box(*b) for b in c["boxes"]])
    bs = [] if c["empty"] == "empty" else c["boxes"]
    fp = f(poly, c["z"], c["y"], c["smooth"])
    need(same(c["z"], z0) and same(c["y"], y0), "the arguments changed")
    a, n, g = grid_area(bs), count(bs, z0), count(bs, z0[y0])
    need(abs(fp.area - a) < 5e-3 and abs(fp.polygon.area - fp.area) < 1e-12, f"area {fp.area}, of the polygon {a}")
    need(fp.elements == n and fp.good_elements == g, f"{fp.elements} and {fp.good_elements} inside, expected {n} and {g}")
    need(close(fp.density, n / fp.area if fp.area else 0), f"density {fp.density}")
    need(close(fp.purity, g / n if n else 0), f"purity {fp.purity}")


# ------------------------------------------------------------------ whole stage
def clusters(rng, n):
    cs = rng.uniform(-3, 3, (int(rng.integers(1, 4)), 2))
    return cs[rng.integers(0, len(cs), n)] + rng.normal(0, 0.45, (n, 2))


def g_stage(rng, i):
    n, a = int(rng.integers(25, 50)), int(rng.integers(1, 4))
    z = clusters(rng, n)

    def regional():
        d = rng.normal(size=2)
        y = (z @ d > rng.normal()) ^ (rng.random(n) < 0.1)
        return y if rng.random() < 0.85 else np.zeros(n, bool)
    yh = np.column_stack([regional() for _ in range(a)])
    yb = np.column_stack([regional() for _ in range(a)])

    def pick(y):
        return np.array([rng.choice(np.where(r)[0]) if r.any() else -1 for r in y])
    return dict(z=z, y_hat=yh, y_bin=yb, sel=pick(yh), p=pick(yb) + (0 if i % 2 else 0), beta=rng.random(n) < 0.6,
                al=labels(rng, a, "algo_"), sim=bool(i % 3), purity=float(rng.choice([0.3, 0.55, 0.75])),
                cores=int(rng.integers(1, 4)))


def check_fp(fp, z, y, what):
    from shapely.geometry import Point
    if fp.polygon is None or fp.polygon.is_empty:
        need(fp.area == fp.elements == fp.good_elements == fp.density == fp.purity == 0, f"{what} is empty, measures {fp}")
        return
    ins = np.array([fp.polygon.contains(Point(*q)) for q in z])
    n, g = int(ins.sum()), int((ins & y).sum())
    need(abs(fp.area - fp.polygon.area) < 1e-12, f"area of {what}")
    need(fp.elements == n, f"{what}: {fp.elements} elements, {n} inside")
    need(fp.good_elements == g, f"{what}: {fp.good_elements} good elements, {g} inside")
    need(close(fp.density, n / fp.area if fp.area else 0) and close(fp.purity, g / n if n else 0), f"density or purity of {what}")


def row_of(fp, space):
    na = fp.area / space.area if space.area else fp.area
    nd = fp.density / space.density if space.density else fp.density
    return [fp.area, na, fp.density, nd, fp.purity]


@oracle("C27", g_stage, 22, 250)
def stage_measures(c):
    """the whole stage on random clustered instances (algorithms good nowhere, simulated and experimental data, purity thresholds): every footprint against its own points and the summary against the footprints"""
    dm, m = mods()
    to, po = topts(c["purity"], c["sim"], c["cores"])
    b4 = {k: c[k].copy() for k in ("z", "y_hat", "y_bin", "sel", "p", "beta")}
    out = m.TraceStage._run(m.TraceInputs(z=c["z"], selection0=c["sel"], p=c["p"], beta=c["beta"], algo_labels=c["al"],
                                          y_hat=c["y_hat"], y_bin=c["y_bin"], trace_options=to, parallel_options=po))
    for k, v in b4.items():
        need(same(c[k], v), f"the caller's {k} changed")
    y, p = (c["y_hat"], c["sel"]) if c["sim"] else (c["y_bin"], c["p"])
    z, a = c["z"], y.shape[1]
    need(len(out.good) == len(out.best) == a, "one good and one best footprint per algorithm")
    check_fp(out.space, z, np.ones(len(z), bool), "the space")
    check_fp(out.hard, z, ~c["beta"], "the hard footprint")
    for j in range(a):
        check_fp(out.good[j], z, y[:, j], f"good of algorithm {j}")
        check_fp(out.best[j], z, p == j, f"best of algorithm {j}")
        need(y[:, j].any() or out.good[j].area == 0, f"good of algorithm {j} without good instances")
        need((p == j).any() or out.best[j].area == 0, f"best of algorithm {j} without best instances")
    check_table(out.trace_summary, c["al"], out)


def check_table(df, al, out):
    need(list(df.iloc[:, 0]) == list(al), f"rows {list(df.iloc[:, 0])}")
    cols = ["Algorithm", *[f"{k}_{t}" for t in ("Good", "Best")
                           for k in ("Area", "Area#", "Density", "Density#", "Purity")]]
    cols = [k.replace("#_Good", "_Good_Normalised").replace("#_Best", "_Best_Normalised") for k in cols]
    need(list(df.columns) == cols, f"columns {list(df.columns)}")
    for j in range(len(al)):
        want = row_of(out.good[j], out.space) + row_of(out.best[j], out.space)
        need(close([float(v) for v in df.iloc[j, 1:]], want, 1e-9), f"row of {al[j]}: {list(df.iloc[j])}, expected {want}")


def g_stub(rng, i):
    n, a = int(rng.integers(3, 9)), int(rng.integers(1, 7))
    p = rng.integers(-1, a, n)
    return dict(n=n, a=a, y=rng.random((n, a)) < 0.5, p=p, beta=rng.random(n) < 0.5, al=labels(rng, a, "algo_"),
                cores=int(rng.integers(1, 7)), space=(float(rng.integers(0, 4)), float(rng.integers(0, 4))),
                delay=rng.integers(0, 4, 4 * a + 8).tolist(), order=int(rng.integers(1 << 30)), i=i)


def stub_trace(c, delays=False, shuffled=False):
    """The stage with `build` replaced: a footprint without polygon whose numbers tell its points."""
    dm, m = mods()
    find(ST + "trace:TraceStage.build", ["y_bin"])
    find(ST + "trace:TraceStage.__init__", ["z", "y_bin", "p", "beta", "algo_labels", "trace_opts", "parallel_opts"])
    to, po = topts(cores=c["cores"])
    z = np.arange(2.0 * c["n"]).reshape(-1, 2)
    st = m.TraceStage(z, c["y"].copy(), c["p"].copy(), c["beta"].copy(), list(c["al"]), to, po)
    calls = []

    def build(y_bin):
        y_bin = np.array(y_bin)
        calls.append(y_bin)
        if delays:
            time.sleep(c["delay"][len(calls) % len(c["delay"])] * 4e-4)
        v = float(sum(1 << k for k in np.where(y_bin)[0]))
        if y_bin.all() and len(calls) == 1:
            return dm.Footprint(None, *c["space"][:1], 0, 0, c["space"][1], 1.0)
        return dm.Footprint(None, v, 1, 1, v / 8, v / 1024)
    st.build = build
    if delays:
        # messages take a while too: tasks meet between their statements
        with mock.patch.object(m, "print", lambda *a, **k: time.sleep(random.random() * 4e-4), create=True):
            return run_stub(st, m, c, shuffled), calls
    return run_stub(st, m, c, shuffled), calls


def run_stub(st, m, c, shuffled):
    if shuffled and hasattr(m, "as_completed"):
        real = m.as_completed

        def other(fs, *a, **k):
            fs = list(real(list(fs), *a, **k))
            random.Random(c["order"]).shuffle(fs)
            return iter(fs)
        with mock.patch.object(m, "as_completed", other):
            return st._trace()
    return st._trace()


def code(y):
    return float(sum(1 << k for k in np.where(np.asarray(y))[0]))


def check_stub(c, out):
    need(len(out.good) == len(out.best) == c["a"], "one footprint per algorithm")
    for j in range(c["a"]):
        for fp, y, what in ((out.good[j], c["y"][:, j], "good"), (out.best[j], c["p"] == j, "best")):
            v = code(y)
            if y.all() and fp.area == c["space"][0]:
                continue
            need((fp.area, fp.density, fp.purity) == (v, v / 8, v / 1024), f"{what} of algorithm {j} holds the points of another set")


@oracle(["C27", "C28"], g_stub, 120, 1500)
def stage_with_given_footprints(c):
    """the whole stage with footprints that identify their points (one to six algorithms, zero area or density of the space): positions, order and shares in the summary"""
    out, _ = stub_trace(c)
    check_stub(c, out)
    check_table(out.trace_summary, c["al"], out)


@oracle("C28", g_stub, 120, 1500)
def completion_order(c):
    """the same with random delays of the footprints, one to six workers and the completions reported in random order"""
    out, _ = stub_trace(c, True, c["i"] % 2 == 0)
    check_stub(c, out)


@oracle("C28", g_stage, 8, 120)
def worker_counts(c):
    """the real stage with one worker, several workers and shuffled completions: identical footprints"""
    dm, m = mods()
    outs = []
    for cores in (1, 3, 8):
        to, po = topts(c["purity"], True, cores)
        st = m.TraceStage(c["z"], c["y_hat"], c["sel"], c["beta"], c["al"], to, po)
        if cores == 8 and hasattr(m, "as_completed"):
            real = m.as_completed
            with mock.patch.object(m, "as_completed", lambda fs, *a, **k: reversed(list(real(list(fs), *a, **k)))):
                outs.append(st._trace())
        else:
            outs.append(st._trace())
    for o in outs[1:]:
        for k in ("good", "best"):
            for j, (x, y) in enumerate(zip(getattr(outs[0], k), getattr(o, k))):
                need((x.polygon is None) == (y.polygon is None) and (x.polygon is None or x.polygon.equals_exact(y.polygon, 0))
                     and (x.area, x.elements, x.good_elements, x.density, x.purity)
                     == (y.area, y.elements, y.good_elements, y.density, y.purity), f"{k} of algorithm {j} depends on the workers")
    # each alone
    find(ST + "trace:TraceStage.build", ["y_bin"])
    to, po = topts(c["purity"], True, 1)
    st = m.TraceStage(c["z"], c["y_hat"], c["sel"], c["beta"], c["al"], to, po)
    for j in range(c["y_hat"].shape[1]):
        x, y = st.build(c["y_hat"][:, j].copy()), outs[0].good[j]
        need((x.polygon is None) == (y.polygon is None) and (x.polygon is None or x.polygon.equals_exact(y.polygon, 0)),
             f"good of algorithm {j} is not that of its own data")


# ------------------------------------------------------------------ C29
def g_contra(rng, i):
    def boxes(k):
        out = []
        for _ in range(k):
            x, y = rng.integers(-4, 3, 2)
            w, h = rng.integers(1, 4, 2)
            out.append((float(x), float(y), float(x + w), float(y + h)))
        return out
    n = int(rng.integers(1, 22))
    z = rng.uniform(-4.5, 5, (n, 2))
    yb = rng.random(n) < rng.random()
    yt = ~yb & (rng.random(n) < rng.random()) if i % 3 else rng.random(n) < 0.5
    if i % 7 == 0:
        yt = yb.copy()
    return dict(b=boxes(int(rng.integers(1, 3))), t=boxes(int(rng.integers(1, 3))), z=z, yb=yb, yt=yt,
                none=["", "", "", "", "", "base", "test", "both"][int(rng.integers(8))])


def both(bb, bt, pts):
    return [any(p[0] < x < p[2] and p[1] < y < p[3] for p in bb) and any(p[0] < x < p[2] and p[1] < y < p[3] for p in bt)
            for x, y in pts]


def same_fp(a, b):
    if (a.polygon is None) != (b.polygon is None):
        return False
    if a.polygon is not None and not (a.polygon.is_empty and b.polygon.is_empty) \
            and a.polygon.symmetric_difference(b.polygon).area > 1e-12:
        return False
    return close([a.area, a.elements, a.good_elements, a.density, a.purity],
                 [b.area, b.elements, b.good_elements, b.density, b.purity])


@oracle("C29", g_contra, 500, 6000)
def contradiction(c):
    """random overlapping, touching and disjoint footprints (equal purity, no points in the overlap, missing polygons), with refitting left out: exactly the less pure one loses exactly the overlap, measures recomputed"""
    dm, m = mods()
    find(ST + "trace:TraceStage.contra", ["base", "test", "y_base", "y_test"])
    find(ST + "trace:TraceStage.tight", ["polygon", "y_bin"])
    to, po = topts()
    z = c["z"]
    st = m.TraceStage(z, np.column_stack([c["yb"], c["yt"]]), np.zeros(len(z), int), c["yb"], ["a", "b"], to, po)
    seen = []

    def tight(polygon, y_bin):
        seen.append((polygon, np.array(y_bin)))
        return None if polygon is None or polygon.is_empty else polygon
    st.tight = tight

    def mk(bs, y, none):
        return dm.Footprint(None, 0, 0, 0, 0, 0) if none else dm.Footprint.from_polygon(unary_union([box(*b) for b in bs]), z, y)
    base = mk(c["b"], c["yb"], c["none"] in ("base", "both"))
    test = mk(c["t"], c["yt"], c["none"] in ("test", "both"))
    b, t = st.contra(base, test, c["yb"], c["yt"])
    if c["none"]:
        need(same_fp(b, base) and same_fp(t, test), "footprints changed although one is empty")
        return
    inter = base.polygon.intersection(test.polygon)
    ins = np.array(both(c["b"], c["t"], z))
    n, gb, gt = int(ins.sum()), int((ins & c["yb"]).sum()), int((ins & c["yt"]).sum())
    eb, et = base, test
    if inter.area > 0 and n and gb != gt:
        if gb > gt:
            et = dm.Footprint.from_polygon(test.polygon.difference(inter), z, c["yt"])
        else:
            eb = dm.Footprint.from_polygon(base.polygon.difference(inter), z, c["yb"])
    need(same_fp(b, eb), f"base: purity {gb}/{n} and {gt}/{n} on the overlap, area {base.area} -> {b.area}, expected {eb.area}")
    need(same_fp(t, et), f"test: purity {gb}/{n} and {gt}/{n} on the overlap, area {test.area} -> {t.area}, expected {et.area}")
    for fp, y in ((b, c["yb"]), (t, c["yt"])):
        check_fp(fp, z, y, "the result")


def g_contra2(rng, i):
    n = int(rng.integers(30, 60))
    z = rng.uniform(-3, 3, (n, 2))
    d = rng.normal(size=2)
    lab = (z @ d > rng.normal() * 0.5) ^ (rng.random(n) < 0.15)
    w = rng.uniform(0.5, 2.0, 4)
    b = (-3.0, -3.0, float(w[0]), float(3 - w[1] / 2))
    t = (float(-w[2]), float(-3 + w[3] / 2), 3.0, 3.0)
    return dict(z=z, yb=lab, yt=~lab, b=b, t=t)


@oracle("C29", g_contra2, 60, 600)
def contradiction_refit(c):
    """overlapping footprints with the real refitting: it is given the loser without the overlap and the loser's own points; the winner of every round stays, the results are remeasured"""
    dm, m = mods()
    find(ST + "trace:TraceStage.contra", ["base", "test", "y_base", "y_test"])
    find(ST + "trace:TraceStage.tight", ["polygon", "y_bin"])
    to, po = topts()
    z = c["z"]
    st = m.TraceStage(z, np.column_stack([c["yb"], c["yt"]]), np.zeros(len(z), int), c["yb"], ["a", "b"], to, po)
    real, seen = st.tight, []

    def tight(polygon, y_bin):
        r = real(polygon, y_bin)
        seen.append((polygon, np.array(y_bin), r))
        return r
    st.tight = tight
    base = dm.Footprint.from_polygon(box(*c["b"]), z, c["yb"])
    test = dm.Footprint.from_polygon(box(*c["t"]), z, c["yt"])
    b, t = st.contra(base, test, c["yb"], c["yt"])
    check_fp(b, z, c["yb"], "the base")
    check_fp(t, z, c["yt"], "the test")
    ins = np.array(both([c["b"]], [c["t"]], z))
    gb, gt = int((ins & c["yb"]).sum()), int((ins & c["yt"]).sum())
    inter = base.polygon.intersection(test.polygon)
    if inter.area == 0 or gb == gt:
        need(same_fp(b, base) and same_fp(t, test) and not seen, "changed without a contradiction to resolve")
        return
    win, lose, wy, ly, wo = (base, test, c["yb"], c["yt"], b) if gb > gt else (test, base, c["yt"], c["yb"], t)
    need(len(seen) >= 1, "the loser is not refitted")
    p0, y0, r0 = seen[0]
    need(same(y0, ly) and p0.symmetric_difference(lose.polygon.difference(inter)).area < 1e-9,
         "refitting does not get the loser without the overlap")
    if all(same(y, ly) for _, y, _ in seen) and len(seen) < 2:
        need(same_fp(wo, win), "the purer footprint changed")


# ------------------------------------------------------------------ experimental data
def g_exp(rng, i):
    n, a = int(rng.integers(20, 32)), int(rng.integers(2, 4))
    z = clusters(rng, n)
    d = rng.normal(size=(2, a))
    return dict(x=rng.normal(size=(n, 2)), y=np.abs(z @ d + rng.normal(size=a)) + 0.5, z=z, al=labels(rng, a, "algo_"),
                maxp=bool(i % 2))


@oracle("C27", g_exp, 6, 60)
def experimental_best(c):
    """performances prepared by the real preliminary stage, then footprints of the experimental data: best footprints are built from the instances on which that algorithm is best"""
    import pandas as pd

    import instancespace.data.options as o
    import instancespace.stages.prelim as pm
    dm, m = mods()
    n, a = c["y"].shape
    po = o.PrelimOptions(max_perf=c["maxp"], abs_perf=True, epsilon=1.0, beta_threshold=0.5, bound=False, norm=False)
    pre = pm.PrelimStage._run(pm.PrelimInput(
        x=c["x"].copy(), y=c["y"].copy(), x_raw=c["x"].copy(), y_raw=c["y"].copy(), s=None,
        inst_labels=pd.Series([f"i{k}" for k in range(n)]), prelim_options=po, selvars_options=o.SelvarsOptions.default()))
    best = c["y"].argmax(1) if c["maxp"] else c["y"].argmin(1)
    to, pp = topts(0.55, False, 2)
    seen = []
    find(ST + "trace:TraceStage.build", ["y_bin"])
    real = m.TraceStage.build

    def build(self, y_bin):
        seen.append(np.array(y_bin))
        return real(self, y_bin)
    with mock.patch.object(m.TraceStage, "build", build):
        out = m.TraceStage._run(m.TraceInputs(z=c["z"], selection0=np.full(n, -1), p=pre.p, beta=pre.beta, algo_labels=c["al"],
                                              y_hat=np.zeros((n, a), bool), y_bin=pre.y_bin, trace_options=to, parallel_options=pp))

    def agrees(shift):
        for j in range(a):
            y = best == j - shift
            need(any(same(q, y) for q in seen), f"no footprint is built from the instances on which algorithm {j - shift} is best")
            check_fp(out.best[j], c["z"], y, f"best of algorithm {j}")
    shift = False
    try:
        agrees(0)
    except AssertionError as e:
        try:
            agrees(1)
        except AssertionError:
            raise e from None
        shift = True
    if shift:
        raise Known("C27:experimental-best-algorithm-number",
                    "with experimental data (use_sim false) TRACE compares the one-based numbers p of the preliminary "
                    "stage with zero-based positions: the best footprint of algorithm k is built from the instances of "
                    "algorithm k-1, and the first algorithm has none")
