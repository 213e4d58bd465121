"""C21, C22: automatic feature selection."""
import math
from types import SimpleNamespace
from unittest import mock

import numpy as np
import pandas as pd
from scipy.stats import pearsonr

from .base import Skip, find, labels, need, oracle, same

ST = "instancespace.stages."
PER_INST = ["y", "y_bin", "x_raw", "y_raw", "beta", "num_good_algos", "y_best", "p"]


def mods():
    import instancespace.data.options as o
    import instancespace.stages.sifted as m
    return o, m


def fake_pilot(log=None):
    """A cheap stand-in for the projection: two fixed combinations of the given features."""
    def pilot(x, y, feat_labels, opts=None, *a, **k):
        x = np.asarray(x)
        z = np.column_stack([x.sum(axis=1), x[:, 0]])
        if log is not None:
            log.append((z, x.copy(), list(feat_labels)))
        return SimpleNamespace(z=z)
    return pilot


def stub(m, log=None, score=None):
    if not hasattr(m, "PilotStage") or not hasattr(m, "cross_val_score"):
        raise Skip("the projection or cross-validation of the search is called another way")
    ps = [mock.patch.object(m.PilotStage, "pilot", staticmethod(fake_pilot(log)))]
    if score is not None:
        ps.append(mock.patch.object(m, "cross_val_score", score))
    return ps


def g_sift(rng, i):
    kind = i % 6
    n = int(rng.integers(24, 40))
    d = int(rng.integers(4, 9)) if kind > 1 else int(rng.integers(1, 4))
    a = int(rng.integers(1, 4))
    x = rng.normal(size=(n, d))
    w = rng.normal(size=(d, a)) * (rng.random((d, a)) < 0.6)
    y = x @ w + 0.4 * rng.normal(size=(n, a))
    if kind == 5:
        y = rng.normal(size=(n, a))
    y_bin = y > np.median(y, axis=0)
    k = int(rng.integers(2, 5))
    flag = kind != 2 or rng.random() < 0.3
    dense = kind == 4
    c = dict(x=x, y=y, y_bin=y_bin, x_raw=rng.normal(size=(n, d + 1)), y_raw=rng.normal(size=(n, a)),
             beta=rng.random(n) < 0.5, num_good_algos=y_bin.sum(axis=1).astype(float),
             y_best=rng.normal(size=n), p=rng.integers(0, a, n),
             inst_labels=pd.Series(labels(rng, n, "i")),
             s=None if rng.random() < 0.4 else pd.Series([f"s{int(v)}" for v in rng.integers(0, 40, n)]),
             feat_labels=labels(rng, d, "feature_"), k=k, rho=float(rng.choice([0.0, 0.1, 0.3, 0.6, 0.95])),
             flag=bool(flag), dense=dense, dist=float(rng.choice([0.5, 1.5, 2.5])),
             ftype=["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"][int(rng.integers(4))])
    if dense:
        nd = n + int(rng.integers(0, 6))
        xd = rng.normal(size=(nd, d))
        yd = rng.normal(size=(nd, a))
        c["dd"] = dict(x=xd, y=yd, x_raw=rng.normal(size=(nd, d)), y_raw=rng.normal(size=(nd, a)), y_bin=yd > 0,
                       y_best=rng.normal(size=(nd, 1)), p=rng.integers(0, a, nd),
                       num_good_algos=(yd > 0).sum(axis=1).astype(float), beta=rng.random(nd) < 0.5,
                       inst_labels=pd.Series(labels(rng, nd, "d")),
                       s=pd.Series([f"t{int(v)}" for v in rng.integers(0, 40, nd)]) if c["s"] is not None else None)
    return c


def sift_input(c):
    o, m = mods()
    dd = None
    if c["dense"]:
        from instancespace.data.model import DataDense
        dd = DataDense(**c["dd"])
    so = o.SiftedOptions.default(flag=c["flag"], rho=c["rho"], k=c["k"], replicates=1, num_generations=2,
                                 sol_per_pop=5, max_iter=50, k_tournament=2)
    return m.SiftedInput(x=c["x"], y=c["y"], y_bin=c["y_bin"], x_raw=c["x_raw"], y_raw=c["y_raw"], beta=c["beta"],
                         num_good_algos=c["num_good_algos"], y_best=c["y_best"], p=c["p"],
                         inst_labels=c["inst_labels"], feat_labels=c["feat_labels"], s=c["s"], sifted_options=so,
                         selvars_options=o.SelvarsOptions.default(density_flag=c["dense"], min_distance=c["dist"],
                                                                  selvars_type=c["ftype"]),
                         data_dense=dd, parallel_options=o.ParallelOptions.default(flag=False))


def snap(c):
    out = {}
    for k in ("x", *PER_INST):
        out[k] = c[k].copy()
    out["inst_labels"] = list(c["inst_labels"])
    out["feat_labels"] = list(c["feat_labels"])
    return out


@oracle(["C21"], g_sift, 60, 600)
def sifted_run(c):
    """the real stage on random data (1 to 8 features, selection on and off, few and many relevant features, with and without a dense data set; the projection inside the search is replaced by a cheap one): columns, indices, names and per-instance data"""
    o, m = mods()
    inp = sift_input(c)
    b4 = snap(c)
    d = c["x"].shape[1]
    try:
        import contextlib
        with contextlib.ExitStack() as st:
            for p in stub(m):
                st.enter_context(p)
            out = m.SiftedStage._run(inp)
    except m.NotEnoughFeatureError:
        need(d <= 1 or (c["flag"] and d > 3), "feature selection gave up although it is off or has few features")
        if d > 1:
            rho_ok = survivors(c)
            need(min(len(r) for r in rho_ok) <= 1, "gave up although several features are relevant")
        return
    need(d > 1, "a single feature was accepted")
    for k in ("x", *PER_INST):
        need(same(b4[k], c[k]), f"the caller's {k} changed")
    need(b4["feat_labels"] == list(c["feat_labels"]), "the caller's labels changed")
    idx = [int(v) for v in out.selvars]
    need(idx == [int(v) for v in out.idx], "selvars and idx differ")
    need(len(set(idx)) == len(idx) and idx == sorted(idx) and all(0 <= v < d for v in idx), f"indices {idx}")
    need(list(out.feat_labels) == [c["feat_labels"][v] for v in idx], f"names {out.feat_labels} for {idx}")
    if d <= 3 or not c["flag"]:
        need(idx == list(range(d)), "features were dropped without a selection")
    il = list(out.inst_labels)
    if il == b4["inst_labels"]:
        need(same(out.x, c["x"][:, idx]), "the features are not the selected columns")
        for k in PER_INST:
            need(same(getattr(out, k), b4[k]), f"{k} changed")
        need((out.s is None) == (c["s"] is None) and (out.s is None or list(out.s) == list(c["s"])), "sources")
        return
    need(c["dense"], "instances were dropped without a density filter")
    dd = c["dd"]
    pos = {v: k for k, v in enumerate(dd["inst_labels"])}
    need(all(v in pos for v in il), "unknown instances")
    rows = [pos[v] for v in il]
    need(rows == sorted(set(rows)), "order of the kept instances")
    need(same(out.x, dd["x"][rows][:, idx]), "dense features")
    for k in PER_INST:
        need(same(getattr(out, k), dd[k][rows]), f"dense {k}")
    if dd["s"] is not None:
        need(list(out.s) == [dd["s"].iloc[r] for r in rows], "dense sources")


# ------------------------------------------------------------------ C22
def corr(x, y):
    d, a = x.shape[1], y.shape[1]
    r = np.full((d, a), np.nan)
    p = np.full((d, a), np.nan)
    for i in range(d):
        for j in range(a):
            ok = [k for k in range(len(x)) if not math.isnan(x[k, i]) and not math.isnan(y[k, j])]
            if ok:
                r[i, j], p[i, j] = pearsonr(x[ok, i], y[ok, j])
    return r, p


def survivors(c):
    """All admissible survivor sets (ties for the most correlated feature may be broken either way)."""
    r, p = corr(c["x"], c["y"])
    e = np.where(np.isnan(r) | np.isnan(p) | (p > 0.05), 0.0, np.abs(r))
    base = {i for i in range(e.shape[0]) if any(e[i, j] >= c["rho"] for j in range(e.shape[1]))}
    sets = {frozenset(base)}
    for j in range(e.shape[1]):
        top = e[:, j].max()
        best = [i for i in range(e.shape[0]) if e[i, j] == top]
        sets = {s | {b} for s in sets for b in best}
    return sets


def g_corr(rng, i):
    c = g_sift(rng, 5 if i % 3 == 0 else 3)
    if i % 4 == 1:
        for k in ("x", "y"):
            c[k][rng.random(c[k].shape) < 0.15] = np.nan
    if i % 7 == 2:
        c["rho"] = None
    if i % 5 == 3 and c["x"].shape[1] > 1:
        c["x"][:, 1] = c["x"][:, 0]
    if i % 11 == 4 and c["x"].shape[1] > 1:
        c["x"][:, 1] = -c["x"][:, 0]
    if c["rho"] is None:          # a threshold which one of the correlations equals exactly
        r, p = corr(c["x"], c["y"])
        ok = np.argwhere(p <= 0.05)
        c["rho"] = float(abs(r[tuple(ok[int(rng.integers(len(ok)))])])) if len(ok) else 0.5
    return c


def stage(m, c):
    inp = sift_input(dict(c, dense=False))
    try:
        return m.SiftedStage(x=c["x"], y=c["y"], y_bin=c["y_bin"], x_raw=c["x_raw"], y_raw=c["y_raw"],
                             beta=c["beta"], num_good_algos=c["num_good_algos"], y_best=c["y_best"], p=c["p"],
                             inst_labels=c["inst_labels"], s=c["s"], feat_labels=c["feat_labels"],
                             opts=inp.sifted_options, parallel_options=inp.parallel_options)
    except TypeError:
        raise Skip("the stage is constructed differently") from None


@oracle("C22", g_corr, 150, 2000)
def correlation_step(c):
    """random features and performances (missing values, duplicated and negated features, thresholds hit exactly): survivors are those the rule keeps, in order, with their own columns"""
    o, m = mods()
    if not hasattr(m.SiftedStage, "select_features_by_performance"):
        raise Skip("select_features_by_performance is gone")
    s = stage(m, c)
    x0, y0 = c["x"].copy(), c["y"].copy()
    xa, rho, pval, sel = s.select_features_by_performance()
    need(same(c["x"], x0) and same(c["y"], y0), "the data changed")
    sel = [int(v) for v in sel]
    need(sel == sorted(set(sel)), f"order {sel}")
    need(same(xa, c["x"][:, sel]), "columns")
    ok = survivors(c)
    need(frozenset(sel) in ok, f"kept {sel}, expected one of {[sorted(t) for t in list(ok)[:3]]}")
    r, p = corr(c["x"], c["y"])
    need(np.allclose(r, rho, equal_nan=True) and np.allclose(p, pval, equal_nan=True), "reported correlations")


def err_of(z, t):
    """A deterministic stand-in for the cross-validated error of one algorithm."""
    z, t = np.asarray(z, float), np.asarray(t, float)
    v = abs(float((np.sin(z[:, 0] * 3) * (t + 0.5)).sum() + np.cos(z[:, 1] * 5).sum() * 0.3))
    return (v % 7.0) / 7.0


def fake_score(est, z, t, *a, **k):
    e = err_of(z, t)
    s = k.get("scoring")
    if s != "neg_mean_squared_error":
        raise Skip("another error measure")
    return np.array([-e * 1.2, -e * 0.8])


def g_cost(rng, i):
    c = g_sift(rng, 3)
    d, k = c["x"].shape[1], int(rng.integers(2, 5))
    k = min(k, d)
    lab = np.concatenate([np.arange(k), rng.integers(0, k, d - k)])
    rng.shuffle(lab)
    c.update(k=k, clust=np.column_stack([lab == q for q in range(k)]),
             sols=rng.integers(-3, d + 9, (6, k)))
    return c


@oracle("C22", g_cost, 100, 1500)
def cost_ranks_by_worst_error(c):
    """random clusterings and combinations with a stubbed projection and error: a combination with a lower worst error gets the higher fitness, and exactly one feature of every cluster is used"""
    o, m = mods()
    f = find(ST + "sifted:SiftedStage.cost_fcn", ["instance", "solutions", "_solution_idx"])
    log = []
    inst = SimpleNamespace(selfx=c["x"], selfy=c["y"], selfy_bin=c["y_bin"], cv_partition=None, clust=c["clust"],
                           selffeat_labels=np.array(c["feat_labels"]))
    import contextlib
    res = []
    with contextlib.ExitStack() as st:
        for p in stub(m, log, fake_score):
            st.enter_context(p)
        for q, sol in enumerate(c["sols"]):
            log.clear()
            try:
                fit = f(inst, sol, q)
            except AttributeError as ex:
                raise Skip(f"other attributes of the search: {ex}") from None
            need(len(log) == 1, "the projection of a combination was computed more than once")
            z, xs, names = log[0]
            cols = [c["feat_labels"].index(v) for v in names]
            need(same(xs, c["x"][:, cols]), "names and columns of the combination differ")
            need(sorted(int(np.argmax(c["clust"][v])) for v in cols) == list(range(c["k"])),
                 "not one feature of every cluster")
            worst = max(err_of(z, c["y_bin"][:, j].astype(int)) for j in range(c["y"].shape[1]))
            res.append((worst, float(fit)))
    for w1, f1 in res:
        for w2, f2 in res:
            if w1 < w2 - 1e-9:
                need(f1 > f2, f"worst errors {w1} < {w2} but fitness {f1} <= {f2}")


@oracle("C22", g_cost, 40, 400)
def search_keeps_the_best(c):
    """the real search with a stubbed projection and error: the returned combination has the lowest worst error of all evaluated ones, and its columns and indices belong to the original features"""
    o, m = mods()
    if not hasattr(m.SiftedStage, "_find_best_combination"):
        raise Skip("_find_best_combination is gone")
    rng = np.random.default_rng(7)
    d = c["x"].shape[1]
    wide = np.column_stack([c["x"][:, :1] * 0 + 9, c["x"], c["x"] * 2 + 1])      # features that were dropped before
    names = ["feature_dropped", *c["feat_labels"], *[v + "b" for v in c["feat_labels"]]]
    sel = np.arange(1, d + 1)
    s = stage(m, dict(c, x=wide, feat_labels=names))
    log = []
    import contextlib
    with contextlib.ExitStack() as st:
        for p in stub(m, log, fake_score):
            st.enter_context(p)
        try:
            sx, dec = s._find_best_combination(c["x"], c["clust"], sel, rng)
        except TypeError as ex:
            raise Skip(f"other arguments: {ex}") from None
    dec = [int(v) for v in dec]
    need(dec == sorted(set(dec)) and set(dec) <= set(int(v) for v in sel), f"indices {dec}")
    need(same(sx, wide[:, dec]), "the returned columns are not those of the returned indices")
    worst = lambda z: max(err_of(z, c["y_bin"][:, j].astype(int)) for j in range(c["y"].shape[1]))
    got = worst(fake_pilot()(sx, None, []).z)
    best = min(worst(z) for z, _, _ in log)
    need(got <= best + 1e-9, f"returned a combination with worst error {got} although {best} was evaluated")
    for _, xs, nm in log:
        need(same(xs, wide[:, [names.index(v) for v in nm]]), "names and columns of an evaluated combination")
