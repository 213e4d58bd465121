"""C13-C20: preprocessing, preparation, filtering (real code against independent reference formulas)."""
import copy
import math
import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from .base import Skip, close, find, labels, need, oracle, same

ST = "instancespace.stages."


def opts():
    import instancespace.data.options as o
    return o


def sel(**kw):
    return opts().SelvarsOptions.default(**kw)


def matrix(rng, n, d, nan=0.0, ties=False, integer=False):
    m = rng.integers(0, 4, (n, d)).astype(float) if ties else rng.normal(0, 3, (n, d)).round(3)
    if integer:
        m = rng.integers(-5, 6, (n, d)).astype(float)
    if nan:
        m[rng.random((n, d)) < nan] = np.nan
    return m


# ------------------------------------------------------------------ C13
def g_select(rng, i):
    n, d, a = int(rng.integers(1, 7)), int(rng.integers(1, 7)), int(rng.integers(1, 6))
    fl, al = labels(rng, d, "feature_"), labels(rng, a, "algo_")

    def pick(names, pre):
        k = int(rng.integers(0, 5))
        if k == 0:
            return None
        if k == 1:
            return [pre + "unknown"]
        got = [x for x in names if rng.random() < 0.5]
        if k == 2:
            got.append(pre + "unknown")
        if k == 3:
            got = [x[:-1] + "_" for x in names]      # near misses
        if k == 4 and rng.random() < 0.3:
            got = []
        rng.shuffle(got)
        return got
    return {"x": matrix(rng, n, d, 0.1), "y": matrix(rng, n, a, 0.1), "fl": fl, "al": al,
            "feats": pick(fl, "feature_"), "algos": pick(al, "algo_")}


def expect_sel(names, want):
    idx = list(range(len(names)))
    if want is not None:
        keep = [k for k in idx if names[k] in want]
        if keep:
            return keep
    return idx


def check_selected(c, nx, ny, nfl, nal):
    kf, ka = expect_sel(c["fl"], c["feats"]), expect_sel(c["al"], c["algos"])
    need(list(nfl) == [c["fl"][k] for k in kf], f"feature names {nfl}")
    need(list(nal) == [c["al"][k] for k in ka], f"algorithm names {nal}")
    need(same(nx, c["x"][:, kf]), "feature columns")
    need(same(ny, c["y"][:, ka]), "algorithm columns")


@oracle("C13", g_select, 400, 6000)
def select_helper(c):
    """random labelled matrices and selections (None, empty, unknown, partial, shuffled, all): exactly the selected columns under their names"""
    f = find(ST + "preprocessing:PreprocessingStage.select_features_and_algorithms",
             ["x", "y", "feat_labels", "algo_labels", "selvars"])
    x0, y0, fl0, al0 = c["x"].copy(), c["y"].copy(), list(c["fl"]), list(c["al"])
    nx, ny, nfl, nal = f(c["x"], c["y"], c["fl"], c["al"], sel(feats=c["feats"], algos=c["algos"]))
    check_selected(dict(c, x=x0, y=y0, fl=fl0, al=al0), nx, ny, nfl, nal)
    need(same(c["x"], x0) and same(c["y"], y0) and c["fl"] == fl0 and c["al"] == al0, "inputs changed")


def run_pre(c, **over):
    import instancespace.stages.preprocessing as m
    n = c["x"].shape[0]
    inp = m.PreprocessingInput(feature_names=c["fl"], algorithm_names=c["al"], instance_labels=c["il"],
                               instance_sources=c["s"], features=c["x"], algorithms=c["y"],
                               selvars_options=sel(feats=c.get("feats"), algos=c.get("algos")))
    return m.PreprocessingStage._run(inp)


def g_pre(rng, i):
    c = g_select(rng, i)
    n = c["x"].shape[0]
    rate = [0.0, 0.05, 0.15, 0.25, 0.5][i % 5]
    for m in ("x", "y"):
        a = c[m]
        a[rng.random(a.shape) < rate] = np.nan
        for r in range(n):
            if rng.random() < 0.12:
                a[r, :] = np.nan
        if a.shape[1] > 1 and rng.random() < 0.2 and m == "x":
            a[:, int(rng.integers(a.shape[1]))] = np.nan
    c["il"] = pd.Series([f"i{int(v)}" for v in rng.permutation(n)])
    c["s"] = None if rng.random() < 0.4 else pd.Series([f"s{int(v)}" for v in rng.integers(0, 50, n)])
    return c


def expect_removed(x, y, il, s, fl):
    """The documented rule, written out with loops."""
    n, d = x.shape
    keep = [r for r in range(n) if not all(math.isnan(v) for v in x[r]) and not all(math.isnan(v) for v in y[r])]
    if not keep:
        return None
    cols = [k for k in range(d) if sum(math.isnan(x[r, k]) for r in keep) / len(keep) < 0.2]
    return (x[keep][:, cols], y[keep], [il.iloc[r] for r in keep],
            None if s is None else [s.iloc[r] for r in keep], [fl[k] for k in cols])


def check_removed(e, nx, ny, nil, nfl, ns):
    ex, ey, eil, es, efl = e
    need(same(nx, ex), f"features {nx} expected {ex}")
    need(same(ny, ey), f"performances {ny} expected {ey}")
    need(list(nil) == eil, f"labels {list(nil)} expected {eil}")
    need(list(nfl) == efl, f"feature names {nfl} expected {efl}")
    need((ns is None) == (es is None) and (es is None or list(ns) == es), "sources")


@oracle(["C14"], g_pre, 400, 6000)
def missing_helper(c):
    """random missing-value patterns (empty rows, empty columns, rates up to 0.5): rows, columns and labels follow the rule and stay aligned"""
    f = find(ST + "preprocessing:PreprocessingStage.remove_instances_with_many_missing_values",
             ["x", "y", "s", "feat_labels", "inst_labels"])
    e = expect_removed(c["x"], c["y"], c["il"], c["s"], c["fl"])
    if e is None or e[0].shape[1] == 0:
        raise Skip("nothing is left")
    nx, ny, nil, nfl, ns = f(c["x"], c["y"], c["s"], c["fl"], c["il"])
    check_removed(e, nx, ny, nil, nfl, ns)


def inputs_unchanged(before, after):
    for k, v in before.items():
        w = after[k]
        if isinstance(v, np.ndarray):
            need(same(v, w), f"the caller's {k} changed")
        elif isinstance(v, pd.Series):
            need(list(v) == list(w) and list(v.index) == list(w.index), f"the caller's {k} changed")
        else:
            need(v == w, f"the caller's {k} changed")


@oracle(["C13", "C14", "C20"], g_pre, 300, 4000)
def preprocessing_stage(c):
    """the whole preprocessing stage on random tables: selection then removal, names aligned, raw data equal to the kept data, inputs untouched"""
    kf, ka = expect_sel(c["fl"], c["feats"]), expect_sel(c["al"], c["algos"])
    before = copy.deepcopy(c)
    e = expect_removed(c["x"][:, kf], c["y"][:, ka], c["il"], c["s"], [c["fl"][k] for k in kf])
    if e is None or e[0].shape[1] == 0:
        raise Skip("nothing is left")
    out = run_pre(c)
    check_removed(e, out.x, out.y, out.inst_labels, out.feat_labels, out.s)
    need(list(out.algo_labels) == [c["al"][k] for k in ka], "algorithm names")
    need(same(out.x_raw, e[0]) and same(out.y_raw, e[1]), "raw data")
    inputs_unchanged(before, c)


# ------------------------------------------------------------------ C15-C18, C20
def g_prelim(rng, i, norm=None, bound=None):
    n, d, a = int(rng.integers(4, 14)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
    x = rng.normal(0, 2, (n, d)).round(2)
    for k in range(d):                      # outliers
        if rng.random() < 0.5:
            x[int(rng.integers(n)), k] = float(rng.choice([-1, 1])) * 1000.0
    kind = i % 4
    if kind == 0:
        y = rng.integers(0, 5, (n, a)).astype(float)
    elif kind == 1:
        y = rng.uniform(0.01, 3, (n, a)).round(2)
    elif kind == 2:
        y = rng.integers(1, 4, (n, a)) / 2.0
    else:
        y = rng.uniform(0.5, 100, (n, a))
    if rng.random() < 0.5:
        mask = rng.random(y.shape) < 0.15
        mask[:, 0] = False
        y[mask] = np.nan
    if rng.random() < 0.4:
        mask = rng.random(x.shape) < 0.15
        mask[:3] = False
        x[mask] = np.nan
    o = dict(max_perf=bool(rng.integers(2)), abs_perf=bool(rng.integers(2)),
             epsilon=float(rng.choice([0.0, 0.05, 0.2, 0.5, 1.0, 2.0, 3.0])),
             beta_threshold=float(rng.choice([0.0, 0.25, 0.5, 0.55, 0.75, 1.0])),
             bound=bool(rng.integers(2)) if bound is None else bound,
             norm=bool(rng.integers(2)) if norm is None else norm)
    x_raw, y_raw = x + 100.0, y + 200.0     # distinct, so that a mix-up shows
    return dict(x=x, y=y, x_raw=x_raw, y_raw=y_raw, opt=o,
                il=pd.Series([f"i{int(v)}" for v in rng.permutation(n)]),
                s=None if rng.random() < 0.4 else pd.Series([f"s{int(v)}" for v in rng.integers(0, 9, n)]),
                sel={})


def run_prelim(c):
    import instancespace.stages.prelim as m
    inp = m.PrelimInput(x=c["x"], y=c["y"], x_raw=c["x_raw"], y_raw=c["y_raw"], s=c["s"], inst_labels=c["il"],
                        prelim_options=opts().PrelimOptions(**c["opt"]), selvars_options=sel(**c["sel"]))
    return m.PrelimStage._run(inp)


EPS = float(np.finfo(float).eps)


def expected_good(c):
    """Goodness, best value, first best algorithm: from the property text."""
    y, o = c["y"], c["opt"]
    n, a = y.shape
    good, best, argbest = np.zeros((n, a), bool), np.zeros(n), []
    for r in range(n):
        vals = [(-math.inf if o["max_perf"] else math.inf) if math.isnan(v) else v for v in y[r]]
        b = max(vals) if o["max_perf"] else min(vals)
        argbest.append({k for k in range(a) if vals[k] == b})
        if not o["abs_perf"] and b == 0:
            b = EPS
        best[r] = b
        for k in range(a):
            v = vals[k]
            if o["abs_perf"]:
                good[r, k] = v >= o["epsilon"] if o["max_perf"] else v <= o["epsilon"]
            elif o["max_perf"]:
                good[r, k] = np.float64(1) - np.float64(v) / np.float64(b) <= o["epsilon"]
            else:
                good[r, k] = np.float64(1) - np.float64(b) / np.float64(v) <= o["epsilon"]
    return good, best, argbest


@oracle("C15", lambda r, i: g_prelim(r, i, norm=False if i % 3 else None), 300, 4000)
def goodness(c):
    """random performance matrices with ties, zeros and missing values, all four criteria and random thresholds: good, best, best algorithm, count and easiness equal the definition"""
    good, best, argbest = expected_good(c)
    if not c["opt"]["abs_perf"] and np.nanmin(c["y"]) < 0:
        raise Skip("relative criterion on negative performances")
    out = run_prelim(c)
    n, a = c["y"].shape
    need(same(np.asarray(out.y_bin, bool), good), f"goodness {out.y_bin.tolist()} expected {good.tolist()}")
    need(close(np.asarray(out.y_best).reshape(-1), best, 1e-12, 0), f"best value {out.y_best}")
    p = np.asarray(out.p).reshape(-1)
    need(p.shape == (n,), "one best algorithm per instance")
    for r in range(n):
        need(int(p[r]) - 1 in argbest[r], f"best algorithm of instance {r}: {p[r]} (counted from 1)")
    cnt = good.sum(axis=1)
    need(same(np.asarray(out.num_good_algos).reshape(-1), cnt), "number of good algorithms")
    need(same(np.asarray(out.beta, bool).reshape(-1), cnt > c["opt"]["beta_threshold"] * a), "easiness")


def quantiles(col):
    v = sorted(t for t in col if not math.isnan(t))
    m = len(v)

    def q(p):
        h = (m - 1) * p
        lo, hi = int(math.floor(h)), int(math.ceil(h))
        return v[lo] if lo == hi else (v[lo] + v[hi]) / 2      # 'midpoint'
    med = v[m // 2] if m % 2 else (v[m // 2 - 1] + v[m // 2]) / 2
    return med, q(0.75) - q(0.25)


def bounds(x):
    mq = [quantiles(x[:, k]) for k in range(x.shape[1])]
    med, iqr = np.array([a for a, _ in mq]), np.array([b for _, b in mq])
    return med, iqr, med + 5 * iqr, med - 5 * iqr


@oracle("C16", lambda r, i: g_prelim(r, i, norm=False), 300, 4000)
def bounding(c):
    """random features with outliers and missing values: clipped to median plus or minus five IQR, reported bounds equal the definition"""
    x0 = c["x"].copy()
    out = run_prelim(c)
    med, iqr, hi, lo = bounds(x0)
    need(close(out.med_val, med) and close(out.iq_range, iqr), f"median {out.med_val} / IQR {out.iq_range}; expected {med} {iqr}")
    need(close(out.hi_bound, hi) and close(out.lo_bound, lo), "reported bounds")
    want = np.where(x0 > hi, hi, np.where(x0 < lo, lo, x0)) if c["opt"]["bound"] else x0
    need(close(out.x, want), f"bounded values {out.x.tolist()} expected {want.tolist()}")


def boxcox(v, lam):
    return np.log(v) if abs(lam) < 1e-300 else np.expm1(lam * np.log(v)) / lam


def check_norm(col_in, low, add, col_out, lam, mu, sigma, what):
    ok = ~np.isnan(col_in)
    need(bool(np.isnan(np.asarray(col_out)[~ok]).all()), f"{what}: missing entries stay missing")
    t = boxcox(col_in[ok] - low + add, lam)
    m, sd = t.mean(), t.std(ddof=1)
    if not (np.isfinite(t).all() and sd > 1e-6 * (1 + abs(m))):
        return
    need(close([mu, sigma], [m, sd], 1e-6, 1e-9), f"{what}: reported mean/deviation {mu} {sigma}, expected {m} {sd}")
    need(close(np.asarray(col_out)[ok], (t - m) / sd, 1e-5, 1e-6), f"{what}: standardised values")


@oracle(["C17"], lambda r, i: g_prelim(r, i), 100, 1500)
def normalising(c):
    """random non-constant data: every processed column equals the standardised power transform given by the reported parameters"""
    for m in (c["x"], c["y"]):
        for k in range(m.shape[1]):
            v = m[:, k][~np.isnan(m[:, k])]
            if len(np.unique(v)) < 3:
                raise Skip("constant column")
    x0, y0 = c["x"].copy(), c["y"].copy()
    o = c["opt"]
    if not o["abs_perf"] and not o["norm"]:
        _, best, _ = expected_good(c)
        yz = np.where(y0 == 0, EPS, y0)
        yexp = 1 - yz / best[:, None] if o["max_perf"] else 1 - best[:, None] / yz
    else:
        yexp = y0
    _, _, hi, lo = bounds(x0)
    xb = np.where(x0 > hi, hi, np.where(x0 < lo, lo, x0)) if o["bound"] else x0
    for k in range(xb.shape[1]):
        v = xb[:, k][~np.isnan(xb[:, k])]
        if len(np.unique(v)) < 3:
            raise Skip("constant column after bounding")
    out = run_prelim(c)
    need(out.x.shape == x0.shape and out.y.shape == y0.shape, "shape")
    if not o["norm"]:
        need(close(out.x, xb), "features are left as they were")
        need(close(out.y, yexp), "performances are left as they were")
        return
    need(close(out.min_x, np.nanmin(xb, axis=0)), "reported minimum of the features")
    need(close(out.min_y, np.nanmin(y0)), "reported minimum of the performances")
    for k in range(x0.shape[1]):
        check_norm(xb[:, k], out.min_x[k], 1, out.x[:, k], out.lambda_x[k], out.mu_x[k], out.sigma_x[k], f"feature {k}")
    for k in range(y0.shape[1]):
        check_norm(y0[:, k], out.min_y, EPS, out.y[:, k], out.lambda_y[k], out.mu_y[k], out.sigma_y[k], f"performance {k}")


PER_INST = ("x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta")


def g_subset(rng, i):
    c = g_prelim(rng, i, norm=False)
    n = c["x"].shape[0]
    c["mode"] = ["frac", "file", "dens", "none", "file0"][i % 5]
    c["x"] = rng.integers(0, 4, c["x"].shape).astype(float)
    c["frac"] = float(rng.choice([0.2, 0.3, 0.5, 0.7]))
    k = int(rng.integers(1, n + 2))
    c["ids"] = [int(v) for v in rng.integers(1, n + 1, k)]
    if c["mode"] == "file0":
        c["ids"] += [0, n + 1, n + 7, -1]
        rng.shuffle(c["ids"])
    c["dist"] = float(rng.choice([0.5, 1.0, 1.5, 2.0]))
    c["type"] = str(rng.choice(["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]))
    if c["mode"] == "dens":
        c["y"] = np.nan_to_num(c["y"], nan=1.0)
    return c


@oracle(["C18", "C20"], g_subset, 300, 4000)
def subset_alignment(c):
    """random data with a fraction, an index file (with out-of-range entries), a density filter or nothing: every per-instance output is the same selection of the unrestricted output"""
    full_c = copy.deepcopy(c)
    full = run_prelim(full_c)
    n = c["x"].shape[0]
    before = copy.deepcopy(c)
    tmp = None
    try:
        if c["mode"] == "frac":
            c["sel"] = dict(small_scale_flag=True, small_scale=c["frac"])
        elif c["mode"].startswith("file"):
            fd, tmp = tempfile.mkstemp(suffix=".csv")
            with os.fdopen(fd, "w") as f:
                f.write("\n".join(map(str, c["ids"])) + "\n")
            c["sel"] = dict(file_idx_flag=True, file_idx=tmp)
        elif c["mode"] == "dens":
            c["sel"] = dict(density_flag=True, min_distance=c["dist"], selvars_type=c["type"])
        out = run_prelim(c)
    finally:
        if tmp:
            os.unlink(tmp)
    c["sel"] = {}
    for k in ("x", "y", "x_raw", "y_raw", "opt"):
        if k != "opt":
            need(same(before[k], c[k]), f"the caller's {k} changed")
    need(list(before["il"]) == list(c["il"]), "the caller's labels changed")
    # identify the selection by the (distinct) labels
    got = list(out.inst_labels)
    need(len(set(got)) == len(got) and set(got) <= set(c["il"]), f"labels {got}")
    idx = [list(c["il"]).index(t) for t in got]
    for k in PER_INST:
        v, w = np.asarray(getattr(out, k)), np.asarray(getattr(full, k))
        need(same(v, w[idx]), f"{k} is not aligned with the labels")
    if c["s"] is None:
        need(out.s is None, "sources appeared")
    else:
        need(list(out.s) == [c["s"].iloc[k] for k in idx], "sources are not aligned with the labels")
    if c["mode"] == "none":
        need(idx == list(range(n)), "instances were dropped without a restriction")
    elif c["mode"].startswith("file"):
        need(sorted(idx) == sorted({k - 1 for k in c["ids"] if 1 <= k <= n}), f"selected {idx} for file {c['ids']}")
    elif c["mode"] == "frac":
        need(len(idx) == math.ceil(c["frac"] * n), f"{len(idx)} of {n} instances for fraction {c['frac']}")
    else:
        kept = expected_filter(np.asarray(full.x), np.asarray(full.y), np.asarray(full.y_bin), c["type"], c["dist"])
        need(sorted(idx) == kept, f"kept {idx} expected {kept}")
        need(out.data_dense is not None and same(out.data_dense.x, full.x) and
             list(out.data_dense.inst_labels) == list(c["il"]), "dense data are the full data")
    need(idx == sorted(idx), "original order")


@oracle("C20", lambda r, i: g_prelim(r, i), 120, 1500)
def raw_preserved(c):
    """random data and options of the preparation stage: raw outputs equal raw inputs, no input object is modified"""
    for m in (c["x"], c["y"]):
        for k in range(m.shape[1]):
            if len(np.unique(m[:, k][~np.isnan(m[:, k])])) < 3:
                raise Skip("constant column")
    if c["opt"]["bound"]:
        _, _, hi, lo = bounds(c["x"])
        if (hi - lo < 1e-12).any():
            raise Skip("constant column after bounding")
    before = copy.deepcopy(c)
    out = run_prelim(c)
    need(same(out.x_raw, before["x_raw"]), "raw features changed")
    need(same(out.y_raw, before["y_raw"]), "raw performances changed")
    inputs_unchanged(before, c)


# ------------------------------------------------------------------ C19
def agree(y, yb, i, j, typ, gamma):
    dy = math.sqrt(sum((a - b) ** 2 for a, b in zip(y[i], y[j])))
    db = all(bool(a) and bool(b) for a, b in zip(yb[i], yb[j]))
    return {"Ftr": True, "Ftr&AP": dy <= gamma, "Ftr&Good": db, "Ftr&AP&Good": db and dy <= gamma}[typ]


def expected_filter(x, y, yb, typ, dist):
    """Greedy definition: an instance is kept unless an earlier kept one is near and agrees."""
    n = x.shape[0]
    gamma = math.sqrt(y.shape[1] / x.shape[1]) * dist
    kept = []
    for j in range(n):
        if not any(math.sqrt(sum((a - b) ** 2 for a, b in zip(x[i], x[j]))) <= dist and
                   agree(y, yb, i, j, typ, gamma) for i in kept):
            kept.append(j)
    return kept


def g_filter(rng, i):
    n, d, a = int(rng.integers(1, 14)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    return dict(x=rng.integers(0, 5, (n, d)).astype(float), y=rng.integers(0, 5, (n, a)).astype(float),
                yb=rng.random((n, a)) < 0.75, type=["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"][i % 4],
                dist=float(rng.choice([0.0, 0.7, 1.0, 1.4, 2.0, 3.0])))


@oracle("C19", g_filter, 600, 8000)
def filtering(c):
    """random grids, distances and the four types: removed instances are exactly those near and in agreement with an earlier kept one; dissimilar exactly if no kept earlier one is near"""
    f = find("instancespace.utils.filter:filter_instance", ["x", "y", "y_bin", "selvars_type", "min_distance"])
    b = {k: c[k].copy() for k in ("x", "y", "yb")}
    excl, dis, visa = f(c["x"], c["y"], c["yb"], c["type"], c["dist"])
    n = c["x"].shape[0]
    kept = expected_filter(b["x"], b["y"], b["yb"], c["type"], c["dist"])
    got = [k for k in range(n) if not excl[k]]
    need(got == kept, f"kept {got} expected {kept}")
    for k in b:
        need(same(b[k], c[k]), f"the caller's {k} changed")
    for j in range(n):
        near = [i for i in kept if i < j and np.sqrt(((b["x"][i] - b["x"][j]) ** 2).sum()) <= c["dist"]]
        need(bool(dis[j]) == (not near), f"dissimilar flag of {j}")
        need(not (visa[j] and excl[j]), f"{j} is both removed and kept as a near instance that disagrees")
        if not excl[j]:
            need(bool(visa[j]) == bool(near), f"near-but-different flag of {j}")


@oracle("C19", g_filter, 200, 3000)
def filtering_entry(c):
    """the same through the public entry point, with the uniformity of the kept instances"""
    import instancespace.utils.filter as m
    kept = expected_filter(c["x"], c["y"], c["yb"], c["type"], c["dist"])
    if len(kept) < 3:
        raise Skip("uniformity needs at least three instances")
    excl, dis, visa, uni = m.do_filter(c["x"], c["y"], c["yb"], c["type"], c["dist"])
    need([k for k in range(len(excl)) if not excl[k]] == kept, "kept instances")
    near = [min(math.sqrt(((c["x"][i] - c["x"][j]) ** 2).sum()) for j in kept if j != i) for i in kept]
    if np.mean(near) == 0:
        return
    need(close(uni, 1 - np.std(near, ddof=1) / np.mean(near)), "uniformity")
