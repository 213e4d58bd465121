"""C34: the graphs, read from the figures when they are saved (nothing is rendered)."""
import shutil
import tempfile
from pathlib import Path
from unittest import mock

import numpy as np
import pandas as pd
from shapely.geometry import MultiPolygon, box

from .base import Skip, close, labels, need, oracle
from .o_outputs import build_model, freeze, g_model


class Shown:
    """What one saved figure shows."""

    def __init__(self, fig):
        t = fig.get_suptitle() if hasattr(fig, "get_suptitle") else fig._suptitle.get_text()
        axes = [a for a in fig.axes if a.get_label() != "<colorbar>"]
        if len(axes) != 1:
            raise Skip("drawn in another way")
        ax = axes[0]
        self.title = t or ax.get_title()
        if ax.lines or ax.images:
            raise Skip("drawn in another way")
        self.sets = [(k.get_label(), np.asarray(k.get_offsets(), float), None if k.get_array() is None else np.asarray(k.get_array(), float),
                      k.norm if k.get_array() is not None else None) for k in ax.collections if len(k.get_offsets())]
        self.patches = [np.asarray(p.get_xy(), float) for p in ax.patches]

    def points(self, label):
        got = [p for k, p, *_ in self.sets if k == label]
        return np.concatenate(got) if got else np.zeros((0, 2))


def rows(p):
    p = np.asarray(p, float)
    return p[np.lexsort(p.T[::-1])] if len(p) else p


def equal(got, want, what):
    got, want = rows(got), rows(want)
    need(len(got) == len(want), f"{what}: {len(got)} points, expected {len(want)}")
    need(len(got) == 0 or close(got, want, 1e-9, 1e-9), f"{what}: {got.tolist()}, expected {want.tolist()}")


def outlines(p):
    if p is None:
        return []
    return [np.array(q.exterior.coords) for q in (p.geoms if isinstance(p, MultiPolygon) else [p])]


def g_graphs(rng, i):
    c = g_model(rng, i)
    n = c["n"] + 1
    for k in ("x", "y_raw", "y_bin", "y_hat", "z", "p", "num", "beta", "s0"):
        a = c[k]
        c[k] = np.concatenate([a, a[:1]])
    c["n"] = n
    c["ids"] = labels(rng, n, "in")
    c["z"] = rng.normal(size=(n, 2))
    c["x"] = rng.normal(size=(n, c["d"]))
    c["y_raw"] = rng.random((n, c["a"])) * 9 * 10.0 ** rng.integers(-1, 3, c["a"])
    c["p"] = rng.integers(0, c["a"] + 1, n)
    c["s0"] = rng.integers(0, c["a"] + 1, n)
    if i % 3 == 0:
        c["p"][0], c["s0"][0] = c["a"], c["a"]
    for b in (c["y_bin"], c["y_hat"]):
        if rng.random() < 0.3:
            j = int(rng.integers(c["a"]))
            b[:, j] = False
            b[int(rng.integers(n)), j] = rng.random() < 0.8
    for k in ("good", "best"):
        for j in range(c["a"]):
            if rng.random() < 0.3:
                c[k][j] = MultiPolygon([box(float(q), float(j), q + .5, j + .5 * q + 1) for q in range(int(rng.integers(2, 5)))])
    if i % 5 == 4 and c["a"] > 1:
        c["al"][1] = c["al"][0].upper()
    return dict(c, sim=bool(i % 2), src=[f"s{int(k)}" for k in rng.integers(0, 3, n)] if i % 4 < 2 else None)


def draw(c):
    import dataclasses

    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    m = build_model(dict(c, x_raw=np.zeros((c["n"], c["d0"])), y=c["y_raw"], y_best=c["num"]))
    data = dataclasses.replace(m.data, s=None if c["src"] is None else pd.Series(c["src"]))
    opts = dataclasses.replace(m.opts, trace=dataclasses.replace(m.opts.trace, use_sim=c["sim"]))
    m = dataclasses.replace(m, data=data, opts=opts)
    seen = {}

    def save(fig, fname, *a, **kw):
        f = Path(fname)
        seen[f.name] = Shown(fig)
        f.touch()
    d = Path(tempfile.mkdtemp())
    b4 = freeze(m)
    try:
        with mock.patch.object(matplotlib.figure.Figure, "savefig", save):
            m.save_graphs(d)
        need(sorted(f.name for f in d.iterdir()) == sorted(seen), "graphs are saved elsewhere")
    finally:
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    need(freeze(m) == b4, "drawing changed the model")
    return seen


def unit(v, lo, hi):
    return (v - lo) / (hi - lo)


@oracle("C34", g_graphs, 40, 400)
def graphs(c):
    """random models (values of different magnitude, instances without algorithm, multi-part and missing footprints): what every figure shows when it is saved, against the model"""
    g = draw(c)
    z, a, fl, al = c["z"], c["a"], c["fl"], c["al"]
    sp = lambda s: s.replace("_", " ")

    def fig(name, title=None):
        need(name in g, f"{name} is not saved")
        need(title is None or sp(title) in sp(g[name].title), f"{name} is titled {g[name].title!r}, it shows {title!r}")
        return g[name]

    def scatter(name, vals, title=None):
        f = fig(name, title)
        if len(f.sets) != 1 or f.sets[0][2] is None:
            raise Skip("drawn in another way")
        _, p, v, norm = f.sets[0]
        equal(np.column_stack([p, v]), np.column_stack([z, vals]), name)
        need(np.min(vals) == np.max(vals) or close(norm.vmin, np.min(vals)) and close(norm.vmax, np.max(vals)), f"{name}: colours from {norm.vmin} to {norm.vmax}")

    def binary(name, b, title=None, foot=None):
        f = fig(name, title)
        equal(f.points("GOOD"), z[b], name + ", good instances")
        equal(f.points("BAD"), z[~b], name + ", bad instances")
        patches(f, outlines(foot) if b.any() else [], name)

    def patches(f, want, name):
        need(len(f.patches) == len(want), f"{name} shows {len(f.patches)} outlines, expected {len(want)}")
        left = list(want)
        for p in f.patches:
            k = next((k for k, w in enumerate(left) if len(w) == len(p) and close(p, w)), None)
            need(k is not None, f"{name} shows another footprint")
            left.pop(k)

    def portfolio(name, p, foots=None):
        f = fig(name)
        for k in range(a + 1):
            lab = "None" if k == 0 else sp(al[k - 1])
            equal(f.points(lab), z[p == k], f"{name}, instances of {lab}")
        need(sum(len(q) for _, q, *_ in f.sets) == len(p), f"{name} shows other points")
        if foots is not None:
            patches(f, [o for k in range(a) if (p == k + 1).any() for o in outlines(foots[k])], name)

    for j in range(c["d"]):
        x = c["x"][:, j]
        scatter(f"distribution_feature_{fl[j]}.png", unit(x, x.min(), x.max()), fl[j])
    lg = np.log10(c["y_raw"] + 1)
    hat = c["y_hat"] if c["sim"] else c["y_bin"]
    for j in range(a):
        y = c["y_raw"][:, j]
        scatter(f"distribution_performance_global_normalized_{al[j]}.png", unit(lg[:, j], lg.min(), lg.max()), al[j])
        scatter(f"distribution_performance_individual_normalized_{al[j]}.png", unit(y, y.min(), y.max()), al[j])
        binary(f"binary_performance_{al[j]}.png", c["y_bin"][:, j], al[j])
        binary(f"binary_svm_{al[j]}.png", c["y_hat"][:, j], al[j])
        binary(f"footprint_{al[j]}.png", hat[:, j], al[j], c["good"][j])
    scatter("distribution_number_good_algos.png", c["num"] / a)
    binary("distribution_beta_score.png", c["beta"])
    portfolio("distribution_portfolio.png", c["p"])
    portfolio("distribution_svm_portfolio.png", c["s0"])
    portfolio("footprint_portfolio.png", c["s0"] if c["sim"] else c["p"], c["best"])
    if c["src"] is not None:
        f = fig("distribution_sources.png")
        for s in sorted(set(c["src"])):
            equal(f.points(s), z[[k == s for k in c["src"]]], f"distribution_sources.png, instances of {s}")
