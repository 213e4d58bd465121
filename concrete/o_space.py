"""C23, C24: projection and boundaries."""
import itertools

import numpy as np
from scipy.spatial.distance import pdist
from scipy.stats import pearsonr

from .base import Skip, close, find, labels, need, oracle, same

ST = "instancespace.stages."


def g_pilot(rng, i):
    n, a = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    r = int(rng.integers(max(n + a + 1, 8), 18))
    x = rng.normal(size=(r, n))
    y = x @ rng.normal(size=(n, a)) * 0.7 + rng.normal(size=(r, a)) * 0.5
    m = n + a
    tries = int(rng.integers(1, 4))
    mode = ["analytic", "numeric", "alpha", "x0"][i % 4]
    c = dict(x=x, y=y, fl=labels(rng, n, "feature_"), mode=mode, tries=tries, x0=None, alpha=None)
    if mode == "x0":
        c["x0"] = rng.normal(size=(2 * m + 2 * n, tries)) * rng.choice([0.3, 1.0, 4.0], tries)
    if mode == "alpha":
        c["alpha"] = rng.normal(size=(2 * m + 2 * n, 1)).round(2 if i % 8 < 4 else 7)
        if i % 16 == 10:
            c["x0"] = rng.normal(size=(2 * m + 2 * n, tries))
    return c


@oracle("C23", g_pilot, 120, 1500)
def projection(c):
    """random data through the analytic, numerical, pre-calculated and user-started solutions (2 to 4 features, 1 to 3 algorithms): coordinates, matrices, error, R2 and summary belong to one solution, the best of all tries"""
    import instancespace.data.options as o
    import instancespace.stages.pilot as m
    x, y = c["x"], c["y"]
    n, a = x.shape[1], y.shape[1]
    w = n + a
    al = None if c["alpha"] is None else c["alpha"].copy()
    x0 = None if c["x0"] is None else c["x0"].copy()
    xs, ys = x.copy(), y.copy()
    opts = o.PilotOptions.default(analytic=c["mode"] == "analytic", n_tries=c["tries"], x0=c["x0"], alpha=c["alpha"])
    out = m.PilotStage._run(m.PilotInput(x=x, y=y, feat_labels=c["fl"], pilot_options=opts))
    need(same(x, xs) and same(y, ys), "the data changed")
    need(al is None or same(c["alpha"], al), "the supplied solution changed")
    need(x0 is None or same(c["x0"], x0), "the supplied starting points changed")
    A, B, C = (np.asarray(v, float) for v in (out.a, out.b, out.c))
    need(A.shape == (2, n) and B.shape == (n, 2) and C.shape == (2, a), f"shapes {A.shape} {B.shape} {C.shape}")
    need(close(out.z, x @ A.T, 1e-8, 1e-9), "z is not x @ a.T")
    full = np.vstack([B, C.T])
    xb = np.hstack([x, y])
    xh = np.asarray(out.z) @ full.T
    need(close(out.error, ((xb - xh) ** 2).sum(), 1e-7), f"error {out.error}, of the reported matrices {((xb - xh) ** 2).sum()}")
    r2 = np.array([np.corrcoef(xb[:, j], xh[:, j])[0, 1] ** 2 for j in range(w)])
    need(np.asarray(out.r2).shape == (w,) and close(out.r2, r2, 5e-3, 5e-3), f"R2 {out.r2}, of the reported matrices {r2}")
    if c["mode"] == "analytic":
        cov = xb.T @ xb
        ev = np.sort(np.linalg.eigvalsh(cov))[::-1]
        for k in range(2):
            v = full[:, k]
            need(close(cov @ v, ev[k] * v, 1e-6, 1e-6 * ev[0]), f"column {k} of the solution is not the eigenvector {k}")
            need(abs(v @ v - 1) < 1e-8, "not normalised")
        need(close(A, full.T @ xb.T @ x @ np.linalg.inv(x.T @ x), 1e-6, 1e-7), "A is not the least-squares projection")
    elif c["mode"] == "alpha":
        s = c["alpha"][:, 0]
        need(same(A, s[:2 * n].reshape(2, n)), "A is not the supplied one")
        need(same(full, s[2 * n:].reshape(w, 2)), "B and C are not the supplied ones")
    else:
        al = np.asarray(out.alpha, float)
        perf, eo = np.asarray(out.perf), np.asarray(out.eoptim)
        need(al.shape == (2 * w + 2 * n, c["tries"]) and perf.shape == eo.shape == (c["tries"],), "shapes of the tries")
        k = int(np.argmax(perf))
        need(same(A, al[:2 * n, k].reshape(2, n)), f"A is not that of the best try {k}")
        need(same(full, al[2 * n:, k].reshape(w, 2)), f"B and C are not those of the best try {k}")
        starts = np.asarray(out.X0)
        if c["mode"] == "x0":
            need(same(starts, c["x0"]), "other starting points")
        hd = pdist(x)

        def err(v):
            aa, bb = v[:2 * n].reshape(2, n), v[2 * n:].reshape(w, 2)
            return float(((xb - x @ aa.T @ bb.T) ** 2).mean())
        pr = np.random.default_rng(0)
        for t in range(c["tries"]):
            # the coefficients are reported in half precision: what that rounding can change
            if not np.isfinite(al[:, t]).all() or np.abs(al[:, t]).max() > 1000:
                continue
            ulp = np.spacing(np.abs(al[:, t]).astype(np.float16)).astype(float)
            near = [al[:, t] + ulp * pr.choice([-0.5, 0.5], len(ulp)) for _ in range(12)]
            tol = 2e-2 * max(1, abs(eo[t])) + 6 * max(abs(err(v) - err(al[:, t])) for v in near)
            z = x @ al[:2 * n, t].reshape(2, n).T
            pf = lambda v: pearsonr(hd, pdist(x @ v[:2 * n].reshape(2, n).T))[0]
            need(abs(pf(al[:, t]) - perf[t]) < 2e-2 + 6 * max(abs(pf(v) - pf(al[:, t])) for v in near), f"performance of try {t}")
            need(abs(err(al[:, t]) - eo[t]) < tol, f"error of try {t}")
            need(eo[t] <= err(starts[:, t]) + 1e-9, f"try {t} is worse than its starting point")
    sm = out.pilot_summary
    need(list(sm.columns)[1:] == c["fl"] and list(sm.iloc[:, 0]) == ["Z_{1}", "Z_{2}"], f"summary labels {list(sm.columns)}")
    need(close(sm.iloc[:, 1:].to_numpy(float), A, 1e-9), "summary values")


def g_err(rng, i):
    n, a, r = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 7))
    xb = rng.normal(size=(r, n + a))
    if i % 4 == 1:
        xb[rng.random(xb.shape) < 0.1] = np.nan
        xb[:, :n] = np.nan_to_num(xb[:, :n])
    return dict(n=n, a=a, xb=xb, alpha=rng.normal(size=2 * (n + a) + 2 * n))


@oracle("C23", g_err, 200, 3000)
def objective(c):
    """random solutions: the minimised error is the mean squared reconstruction error of that solution"""
    f = find(ST + "pilot:PilotStage.error_function", ["alpha", "x_bar", "n", "m"])
    n, w = c["n"], c["n"] + c["a"]
    A, B = c["alpha"][:2 * n].reshape(2, n), c["alpha"][2 * n:].reshape(w, 2)
    rows = []
    for r in c["xb"]:
        e = [(r[j] - B[j] @ (A @ r[:n])) ** 2 for j in range(w) if not np.isnan(r[j])]
        rows.append(sum(e) / len(e))
    got = f(c["alpha"], c["xb"], n, w)
    need(close(got, np.mean(rows), 1e-9), f"{got} expected {np.mean(rows)}")


# ------------------------------------------------------------------ C24
def g_bounds(rng, i):
    d = int(rng.integers(2, 6))
    n = int(rng.integers(6, 20))
    base = rng.normal(size=(n, 1))
    x = rng.normal(size=(n, d))
    for j in range(d):
        if rng.random() < 0.6:
            x[:, j] = rng.choice([-1, 1]) * base[:, 0] + rng.normal(size=n) * rng.choice([0.05, 0.4, 1.0])
    if i % 3 == 1:
        x += rng.choice([-6, 0, 6], size=d)           # some features keep one sign
    if i % 5 == 2:
        x[:, int(rng.integers(d))] = np.abs(x[:, 0]) * (np.arange(n) != 0)      # a bound that is exactly 0
    if i % 5 == 4:                                      # several bounds that are exactly 0
        for j in range(d):
            if rng.random() < 0.6:
                x[:, j] -= x[:, j].min() if rng.random() < 0.5 else x[:, j].max()
    return dict(x=x, a=rng.normal(size=(2, d)), p=float(rng.choice([0.001, 0.05, 0.5, 1.0])),
                c=float(rng.choice([0.0, 0.3, 0.7, 0.95])))


def corners(x):
    lo, hi = x.min(axis=0), x.max(axis=0)
    return np.array(list(itertools.product(*[(lo[j], hi[j]) for j in range(x.shape[1])])))


def corrs(x):
    d = x.shape[1]
    return {(j, k): pearsonr(x[:, j], x[:, k]) for j in range(d) for k in range(j + 1, d)}


def impossible(e, cor, p, thr):
    d = len(e)
    for j in range(d):
        for k in range(j + 1, d):
            r, pv = cor[j, k]
            if pv > p:
                continue
            same_sign = np.sign(e[j]) == np.sign(e[k])
            if (r > thr and not same_sign) or (r < -thr and same_sign):
                return True
    return False


def key_rows(m):
    return sorted(map(tuple, np.asarray(m, float)))


@oracle("C24", g_bounds, 100, 3000)
def corner_points(c):
    """random features (correlated both ways, one-signed, with exact zeros): all corners once, removed exactly when impossible"""
    import instancespace.data.options as o
    f = find(ST + "cloister:CloisterStage._generate_boundaries", ["x", "rho", "options"])
    g = find(ST + "cloister:CloisterStage._compute_correlation", ["x", "options"])
    opts = o.CloisterOptions.default(p_val=c["p"], c_thres=c["c"])
    x0 = c["x"].copy()
    rho = g(c["x"], opts)
    d = c["x"].shape[1]
    for j in range(d):
        for k in range(d):
            if j != k:
                r, pv = pearsonr(c["x"][:, j], c["x"][:, k])
                if abs(pv - c["p"]) > 1e-9:
                    need(abs(rho[j, k] - (0 if pv > c["p"] else r)) < 1e-9, f"correlation {j},{k}")
    edge, rem = f(c["x"], rho, opts)
    need(same(c["x"], x0), "the features changed")
    need(key_rows(edge) == key_rows(corners(c["x"])), "not every combination of bounds exactly once")
    cor = corrs(c["x"])
    for e, r in zip(edge, rem):
        need(bool(r) == impossible(e, cor, c["p"], c["c"]), f"corner {e} removed: {r}")


def hull_check(got, pts, what):
    from scipy.spatial import ConvexHull, QhullError
    try:
        if len(pts) == 0:
            raise ValueError
        h = ConvexHull(pts)
    except (QhullError, ValueError):
        need(np.asarray(got).size == 0, f"{what}: a hull of points that have none")
        return False
    got = np.asarray(got)
    need(got.ndim == 2 and got.shape[1] == 2, f"{what}: no hull")
    scale = np.abs(pts).max() + 1
    for q in got:
        need(np.min(np.abs(pts - q).max(axis=1)) < 1e-9 * scale, f"{what}: {q} is not a projected corner")
    ang = np.linspace(0, 2 * np.pi, 73)
    dirs = np.column_stack([np.cos(ang), np.sin(ang)])
    need(np.allclose((got @ dirs.T).max(axis=0), (pts @ dirs.T).max(axis=0), atol=1e-8 * scale), f"{what}: not the hull")
    need(len(got) <= len(h.vertices) + 1, f"{what}: more than the hull vertices")
    return True


@oracle("C24", g_bounds, 60, 1500)
def boundaries(c):
    """the same data through the whole stage: hull vertices of all projected corners, and of those which remain"""
    import instancespace.data.options as o
    import instancespace.stages.cloister as m
    opts = o.CloisterOptions.default(p_val=c["p"], c_thres=c["c"])
    x0, a0 = c["x"].copy(), c["a"].copy()
    out = m.CloisterStage._run(m.CloisterInput(x=c["x"], a=c["a"], cloister_options=opts))
    need(same(c["x"], x0) and same(c["a"], a0), "inputs changed")
    cs = corners(c["x"])
    hull_check(out.z_edge, cs @ c["a"].T, "boundary")
    cor = corrs(c["x"])
    keep = np.array([e for e in cs if not impossible(e, cor, c["p"], c["c"])]).reshape(-1, cs.shape[1])
    from scipy.spatial import ConvexHull, QhullError
    try:
        ConvexHull(keep @ c["a"].T)
        ok = True
    except (QhullError, ValueError):
        ok = False
    if ok:
        hull_check(out.z_ecorr, keep @ c["a"].T, "correlated boundary")
    else:
        need(same(out.z_ecorr, out.z_edge), "the full boundary is not used as the fallback")
