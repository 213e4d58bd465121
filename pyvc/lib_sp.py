"""Trusted contracts of the SciPy and scikit-learn operations the code uses."""
from __future__ import annotations

import z3

from . import sym
from .sym import And, Implies, LibV, Not, Or, Ref, SF, SInt, Unsupported, bool_t, int_t, isfin, isnan, mkint, to_f


def red_nan(I, kind, n, body, extra=(), nonneg=False):
    """An uninterpreted statistic of the non-missing items of a column: finite when there are some and
    all of them are finite; NaN when there are none."""
    np_ = I.lib_np
    r, fresh, act = np_.reducer(I, kind, n, lambda rx: np_.f_terms(body(rx)), [z3.IntSort(), z3.RealSort()], extra)
    kt, vt = r.terms[:2]
    F = lambda *a: np_.sf_of(r.fns[0](*a), r.fns[1](*a))
    if fresh:
        ps = r.params
        q = z3.Int("q!r")
        f = F(*ps)
        inr = And(0 <= q, q < r.n)
        k = lambda q: np_.at(r, kt, q)
        some = z3.Exists([q], And(inr, k(q) != 3))
        bad = z3.Exists([q], And(inr, Or(k(q) == 1, k(q) == 2)))
        I.e.axiom(np_.forall(ps, And(f.kind >= 0, f.kind <= 3)), r.defs)
        I.e.axiom(np_.forall(ps, Implies(And(some, Not(bad)), f.kind == 0)), r.defs)
        I.e.axiom(np_.forall(ps, Implies(Not(some), f.kind == 3)), r.defs)
        if nonneg:
            I.e.axiom(np_.forall(ps, f.val >= 0), r.defs)
    out = F(*act)
    return SF(out.val, 0) if not isinstance(out.kind, int) and np_.always_finite(I, r) else out


def euclid(I, f, g, d):
    """The Euclidean distance of two vectors of d components."""
    x = I.lib_np.new(I, (d,), lambda k: sym.f_mul(sym.f_sub(to_f(f(k)), to_f(g(k))), sym.f_sub(to_f(f(k)), to_f(g(k)))), "float")
    return to_f(I.lib["numpy.sqrt"](I, [I.lib["numpy.sum"](I, [x], {}, None)], {}, None))


def install(I):
    L = I.lib
    np_ = I.lib_np

    def cdist(I, a, kw, nd):
        metric = kw.get("metric", a[2] if len(a) > 2 else "euclidean")
        if metric != "euclidean" or set(kw) - {"metric"}:
            raise Unsupported("options of cdist")
        I.e.trusted("scipy.spatial.distance.cdist: Euclidean distances")
        x, y = np_.arr(I, a[0]), np_.arr(I, a[1])
        if len(x.shape) != 2 or len(y.shape) != 2:
            raise Unsupported("cdist of something else than two tables")
        return np_.new(I, (x.shape[0], y.shape[0]), lambda i, j: euclid(
            I, lambda k: x.elem(i, k), lambda k: y.elem(j, k), x.shape[1]), "float")
    L["scipy.spatial.distance.cdist"] = cdist

    def nanmedian(I, a, kw, nd):
        I.e.trusted("numpy.nanmedian: a statistic of the values which are not missing")
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        return np_.reduce_axis(I, a[0], ax, lambda n, b: red_nan(I, "nanmedian", n, b), "float", nd, kw.get("keepdims", False))
    L["numpy.nanmedian"] = nanmedian

    def pdist(I, a, kw, nd):
        if kw or len(a) != 1:
            raise Unsupported("options of pdist")
        x = np_.arr(I, a[0])
        if len(x.shape) != 2:
            raise Unsupported("pdist of a vector")
        I.e.trusted("scipy.spatial.distance.pdist: the Euclidean distances of all pairs of rows, in an order fixed by their number")
        n = np_.dim_t(x.shape[0])
        pa, pb = (z3.Function(f"pair_{k}", z3.IntSort(), z3.IntSort(), z3.IntSort()) for k in (0, 1))
        m = z3.Function("pairs", z3.IntSort(), z3.IntSort())
        k = z3.Int("k!pair")
        I.e.axiom(z3.ForAll([k], m(k) >= 0, patterns=[m(k)]), {"pairs"})
        return np_.new(I, (m(n),), lambda p: euclid(
            I, lambda k: x.elem(pa(n, p), k), lambda k: x.elem(pb(n, p), k), x.shape[1]), "float")
    L["scipy.spatial.distance.pdist"] = pdist

    def matrix(name, what):
        """A linear-algebra result about which nothing else is assumed."""
        def h(I, a, kw, nd):
            if kw or len(a) != 1:
                raise Unsupported("options of " + name)
            x = np_.arr(I, a[0])
            I.e.trusted(f"{name}: {what}")
            I.e.oblige("a square matrix", np_.dim_t(x.shape[0]) == np_.dim_t(x.shape[1]), nd, kind="pre")
            f = I.e.func(name.split(".")[-1], [z3.IntSort()] * 2, z3.RealSort())
            out = np_.new(I, x.shape, lambda i, j: SF(f(i, j)), "float")
            I.linalg = getattr(I, "linalg", []) + [(name.split(".")[-1], a[0], out)]
            if not name.endswith("eig"):
                return out
            g = I.e.func("eigenvalue", [z3.IntSort()], z3.RealSort())
            return np_.new(I, (x.shape[0],), lambda i: SF(g(i)), "float"), out
        L[name] = h
    for lib in ("scipy.linalg.", "numpy.linalg."):
        matrix(lib + "inv", "some matrix, the inverse")
        matrix(lib + "eig", "some vector and matrix, the eigenvalues and eigenvectors (real for a symmetric matrix)")
    def nanstat(nm, nonneg):
        def h(I, a, kw, nd):
            I.e.trusted(f"numpy.{nm}: a statistic of the values which are not missing")
            ax = kw.get("axis", a[1] if len(a) > 1 else None)
            dd = kw.get("ddof", 0)
            if set(kw) - {"axis", "ddof", "keepdims"} or dd != 0:
                raise Unsupported("options of numpy." + nm)
            if nm == "nanmean" and np_.arr(I, a[0]).dtype in ("bool", "int"):      # nothing can be missing
                return np_.r_mean(I, a[0], ax, nd, kw.get("keepdims", False))
            return np_.reduce_axis(I, a[0], ax, lambda n, b: red_nan(I, nm, n, b, nonneg=nonneg), "float", nd, kw.get("keepdims", False))
        L["numpy." + nm] = h
    nanstat("nanmean", False)
    nanstat("nanstd", True)

    def pair(I, a, kw, nd, f):
        if kw or len(a) != 2:
            raise Unsupported("options of a classification score")
        I.e.trusted("sklearn scores of true and predicted labels: the counts they are defined by (0 where nothing is counted)")
        x, y = np_.arr(I, a[0]), np_.arr(I, a[1])
        if len(x.shape) != 1 or len(y.shape) != 1 or x.dtype != "bool" or y.dtype != "bool":
            raise Unsupported("scores of something else than two columns of labels")
        np_.check_dim(I, x.shape[0], y.shape[0], nd, "as many labels as predictions")
        return f(x.shape[0], lambda r: bool_t(x.elem(r)), lambda r: bool_t(y.elem(r)))

    def ratio(p, q):
        return SF(z3.If(q == 0, z3.RealVal(0), z3.ToReal(p) / z3.ToReal(q)), 0)
    cnt = lambda I, n, c: np_.count_of(I, n, c)
    I.scores = {
        "accuracy": lambda I, n, t, p: ratio(cnt(I, n, lambda r: t(r) == p(r)), np_.dim_t(n)),
        "precision": lambda I, n, t, p: ratio(cnt(I, n, lambda r: And(t(r), p(r))), cnt(I, n, p)),
        "recall": lambda I, n, t, p: ratio(cnt(I, n, lambda r: And(t(r), p(r))), cnt(I, n, t))}
    for k, g in I.scores.items():
        L[f"sklearn.metrics.{k}_score"] = lambda I, a, kw, nd, g=g: pair(I, a, kw, nd, lambda n, t, p: g(I, n, t, p))

    def confusion(I, a, kw, nd):
        def f(n, t, p):
            c = [cnt(I, n, lambda r: And(Not(t(r)) if not x else t(r), Not(p(r)) if not y else p(r))) for x in (0, 1) for y in (0, 1)]
            el = lambda i, j: SInt(z3.If(i == 0, z3.If(j == 0, c[0], c[1]), z3.If(j == 0, c[2], c[3])))
            return np_.new(I, (2, 2), el, "int")
        return pair(I, a, kw, nd, f)
    L["sklearn.metrics.confusion_matrix"] = confusion

    def iqr(I, a, kw, nd):
        I.e.trusted("scipy.stats.iqr: a non-negative statistic of the column")
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        how = kw.get("interpolation", "linear")
        rng = kw.get("rng", (25, 75))
        if set(kw) - {"axis", "interpolation", "nan_policy", "rng"} or not isinstance(how, str) or rng != (25, 75):
            raise Unsupported("options of scipy.stats.iqr")
        pol = kw.get("nan_policy", "propagate")
        if pol == "omit":
            f = lambda n, b: red_nan(I, "iqr_" + how, n, b, nonneg=True)
        elif pol == "propagate":
            f = lambda n, b: np_.red_opaque(I, "iqr_" + how, n, b, nonneg=True)
        else:
            raise Unsupported("nan_policy")
        return np_.reduce_axis(I, a[0], ax, f, "float", nd)
    L["scipy.stats.iqr"] = iqr

    def zscore(I, a, kw, nd):
        I.e.trusted("scipy.stats.zscore(a) = (a - mean(a)) / std(a)")
        x = np_.arr(I, a[0])
        if set(kw) - {"ddof", "axis"} or (len(x.shape) == 2 and kw.get("axis", 0) != 0):
            raise Unsupported("options of scipy.stats.zscore")
        ax = 0
        mu = L["numpy.mean"](I, [a[0]], {"axis": ax}, nd)
        sd = L["numpy.std"](I, [a[0]], {"axis": ax, "ddof": kw.get("ddof", 0)}, nd)
        import ast
        return I.binop(ast.Div(), I.binop(ast.Sub(), a[0], mu, nd), sd, nd)
    L["scipy.stats.zscore"] = zscore

    bc = z3.Function("boxcox", z3.RealSort(), z3.RealSort(), z3.RealSort())
    I.boxcox = lambda x, lam: SF(bc(to_f(x).val, to_f(lam).val), to_f(x).kind)

    def boxcox(I, a, kw, nd):
        if len(a) < 2 and "lmbda" not in kw:
            raise Unsupported("boxcox without an exponent")
        lam = a[1] if len(a) > 1 else kw["lmbda"]
        if isinstance(lam, Ref):
            lam = np_.arr(I, lam).elem(z3.IntVal(0))
        I.e.trusted("scipy.stats.boxcox with a given exponent: elementwise power transform")
        return np_.map1(I, a[0], lambda x: I.boxcox(x, lam), dtype="float")
    L["scipy.stats.boxcox"] = boxcox

    def fmin(I, a, kw, nd):
        I.e.trusted("scipy.optimize.fmin: returns some real vector (nothing else is assumed)")
        f = I.e.func("fmin", [z3.IntSort()], z3.RealSort())
        return np_.new(I, (1,), lambda k: SF(f(k)), "float")
    L["scipy.optimize.fmin"] = fmin

    def pearsonr(I, a, kw, nd):
        if kw or len(a) != 2:
            raise Unsupported("options of pearsonr")
        x, y = np_.arr(I, a[0]), np_.arr(I, a[1])
        if len(x.shape) != 1 or len(y.shape) != 1:
            raise Unsupported("pearsonr of tables")
        return pearson(I, x.elem, y.elem, x.shape[0])
    L["scipy.stats.pearsonr"] = pearsonr


    for nm in ("info", "debug", "warning", "error", "exception", "success", "trace"):
        L["loguru.logger." + nm] = lambda I, a, kw, nd: None

    def binary_repr(I, a, kw, nd):
        """The bits of a number, highest first; a bit stands for its character."""
        w = kw.get("width", a[1] if len(a) > 1 else None)
        if w is None:
            raise Unsupported("binary_repr without a width")
        I.e.trusted("numpy.binary_repr(i, width=n): the n bits of i < 2**n; the numbers below 2**n are all combinations of n bits")
        bit = z3.Function("bit", z3.IntSort(), z3.IntSort(), z3.IntSort())
        i, c = z3.Ints("i!bit c!bit")
        I.e.axiom(z3.ForAll([i, c], And(0 <= bit(i, c), bit(i, c) <= 1), patterns=[bit(i, c)]), {"bit"})
        n, v = int_t(w), int_t(a[0])
        I.e.oblige("the number fits the width", And(0 <= v, v < int_t(I.binop(__import__("ast").Pow(), 2, mkint(n)))), nd, kind="pre")
        from .sym import SeqC
        return I.e.alloc(SeqC(n, lambda k: SInt(bit(v, n - 1 - k)), "int"))
    L["numpy.binary_repr"] = binary_repr

    def ravel_multi_index(I, a, kw, nd):
        order = kw.get("order", a[3] if len(a) > 3 else "C")
        if set(kw) - {"order"} or len(a) < 2 or not isinstance(a[0], tuple) or len(a[0]) != 2 or order not in ("C", "F"):
            raise Unsupported("options of ravel_multi_index")
        p, q = (np_.arr(I, v) for v in a[0])
        d0, d1 = (int_t(v) for v in a[1])
        if len(p.shape) != 1 or len(q.shape) != 1:
            raise Unsupported("ravel_multi_index of tables")
        k = I.e.generic("k")
        n = np_.dim_t(p.shape[0])
        I.e.oblige("as many row as column numbers", n == np_.dim_t(q.shape[0]), nd, kind="pre")
        I.e.oblige("numbers within the table", z3.ForAll([k], Implies(And(0 <= k, k < n), And(
            0 <= int_t(p.elem(k)), int_t(p.elem(k)) < d0, 0 <= int_t(q.elem(k)), int_t(q.elem(k)) < d1))), nd, kind="pre")
        f = (lambda k: int_t(p.elem(k)) + d0 * int_t(q.elem(k))) if order == "F" else (lambda k: int_t(p.elem(k)) * d1 + int_t(q.elem(k)))
        return np_.new(I, (p.shape[0],), lambda k: SInt(f(k)), "int")
    L["numpy.ravel_multi_index"] = ravel_multi_index


def pearson(I, f, g, n):
    """(correlation, p-value) of two vectors of n components: some numbers depending on nothing else."""
    I.e.trusted("scipy.stats.pearsonr: correlation in [-1, 1] and p-value in [0, 1], functions of the two columns (NaN possible)")
    np_ = I.lib_np
    out = []
    for what, lo in (("pearson_r", -1), ("pearson_p", 0)):
        r, fresh, act = np_.reducer(I, what, n, lambda k: (*np_.f_terms(f(k)), *np_.f_terms(g(k))), [z3.IntSort(), z3.RealSort()])
        F = lambda *a, r=r: np_.sf_of(r.fns[0](*a), r.fns[1](*a))
        if fresh:
            v = F(*r.params)
            I.e.axiom(np_.forall(r.params, And(Or(v.kind == 0, v.kind == 3), v.val >= lo, v.val <= 1)), r.defs)
        out.append(F(*act))
    return tuple(out)
