"""Contracts of the preparation stage (C15 - C18, C20)."""
import ast

import z3

from contracts.builder import repo_cls
from contracts.common import Stub, Wiring, record, same, value
from contracts.preprocessing import col, LAB, SRC, ROW_OF
from pyvc import sym
from pyvc.sym import (And, Implies, Not, ObjC, Or, RecV, Ref, SF, SInt, T, Unsupported, bool_t, f_le, f_lt, f_same, int_t, isfin,
                      isnan, to_f)
from pyvc.verify import A, Contract, arr1, arr2, define, forall, inr, nat, same_arr, term_eq

M = "instancespace.stages.prelim"
INT = z3.IntSort()


def opts(I, cls, **kw):
    return RecV(I.repo.lookup(I.repo.module("instancespace.data.options"), cls, I), kw)


def stage(I, **f):
    base = dict.fromkeys(("x", "y", "prelim_opts", "selvars_opts", "x_raw", "y_raw", "s", "inst_labels"))
    return I.e.alloc(ObjC(repo_cls(I, M, "PrelimStage"), {**base, **f}))


def some_value(I, arr, n, name):
    """Every column of the table has a value which is not missing (beyond the table: nothing is lost)."""
    i, j = z3.Ints("i!sv j!sv")
    I.e.axiom(z3.ForAll([j], z3.Exists([i], And(inr(i, n), Not(isnan(to_f(arr(i, j))))))), {name + "_missing"})


class SelectBest(Contract):
    qual = M + ":PrelimStage._select_best_algorithms"
    name = "_select_best_algorithms"

    def setup(self, I):
        n, a, d = nat(I, "n", 1), nat(I, "a", 1), nat(I, "d", 1)
        y, best, ybin = arr2(I, "y", n, a), arr1(I, "best", n), arr2(I, "ybin", n, a, "bool")
        p = arr1(I, "p", n, "int")
        thr = SF(z3.Real("threshold"))
        me = stage(I, x=arr2(I, "x", n, d), y=arr2(I, "ys", n, a))
        c = dict(n=n, a=a, y=A(I, y), best=A(I, best), ybin=A(I, ybin), p=A(I, p), thr=thr, refs=(y, best, ybin))
        return dict(self=me, y_raw=y, y_best=best, y_bin=ybin, nalgos=SInt(a), beta_threshold=thr, p=p), c

    def ensures(self, I, c, res):
        return goals(I, c, *res) + [g for r, k in zip(c["refs"], ("y", "best", "ybin"))
                                    for g in same_arr(I, A(I, r), c[k], f"argument {k} is kept")]


    def apply(self, I, f, v, node):
        """As promised by this contract; p is filled in place and returned."""
        y, best, ybin, p = (A(I, v[k]) for k in ("y_raw", "y_best", "y_bin", "p"))
        n = y.shape[0]
        xs = A(I, I.e.get(v["self"]).fields["y"])
        I.e.oblige("precondition of _select_best_algorithms", And(
            xs.shape[0] == n, best.shape[0] == n, ybin.shape[0] == n, p.shape[0] == n, ybin.shape[1] == int_t(v["nalgos"]),
            y.shape[1] == int_t(v["nalgos"])), node, kind="pre")
        new = arr1(I, I.e.fresh_name("best_p"), n, "int")
        I.e.put(v["p"], I.e.get(new))
        G, B = arr1(I, I.e.fresh_name("ngood"), n, "int"), arr1(I, I.e.fresh_name("easy"), n, "bool")
        c = dict(n=n, a=int_t(v["nalgos"]), y=y, best=best, ybin=ybin, p=p, thr=to_f(v["beta_threshold"]))
        for _, g in goals(I, c, G, v["p"], B):
            I.e.assume(g)
        return (G, v["p"], B)


def goals(I, c, good, p, beta):
    from pyvc.lib_np import count_of
    G, P, B = A(I, good), A(I, p), A(I, beta)
    n, a = c["n"], c["a"]
    i, j = I.e.generic("i"), I.e.generic("j")
    cnt = count_of(I, a, lambda j: c["ybin"].b(i, j))
    attains = lambda k: And(1 <= k, k <= a, sym.f_eq(to_f(c["y"](i, k - 1)), to_f(c["best"](i))))
    return [("one count, one best algorithm, one easiness per instance", And(G.shape[0] == n, P.shape[0] == n, B.shape[0] == n)),
            ("the number of good algorithms is the count of the good ones", forall([i], Implies(inr(i, n), G.i(i) == cnt))),
            ("easy exactly when more than the fraction of algorithms is good", forall([i], Implies(inr(i, n), B.b(i) == (
                sym.f_lt(sym.f_mul(c["thr"], SInt(a)), SInt(cnt)))))),
            ("the best algorithm is kept, or replaced by one that attains the best performance", forall([i], Implies(inr(i, n), Or(
                P.i(i) == c["p"].i(i), attains(P.i(i))))))]


class Bound(Contract):
    qual = M + ":PrelimStage._bound"
    name = "_bound"

    def setup(self, I):
        n, d = nat(I, "n", 1), nat(I, "d", 1)
        x = arr2(I, "x", n, d, missing=True)
        c = dict(n=n, d=d, x=A(I, x), ref=x, me=stage(I, x=x))
        some_value(I, c["x"], n, "x")
        return dict(self=c["me"]), c

    def ensures(self, I, c, res):
        f = {k: A(I, I.getattr(res, k)) for k in ("x", "med_val", "iq_range", "hi_bound", "lo_bound")}
        n, d, x = c["n"], c["d"], c["x"]
        i, j = I.e.generic("i"), I.e.generic("j")
        med = A(I, I.lib["numpy.nanmedian"](I, [c["ref"]], {"axis": 0}, None))
        iqr = A(I, I.lib["scipy.stats.iqr"](I, [c["ref"]], {"axis": 0, "interpolation": "midpoint", "nan_policy": "omit"}, None))
        five = lambda v: sym.f_mul(SF(z3.RealVal(5)), v)
        hi, lo = (lambda j: sym.f_add(med(j), five(iqr(j)))), (lambda j: sym.f_sub(med(j), five(iqr(j))))
        col = lambda v: forall([j], Implies(inr(j, d), v))
        v = to_f(x(i, j))
        want = If3(isnan(v), v, f_lt(hi(j), v), hi(j), f_lt(v, lo(j)), lo(j), v)
        me = I.e.get(c["me"]).fields["x"]
        return [("one bound per feature", And(*[f[k].shape[0] == d for k in f if k != "x"])),
                ("the table keeps its shape", And(f["x"].shape[0] == n, f["x"].shape[1] == d)),
                ("the reported median and range ignore missing values", col(And(f_same(f["med_val"](j), med(j)), f_same(f["iq_range"](j), iqr(j))))),
                ("the bounds are the median plus or minus five ranges", col(And(f_same(f["hi_bound"](j), hi(j)), f_same(f["lo_bound"](j), lo(j))))),
                ("values inside stay, others become the nearer bound, missing ones stay missing", forall([i, j], Implies(
                    And(inr(i, n), inr(j, d)), f_same(f["x"](i, j), want)))),
                *same_arr(I, A(I, me), f["x"], "the stage works on with the bounded values"),
                *same_arr(I, A(I, c["ref"]), x, "the caller's table is kept")]


def masked(I, n, mask, val):
    """The values val(i) of the i < n with mask(i), in order, as an array."""
    from pyvc import lib_np
    m, sg = lib_np.mask_sel(I, n, lambda i: sym.mkbool(mask(i)))
    return lib_np.new(I, (m,), lambda k: val(sg(k)), "float")


def If3(*a):
    """If(c1, v1, c2, v2, ..., otherwise) over floats."""
    a = [x if z3.is_expr(x) else to_f(x) for x in a]
    k = lambda f: z3.IntVal(f.kind) if isinstance(f.kind, int) else f.kind
    out = a[-1]
    for c, v in reversed(list(zip(a[:-1:2], a[1:-1:2]))):
        out = SF(z3.If(c, v.val, out.val), z3.If(c, k(v), k(out)))
    return out



class Normalise(Contract):
    qual = M + ":PrelimStage._normalise"
    name = "_normalise"
    FIELDS = ("min_x", "lambda_x", "mu_x", "sigma_x", "lambda_y", "sigma_y", "mu_y")

    def setup(self, I):
        n, a, d = nat(I, "n", 1), nat(I, "a", 1), nat(I, "d", 1)
        x, y = arr2(I, "x", n, d, missing=True), arr2(I, "y", n, a, missing=True)
        c = dict(n=n, a=a, d=d, x=A(I, x), y=A(I, y), xr=x, yr=y, me=stage(I, x=x, y=y))
        some_value(I, c["x"], n, "x")
        some_value(I, c["y"], n, "y")
        return dict(self=c["me"]), c

    def ensures(self, I, c, res):
        from pyvc import lib_np
        f = I.e.get(c["me"]).fields
        out = []
        n = c["n"]
        i, j = I.e.generic("i"), I.e.generic("j")
        one, eps = SF(z3.RealVal(1)), to_f(EPS)
        for what, t0, ref, w in (("x", c["x"], c["xr"], c["d"]), ("y", c["y"], c["yr"], c["a"])):
            R = {k: A(I, I.getattr(res, k + "_" + what)) for k in ("lambda", "mu", "sigma")}
            new = A(I, I.getattr(res, what))
            if what == "x":
                lo = A(I, I.lib["numpy.nanmin"](I, [ref], {"axis": 0}, None))
                got = A(I, I.getattr(res, "min_x"))
                out.append(("the reported minimum of a feature is that of its values", forall([j], Implies(
                    inr(j, w), f_same(got(j), lo(j))))))
                sh = lambda i, j: sym.f_add(sym.f_sub(to_f(t0(i, j)), to_f(lo(j))), one)
            else:
                lo = to_f(I.lib["numpy.nanmin"](I, [ref], {}, None))
                out.append(("the reported minimum of the performances is that of all values", f_same(
                    to_f(I.getattr(res, "min_y")), lo)))
                sh = lambda i, j: sym.f_add(sym.f_sub(to_f(t0(i, j)), lo), eps)
            pw = lambda i, j: I.boxcox(sh(i, j), R["lambda"](j))
            out.append((f"one exponent, mean and deviation per column ({what})", And(*[R[k].shape[0] == w for k in R])))
            out.append((f"the table keeps its shape ({what})", And(new.shape[0] == n, new.shape[1] == w)))
            want = sym.f_div(sym.f_sub(pw(i, j), R["mu"](j)), R["sigma"](j))
            rng = And(inr(i, n), inr(j, w))
            out.append((f"the reported parameters reproduce every value ({what})", forall([i, j], Implies(
                And(rng, Not(isnan(to_f(t0(i, j))))), f_same(to_f(new(i, j)), want)))))
            out.append((f"missing entries stay missing ({what})", forall([i, j], Implies(
                And(rng, isnan(to_f(t0(i, j)))), isnan(to_f(new(i, j)))))))
            mask = lambda i, j: Not(isnan(to_f(t0(i, j))))
            colv = masked(I, n, lambda i: mask(i, j), lambda i: pw(i, j))
            mean = to_f(I.lib["numpy.mean"](I, [colv], {}, None))
            dev = to_f(I.lib["numpy.std"](I, [colv], {"ddof": 1}, None))
            out.append((f"the reported mean is that of the transformed column ({what})", forall([j], Implies(
                inr(j, w), f_same(R["mu"](j), mean)))))
            out.append((f"the reported deviation is that of the transformed column ({what})", forall([j], Implies(
                inr(j, w), f_same(R["sigma"](j), dev)))))
            out.append((f"the stage works on with the table ({what})", T(f[what] == I.getattr(res, what))))
            out += same_arr(I, A(I, ref), t0, f"the table given is kept ({what})")
        lib_np.extensional(I)
        return out

    def apply(self, I, f, v, node):
        """New tables and parameters; what they are is this function's own contract."""
        me = I.e.get(v["self"])
        xs, ys = A(I, me.fields["x"]), A(I, me.fields["y"])
        out = {"x": arr2(I, "norm_x", *xs.shape), "y": arr2(I, "norm_y", *ys.shape), "min_y": SF(z3.Real("norm_min_y"))}
        for k in self.FIELDS:
            out[k] = arr1(I, "norm_" + k, (xs if k.endswith("x") else ys).shape[1])
        I.normalised = (me.fields["x"], me.fields["y"], out)
        I.e.heap[v["self"].loc] = ObjC(me.cls, {**me.fields, "x": out["x"], "y": out["y"]})
        return RecV(repo_cls(I, M, "_NormaliseOut"), out)


OUT = ("x", "y", "y_bin", "y_best", "p", "num_good_algos", "beta", "med_val", "iq_range", "hi_bound", "lo_bound",
       "min_x", "lambda_x", "mu_x", "sigma_x", "min_y", "lambda_y", "sigma_y", "mu_y")
EPS = 2.220446049250313e-16


class Prelim(Contract):
    qual = M + ":PrelimStage._prelim"
    name = "_prelim"
    uses = ("_normalise", "_select_best_algorithms")

    def setup(self, I):
        n, a, d = nat(I, "n", 1), nat(I, "a", 1), nat(I, "d", 1)
        x, y = arr2(I, "x", n, d, missing=True), arr2(I, "y", n, a, missing=True)
        c = dict(n=n, a=a, d=d, x=A(I, x), y=A(I, y), xr=x, yr=y, eps=SF(z3.Real("epsilon")), thr=SF(z3.Real("threshold")),
                 **{k: bool(I.e.branch(z3.Bool(k))) for k in ("max_perf", "abs_perf", "bound", "norm")})
        some_value(I, c["x"], n, "x")
        o = opts(I, "PrelimOptions", max_perf=c["max_perf"], abs_perf=c["abs_perf"], epsilon=c["eps"], beta_threshold=c["thr"],
                 bound=c["bound"], norm=c["norm"])
        c["me"] = stage(I, x=x, y=y, prelim_opts=o)
        return dict(self=c["me"], x=x, y=y, prelim_opts=o), c

    def ensures(self, I, c, res):
        r = dict(zip(OUT, res))
        n, a, d, y = c["n"], c["a"], c["d"], c["y"]
        i, j, k = (I.e.generic(v) for v in "ijk")
        out = [("every result is returned", T(len(res) == len(OUT)))]
        # worst possible value for a missing performance
        worst = SF(z3.RealVal(0), z3.IntVal(2 if c["max_perf"] else 1))
        aux = lambda i, j: If3(isnan(to_f(y(i, j))), worst, to_f(y(i, j)))
        better = (lambda p, q: f_lt(q, p)) if c["max_perf"] else f_lt
        best, p = A(I, r["y_best"]), A(I, r["p"])
        b0 = lambda i: aux(i, p.i(i) - 1)          # the performance of the reported best algorithm
        out += [("the best algorithm is an algorithm, numbered from one", forall([i], Implies(inr(i, n), And(1 <= p.i(i), p.i(i) <= a)))),
                ("no algorithm is better than the best one", forall([i, j], Implies(And(inr(i, n), inr(j, a)), Not(better(aux(i, j), b0(i)))))),
                ("the best performance is that of the best algorithm", forall([i], Implies(inr(i, n), f_same(
                    best(i), b0(i) if c["abs_perf"] else If3(sym.f_eq(b0(i), SF(z3.RealVal(0))), EPS, b0(i))))))]
        yb = A(I, r["y_bin"])
        if c["abs_perf"]:
            good = f_le(c["eps"], aux(i, j)) if c["max_perf"] else f_le(aux(i, j), c["eps"])
        else:
            one = SF(z3.RealVal(1))
            gap = sym.f_div(aux(i, j), best(i)) if c["max_perf"] else sym.f_div(best(i), aux(i, j))
            good = f_le(sym.f_sub(one, gap), c["eps"])
        out += [("one judgement per performance", And(yb.shape[0] == n, yb.shape[1] == a)),
                ("good exactly by the configured criterion", forall([i, j], Implies(And(inr(i, n), inr(j, a)), yb.b(i, j) == good)))]
        cc = dict(n=n, a=a, y=y, best=best, ybin=yb, p=p, thr=c["thr"])
        out += goals(I, cc, r["num_good_algos"], r["p"], r["beta"])[:3]
        # features
        src = c["xr"]
        med = A(I, I.lib["numpy.nanmedian"](I, [src], {"axis": 0}, None))
        iqr = A(I, I.lib["scipy.stats.iqr"](I, [src], {"axis": 0, "interpolation": "midpoint", "nan_policy": "omit"}, None))
        five = lambda v: sym.f_mul(SF(z3.RealVal(5)), v)
        hi, lo = (lambda j: sym.f_add(med(j), five(iqr(j)))), (lambda j: sym.f_sub(med(j), five(iqr(j))))
        R = {k: A(I, r[k]) for k in r if k != "min_y"}
        col = lambda v: forall([j], Implies(inr(j, d), v))
        out += [("the bounds reported are the median plus or minus five ranges of the given features", And(
            col(f_same(R["med_val"](j), med(j))), col(f_same(R["iq_range"](j), iqr(j))), col(f_same(R["hi_bound"](j), hi(j))),
            col(f_same(R["lo_bound"](j), lo(j)))))]
        v = to_f(c["x"](i, j))
        want = If3(isnan(v), v, f_lt(hi(j), v), hi(j), f_lt(v, lo(j)), lo(j), v) if c["bound"] else v
        sx, sy, no = I.normalised if c["norm"] else (r["x"], c["yr"], None)
        fx = A(I, sx)
        out += [("bounding clips, and does nothing when it is off", forall([i, j], Implies(And(inr(i, n), inr(j, d)), f_same(fx(i, j), want))))]
        if no:
            out.append(("the normalised tables and parameters are returned", And(*[T(r[k] == no[k]) for k in no if k != "min_y"],
                                                                                T(r["min_y"] is no["min_y"]))))
            out += same_arr(I, A(I, sy), y, "the performances are normalised")
        elif c["abs_perf"]:
            out += same_arr(I, R["y"], y, "without normalisation the performances are as they were")
        out += same_arr(I, A(I, c["xr"]), c["x"], "the caller's features are kept") + same_arr(
            I, A(I, c["yr"]), y, "the caller's performances are kept")
        return out


class DoFilter(Contract):
    """The density filter as seen by the subset selection (its own contract: C19)."""
    qual = "instancespace.utils.filter:do_filter"
    name = "do_filter"

    def apply(self, I, f, v, node):
        I.filter_args = v
        n = A(I, v["x"]).shape[0]
        return (arr1(I, "removed", n, "bool"), arr1(I, "dissimilar", n, "bool"), arr1(I, "visa", n, "bool"), SF(z3.Real("uniformity")))


PER_INSTANCE = ("x", "y", "x_raw", "y_raw", "y_bin", "beta", "num_good_algos", "y_best", "p")


class Filter(Contract):
    qual = M + ":PrelimStage._filter"
    name = "_filter"
    uses = ("do_filter",)

    def configure(self, I):
        from pyvc import lib_np

        def split(I, a, kw, nd):
            I.e.trusted("sklearn.train_test_split: distinct items of its argument in either part")
            src = A(I, a[0])
            m = nat(I, "split_n")
            f = z3.Function("split_pos", INT, INT)
            k, l = z3.Ints("k!sp l!sp")
            I.e.assume(z3.ForAll([k], Implies(inr(k, m), inr(f(k), src.shape[0])), patterns=[f(k)]))
            I.e.assume(z3.ForAll([k, l], Implies(And(inr(k, m), inr(l, m), k != l), f(k) != f(l))))
            return (arr1(I, "split_rest", nat(I, "split_rest_n"), "int"),
                    lib_np.new(I, (m,), lambda k: src(f(k)), "int"))
        I.lib["sklearn.model_selection.train_test_split"] = split

        def genfromtxt(I, a, kw, nd):
            I.e.trusted("numpy.genfromtxt: the numbers of the file")
            I.file_read = a[0]
            return arr1(I, "file_idx", nat(I, "file_n"), "int")
        I.lib["numpy.genfromtxt"] = genfromtxt
        from pyvc.sym import LibV
        P = LibV("pathlib.Path")
        I.lib["pathlib.Path"] = lambda I, a, kw, nd: I.e.alloc(ObjC(P, {"text": a[0]}))

        def is_file(I, v, a, kw, nd):
            return sym.mkbool(z3.Bool("index_file_exists"))
        I.lib["method:pathlib.Path.is_file"] = is_file

    def setup(self, I):
        n, a, d, d2 = nat(I, "n", 1), nat(I, "a", 1), nat(I, "d", 1), nat(I, "d_raw", 1)
        v = dict(x=arr2(I, "x", n, d), y=arr2(I, "y", n, a), x_raw=arr2(I, "x_raw", n, d2), y_raw=arr2(I, "y_raw", n, a),
                 y_bin=arr2(I, "y_bin", n, a, "bool"), y_best=arr1(I, "y_best", n), p=arr1(I, "p", n, "int"),
                 num_good_algos=arr1(I, "num_good_algos", n), beta=arr1(I, "beta", n, "bool"))
        lab, labf = col(I, "instlab", n, LAB, ROW_OF)
        s, sf = col(I, "source", n, SRC) if I.e.branch(z3.Bool("has_sources")) else (None, None)
        I.filter_args = None
        c = dict(n=n, old={k: A(I, v[k]) for k in v}, refs=dict(v), labf=labf, sf=sf, lab=lab, s=s)
        for k in ("small_scale", "file_idx", "density"):
            c[k] = bool(I.e.branch(z3.Bool(k + "_flag")))
        c["opts"] = o = opts(I, "SelvarsOptions", feats=None, algos=None, small_scale_flag=c["small_scale"],
                             small_scale=SF(z3.Real("small_scale")) if I.e.branch(z3.Bool("small_scale_number")) else None,
                             file_idx_flag=c["file_idx"], file_idx="some/file.csv", density_flag=c["density"],
                             selvars_type="Ftr" if I.e.branch(z3.Bool("type_given")) else None,
                             min_distance=SF(z3.Real("min_distance")) if I.e.branch(z3.Bool("distance_number")) else None)
        c["frac"] = o.fields["small_scale"] is not None
        c["dens"] = o.fields["selvars_type"] is not None and o.fields["min_distance"] is not None
        return dict(self=stage(I), inst_labels=lab, s=s, selvars_opts=o, **v), c

    def chosen(self, I, c):
        """(is there a restriction, is row r selected) on this path."""
        q = z3.Int("q!c")
        file = And(T(c["file_idx"]), z3.Bool("index_file_exists"))
        dens = c["density"] and c["dens"]
        split, idx = z3.Function("split_pos", INT, INT), z3.Function("file_idx", INT, INT)
        rem = z3.Function("removed", INT, z3.BoolSort())
        if c["small_scale"] and c["frac"]:
            return lambda r: z3.Exists([q], And(inr(q, z3.Int("split_n")), split(q) == r))
        other = (lambda r: Not(rem(r))) if dens else (lambda r: T(True))
        return lambda r: Or(And(file, z3.Exists([q], And(inr(q, z3.Int("file_n")), idx(q) == r + 1))), And(Not(file), other(r)))

    def ensures(self, I, c, res):
        from pyvc import lib_pd
        names = ("subset", *PER_INSTANCE, "inst_labels", "s", "dense")
        if len(res) != len(names):
            return [("all parts are returned", T(False))]
        r = dict(zip(names, res))
        n = c["n"]
        sel = define(I, "selected", [INT], self.chosen(I, c))
        i, j, k, q = (I.e.generic(v) for v in "ijkq")
        lab = A(I, lib_pd.vals(I, r["inst_labels"]))
        m = lab.shape[0]
        row = lambda k: ROW_OF(lab(k).t)
        S = A(I, r["subset"])
        out = [("the subset says for every instance whether it is selected", And(S.shape[0] == n, forall([i], Implies(inr(i, n), S.b(i) == sel(i))))),
               ("every kept label is a selected original one", forall([k], Implies(inr(k, m), And(
                   inr(row(k), n), sel(row(k)), lab(k).t == c["labf"](row(k)))))),
               ("every selected instance is kept", forall([i], Implies(And(inr(i, n), sel(i)), z3.Exists([k], And(
                   inr(k, m), lab(k).t == c["labf"](i)))))),
               ("instances stay in order", forall([k, q], Implies(And(inr(k, m), inr(q, m), k < q), row(k) < row(q))))]
        for nm in PER_INSTANCE:
            new, old = A(I, r[nm]), c["old"][nm]
            if len(old.shape) == 2:
                out.append((f"{nm} belongs to the labels", And(new.shape[0] == m, new.shape[1] == old.shape[1], forall([k, j], Implies(And(
                    inr(k, m), inr(j, old.shape[1])), term_eq(I, new(k, j), old(row(k), j)))))))
            else:
                out.append((f"{nm} belongs to the labels", And(new.shape[0] == m, forall([k], Implies(inr(k, m), term_eq(
                    I, new(k), old(row(k))))))))
            out += same_arr(I, A(I, c["refs"][nm]), old, f"the {nm} given is kept")
        if c["sf"] is not None:
            src = A(I, lib_pd.vals(I, r["s"]))
            out.append(("the sources belong to the labels", And(src.shape[0] == m, forall([k], Implies(inr(k, m), src(k).t == c["sf"](row(k)))))))
        else:
            out.append(("no sources appear", T(r["s"] is None)))
        d = r["dense"]
        if d is not None:
            D = {**PER0(c), "inst_labels": c["lab"], "s": c["s"]}
            out.append(("the dense data are all the data before the filter", And(*[T(I.getattr(d, k) == D[k]) for k in D])))
        if I.filter_args is not None:
            a = I.filter_args
            o = c["opts"].fields
            out.append(("the filter gets the data and its options", And(*[T(a[k] == c["refs"][k]) for k in ("x", "y", "y_bin")],
                                                                        T(a["selvars_type"] == o["selvars_type"]), T(a["min_distance"] is o["min_distance"]))))
        return out


def PER0(c):
    return {k: c["refs"][k] for k in PER_INSTANCE}


IN = dict(x="mat", y="mat", x_raw="mat", y_raw="mat", s="ser?", inst_labels="ser")
PRE_KIND = dict(x="mat", y="mat", y_bin="bmat", y_best="vec", p="ivec", num_good_algos="vec", beta="bvec", min_y="float")
SUB = ("subset_index", "x", "y", "x_raw", "y_raw", "y_bin", "beta", "num_good_algos", "y_best", "p", "inst_labels", "s", "data_dense")
SUB_KIND = dict(PRE_KIND, subset_index="bvec", x_raw="mat", y_raw="mat", inst_labels="ser", s="ser?", data_dense="obj")


class Run(Wiring):
    """The stage: preparation of the given data, then the subset, every result under its name."""
    qual = M + ":PrelimStage._run"
    name = "_run"
    stubs = (Stub(M + ":PrelimStage._prelim", lambda I, v: tuple(value(I, "prelim_" + k, PRE_KIND.get(k, "vec")) for k in OUT),
                  pre=lambda I, v: [g for k in ("x", "y") for g in same(I, I.e.get(v["self"]).fields[k], v[k], f"the stage holds the given {k}")]),
             Stub(M + ":PrelimStage._filter", lambda I, v: tuple(value(I, "filter_" + k, SUB_KIND[k]) for k in SUB)))

    def setup(self, I):
        I.calls.clear()
        po, so = opts(I, "PrelimOptions", epsilon=SF(z3.Real("eps"))), opts(I, "SelvarsOptions", min_distance=SF(z3.Real("md")))
        r = record(I, M, "PrelimInput", dict(IN, prelim_options=po, selvars_options=so))
        return dict(inputs=r), dict(i=r.fields)

    def ensures(self, I, c, res):
        i = c["i"]
        (pre,), out = self.called(I, "_prelim")
        out += self.passed(I, pre, dict(x=i["x"], y=i["y"], prelim_opts=i["prelim_options"]), "the preparation")
        (sub,), more = self.called(I, "_filter")
        P, S = dict(zip(OUT, pre[1])), dict(zip(SUB, sub[1]))
        out += more + self.passed(I, sub, dict({k: P[k] for k in ("x", "y", "y_bin", "y_best", "p", "num_good_algos", "beta")},
                                               x_raw=i["x_raw"], y_raw=i["y_raw"], s=i["s"], inst_labels=i["inst_labels"],
                                               selvars_opts=i["selvars_options"]), "the subset selection")
        want = {k: P[k] for k in OUT if k not in S} | {k: S[k] for k in SUB if k != "subset_index"}
        return out + self.fields(I, res, want, "the output")


ALL = [SelectBest(), Bound(), Normalise(), Prelim(), DoFilter(), Filter(), Run()]
