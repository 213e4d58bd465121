"""Contracts of the preprocessing stage (C13, C14, C20)."""
import z3

from pyvc.engine import usort
from pyvc.sym import And, Implies, Not, Or, RecV, Ref, SInt, SU, T, bool_t, int_t, isnan, to_f
from contracts.common import Stub, Wiring, record, value
from pyvc.verify import (A, Contract, arr1, arr2, define, forall, inr, nat, same_arr, seq_of_sort, term_eq)

M = "instancespace.stages.preprocessing"
STR = usort("Str")


def labels(I, name, n):
    """A list of n pairwise different labels."""
    r, f = seq_of_sort(I, name, n, STR)
    i, j = z3.Ints("i!l j!l")
    I.e.assume(z3.ForAll([i, j], Implies(And(inr(i, n), inr(j, n), i != j), f(i) != f(j))))
    return r, f


def opt_names(I, name):
    """None or a list of names; returns (value, membership or None)."""
    if I.e.branch(z3.Bool(name + "_given")):
        m = nat(I, name + "_n")
        r, f = seq_of_sort(I, name, m, STR)

        def mem(t):
            q = I.e.generic("q")
            return z3.Exists([q], And(inr(q, m), f(q) == t))
        return r, mem
    return None, None


def seq_view(I, v):
    c = I.seq_of(I.content(v)) if isinstance(v, Ref) else None
    return c


def str_at(c, k):
    v = c.get(k)
    return v.t


class Select(Contract):
    qual = M + ":PreprocessingStage.select_features_and_algorithms"
    name = "select_features_and_algorithms"
    cls = M + ":PreprocessingStage"

    def setup(self, I):
        n, d, a = nat(I, "n"), nat(I, "d"), nat(I, "a")
        x, y = arr2(I, "x", n, d), arr2(I, "y", n, a)
        fl, flf = labels(I, "flab", d)
        al, alf = labels(I, "alab", a)
        feats, fm = opt_names(I, "feats")
        algos, am = opt_names(I, "algos")
        sel = RecV(I.repo.lookup(I.repo.module("instancespace.data.options"), "SelvarsOptions", I),
                   {"feats": feats, "algos": algos, "small_scale_flag": None, "small_scale": None,
                    "file_idx_flag": None, "file_idx": None, "selvars_type": None, "min_distance": None,
                    "density_flag": None})
        ctx = dict(x=A(I, x), y=A(I, y), flf=flf, alf=alf, fm=fm, am=am, n=n, d=d, a=a)
        return dict(x=x, y=y, feat_labels=fl, algo_labels=al, selvars=sel), ctx

    def ensures(self, I, c, res):
        out = []
        nx, ny, nfl, nal = res
        for what, new, lab, old, lf, mem, w in (("feature", nx, nfl, c["x"], c["flf"], c["fm"], c["d"]),
                                                ("algorithm", ny, nal, c["y"], c["alf"], c["am"], c["a"])):
            N, L = A(I, new), seq_view(I, lab)
            i, j, k, l = z3.Ints("i!p j!p k!p l!p")
            out.append((f"{what} labels: one per column", L.n == N.shape[1]))
            out.append((f"{what} rows kept", N.shape[0] == c["n"]))
            col = lambda j, k: forall([i], Implies(inr(i, c["n"]), term_eq(I, N(i, j), old(i, k))))
            keep = (lambda k: mem(lf(k))) if mem is not None else (lambda k: T(True))
            some = z3.Exists([k], And(inr(k, w), keep(k))) if mem is not None else T(False)
            out.append((f"{what}: every kept column is an original column with its own label, and was selected",
                        forall([j], Implies(inr(j, L.n), z3.Exists([k], And(
                            inr(k, w), str_at(L, j) == lf(k), Or(Not(some), keep(k)), col(j, k)))))))
            out.append((f"{what}: every selected column is kept",
                        forall([k], Implies(And(inr(k, w), Or(Not(some), keep(k))),
                                            z3.Exists([j], And(inr(j, L.n), str_at(L, j) == lf(k)))))))
            out.append((f"{what}: original order is kept",
                        forall([j, l, i, k], Implies(And(inr(j, L.n), inr(l, L.n), j < l, inr(i, w), inr(k, w),
                                                         str_at(L, j) == lf(i), str_at(L, l) == lf(k)), i < k))))
        return out



LAB, SRC = usort("InstLabel"), usort("Source")
ROW_OF = z3.Function("row_of", LAB, z3.IntSort())        # instance labels identify rows
COL_OF = z3.Function("col_of", STR, z3.IntSort())


def col(I, name, n, sort, index=None):
    """A pandas Series of symbolic values."""
    from pyvc import lib_pd
    from pyvc.lib_np import new
    f = z3.Function(name, z3.IntSort(), sort)
    i = z3.Int("i!c")
    if index is not None:
        I.e.assume(z3.ForAll([i], Implies(inr(i, n), index(f(i)) == i), patterns=[f(i)]))
    return lib_pd.series(I, new(I, (n,), lambda i: SU(f(i)), "object")), f


class RemoveMissing(Contract):
    qual = M + ":PreprocessingStage.remove_instances_with_many_missing_values"
    name = "remove_instances_with_many_missing_values"
    timeout_ms = 15000

    def setup(self, I):
        n, d, a = nat(I, "n", 1), nat(I, "d", 1), nat(I, "a", 1)
        x, y = arr2(I, "x", n, d), arr2(I, "y", n, a)
        fl, flf = labels(I, "flab", d)
        k = z3.Int("k!f")
        I.e.assume(z3.ForAll([k], Implies(inr(k, d), COL_OF(flf(k)) == k), patterns=[flf(k)]))
        lab, labf = col(I, "instlab", n, LAB, ROW_OF)
        s, sf = col(I, "source", n, SRC) if I.e.branch(z3.Bool("has_sources")) else (None, None)
        ctx = dict(x=A(I, x), y=A(I, y), flf=flf, labf=labf, sf=sf, n=n, d=d, a=a)
        return dict(x=x, y=y, s=s, feat_labels=fl, inst_labels=lab), ctx

    def kept(self, c):
        j = z3.Int("j!k")
        x, y = c["x"], c["y"]
        return lambda r: Not(Or(forall([j], Implies(inr(j, c["d"]), isnan(to_f(x(r, j))))),
                                forall([j], Implies(inr(j, c["a"]), isnan(to_f(y(r, j)))))))

    def raises(self, I, c, ex):
        r = z3.Int("r!x")
        return [("only when no instance can be kept", And(T(ex.name == "ZeroDivisionError"), Not(z3.Exists(
            [r], And(inr(r, c["n"]), self.kept(c)(r))))))]

    def ensures(self, I, c, res):
        from pyvc import lib_pd
        from pyvc.lib_np import count_of, dim_t, extensional
        nx, ny, nlab, nfl, ns = res
        X, Y, L = A(I, nx), A(I, ny), A(I, lib_pd.vals(I, nlab))
        F = seq_view(I, nfl)
        n, d, a, x, y = c["n"], c["d"], c["a"], c["x"], c["y"]
        kept = define(I, "kept", [z3.IntSort()], self.kept(c))
        k, l, j, r, q = (I.e.generic(v) for v in "kljrq")
        row, colm = lambda k: ROW_OF(L(k).t), lambda l: COL_OF(str_at(F, l))
        m, w = X.shape[0], X.shape[1]
        gj = I.e.generic("j")
        mt = count_of(I, m, lambda k: isnan(to_f(x(row(k), gj))))
        missing = lambda j: z3.substitute(mt, (gj, j))
        drop = define(I, "drop", [z3.IntSort()], lambda j: And(m > 0, z3.ToReal(missing(j)) / z3.ToReal(m) >= z3.RealVal("0.2")))
        out = [("one label and one row of performances per row of features", And(L.shape[0] == m, Y.shape[0] == m)),
               ("one label per feature column", F.n == w), ("all algorithms are kept", Y.shape[1] == a),
               ("every kept row is an original row which may not be dropped", forall([k], Implies(inr(k, m), And(
                   inr(row(k), n), L(k).t == c["labf"](row(k)), kept(row(k)))))),
               ("every row which may not be dropped is kept", forall([r], Implies(And(inr(r, n), kept(r)), z3.Exists(
                   [k], And(inr(k, m), L(k).t == c["labf"](r)))))),
               ("rows stay in order", forall([k, q], Implies(And(inr(k, m), inr(q, m), k < q), row(k) < row(q)))),
               ("performances belong to their label", forall([k, j], Implies(And(inr(k, m), inr(j, a)), term_eq(
                   I, Y(k, j), y(row(k), j))))),
               ("every kept feature is an original one", forall([l], Implies(inr(l, w), And(
                   inr(colm(l), d), str_at(F, l) == c["flf"](colm(l)))))),
               ("features belong to their labels", forall([k, l], Implies(And(inr(k, m), inr(l, w)), term_eq(
                   I, X(k, l), x(row(k), colm(l)))))),
               ("columns stay in order", forall([l, q], Implies(And(inr(l, w), inr(q, w), l < q), colm(l) < colm(q)))),
               ("a kept feature misses less than 20 per cent of the kept rows", forall([l], Implies(inr(l, w), Not(drop(colm(l)))))),
               ("a dropped feature misses at least 20 per cent of the kept rows", forall([j], Implies(And(
                   inr(j, d), Not(drop(j))), z3.Exists([l], And(inr(l, w), str_at(F, l) == c["flf"](j))))))]
        if c["sf"] is not None:
            S = A(I, lib_pd.vals(I, ns))
            out += [("one source per row", S.shape[0] == m),
                    ("sources belong to their labels", forall([k], Implies(inr(k, m), S(k).t == c["sf"](row(k)))))]
        else:
            out.append(("no sources appear", T(ns is None)))
        extensional(I)
        return out


class Run(Wiring):
    """The stage: the selection of columns, then the missing values, every result under its name."""
    qual = M + ":PreprocessingStage._run"
    name = "_run"
    SEL = dict(x="mat", y="mat", feat_labels="strs", algo_labels="strs")
    REM = dict(x="mat", y="mat", inst_labels="ser", feat_labels="strs", s="ser?")
    stubs = (Stub(M + ":PreprocessingStage.select_features_and_algorithms",
                  lambda I, v: tuple(value(I, "sel_" + k, t) for k, t in Run.SEL.items())),
             Stub(M + ":PreprocessingStage.remove_instances_with_many_missing_values",
                  lambda I, v: tuple(value(I, "rem_" + k, t) for k, t in Run.REM.items())))

    def setup(self, I):
        I.calls.clear()
        r = record(I, M, "PreprocessingInput", dict(
            feature_names="strs", algorithm_names="strs", instance_labels="ser", instance_sources="ser?",
            features="mat", algorithms="mat", selvars_options="obj"))
        return dict(inputs=r), dict(i=r.fields)

    def ensures(self, I, c, res):
        i = c["i"]
        (sel,), out = self.called(I, "select_features_and_algorithms")
        out += self.passed(I, sel, dict(x=i["features"], y=i["algorithms"], feat_labels=i["feature_names"],
                                        algo_labels=i["algorithm_names"], selvars=i["selvars_options"]), "the selection")
        S = dict(zip(self.SEL, sel[1]))
        (rem,), more = self.called(I, "remove_instances_with_many_missing_values")
        out += more + self.passed(I, rem, dict(x=S["x"], y=S["y"], feat_labels=S["feat_labels"], s=i["instance_sources"],
                                               inst_labels=i["instance_labels"]), "the removal")
        R = dict(zip(self.REM, rem[1]))
        return out + self.fields(I, res, dict(R, algo_labels=S["algo_labels"], x_raw=R["x"], y_raw=R["y"]), "the output")


ALL = [Select(), RemoveMissing(), Run()]
