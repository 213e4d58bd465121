"""Contracts of the automatic feature selection (C21, C22)."""
import ast

import z3

from contracts.builder import lemma
from contracts.common import OBJ, Stub, Wiring, record, same, value
from pyvc import lib_np, lib_pd, sym
from pyvc.engine import usort
from pyvc.loops import LoopInv
from pyvc.sym import And, DictC, Implies, LibV, ListC, MapC, Not, ObjC, Or, PyRaise, RecV, Ref, SeqC, SF, SInt, SU, T, Unsupported, bool_t, f_same, int_t, mkbool, to_f
from pyvc.verify import A, Contract, arr1, arr2, define, forall, inr, nat, same_arr, seq_of_sort, term_eq

M = "instancespace.stages.sifted"
C = M + ":SiftedStage."
O = "instancespace.data.options"
INT, REAL = z3.IntSort(), z3.RealSort()


def stage(I, fields):
    cls = I.repo.lookup(I.repo.module(M), "SiftedStage", I)
    return I.e.alloc(ObjC(cls, fields))


AT = z3.Function("position_mentioned", INT, INT, INT, z3.BoolSort())     # always true: names terms for instantiation
OPTS = dict(flag="bool", rho="float", k="int", num_generations="int", num_parents_mating="int", sol_per_pop="int",
            parent_selection_type="str", k_tournament="int", keep_elitism="int", crossover_type="str", cross_over_probability="float",
            mutation_type="str", mutation_probability="float", stop_criteria="str", max_iter="int", replicates="int")


def options(I):
    return record(I, O, "SiftedOptions", OPTS, "opt_")


class Performance(Wiring):
    """A feature stays exactly when it is the most correlated one of some algorithm or reaches the threshold for some algorithm."""
    qual = C + "select_features_by_performance"
    name = "select_features_by_performance"

    def configure(self, I):
        super().configure(I)
        s = Stub(C + "_compute_correlation", self.correlation)
        I.contracts[s.qual] = s

    def correlation(self, I, v):
        c = I.tc
        for lab, g in same_arr(I, A(I, v["x"]), c["x"], "correlation of the features") + same_arr(I, A(I, v["y"]), c["y"], "with the performances"):
            I.e.oblige(lab, g, None, kind="pre")
        r, p = arr2(I, "rho", c["d"], c["a"], missing=True), arr2(I, "pval", c["d"], c["a"], missing=True)
        c.update(rho=A(I, r), pval=A(I, p))
        return r, p

    def setup(self, I):
        I.calls.clear()
        n, d, a = nat(I, "n", 1), nat(I, "d", 1), nat(I, "a", 1)
        x, y = arr2(I, "x", n, d, missing=True), arr2(I, "y", n, a, missing=True)
        o = options(I)
        I.tc = c = dict(n=n, d=d, a=a, x=A(I, x), y=A(I, y), xr=x, yr=y, o=o)
        return dict(self=stage(I, dict(x=x, y=y, opts=o))), c

    def relevance(self, c, i, j):
        """The absolute correlation if it is significant, else nothing."""
        r, p = to_f(c["rho"](i, j)), to_f(c["pval"](i, j))
        out = Or(sym.isnan(r), sym.f_lt(SF(z3.RealVal("0.05")), p))
        return z3.If(out, 0, z3.If(r.val >= 0, r.val, -r.val))

    def ensures(self, I, c, res):
        X, sel = A(I, res[0]), A(I, res[3])
        d, a = c["d"], c["a"]
        i, j, k, l, q = (I.e.generic(v) for v in "ijklq")
        m = lib_np.dim_t(sel.shape[0])
        rel = lambda i, j: self.relevance(c, i, j)
        th = c["o"].fields["rho"].val
        most = define(I, "most_correlated", [INT, INT], lambda i, j: forall([q], Implies(inr(q, d), rel(q, j) <= rel(i, j))))
        chosen = lambda i: z3.Exists([k], And(inr(k, m), int_t(sel(k)) == i))
        for key, (pi, iv) in [(k, v) for k, v in I.e.memo.items() if isinstance(k, tuple) and k[0] == "argsort"]:
            if iv.arity() == 2:       # mention the position of every feature in the order of an algorithm
                I.e.axiom(z3.ForAll([i, j], AT(i, j, iv(j, i)), patterns=[c["rho"](i, j).val]), {iv.name()})
                for sk, (sg, ta) in [(k, v) for k, v in I.e.memo.items() if isinstance(k, tuple) and k[0] == "sel"]:
                    if ta.arity() == 1:
                        I.e.axiom(z3.ForAll([j], AT(j, j, ta(pi(j, 0))), patterns=[pi(j, 0)]), {ta.name()})
                lemma(I, "the first in the order of an algorithm is most correlated with it", forall([j], Implies(inr(j, a), And(
                    inr(pi(j, 0), d), most(pi(j, 0), j)))), None)
                lemma(I, "the first in the order of every algorithm is selected", forall([j], Implies(inr(j, a), chosen(pi(j, 0)))), None)
        return [("selected features are features, in order", forall([k, l], Implies(And(inr(k, m), inr(l, m), k < l), int_t(sel(k)) < int_t(sel(l))))),
                ("selected features exist", forall([k], Implies(inr(k, m), inr(int_t(sel(k)), d)))),
                ("a feature reaching the threshold for some algorithm is selected", forall([i, j], Implies(And(
                    inr(i, d), inr(j, a), rel(i, j) >= th), chosen(i)))),
                ("a most correlated feature of every algorithm is selected", forall([j], Implies(inr(j, a), z3.Exists([k], And(
                    inr(k, m), most(int_t(sel(k)), j)))))),
                ("a selected feature reaches the threshold or is the most correlated one of some algorithm", forall([k], Implies(inr(k, m), z3.Exists([j], And(
                    inr(j, a), Or(rel(int_t(sel(k)), j) >= th, most(int_t(sel(k)), j))))))),
                ("the matrix has the selected features: extent", And(lib_np.dim_t(X.shape[0]) == c["n"], lib_np.dim_t(X.shape[1]) == m)),
                ("the matrix has the selected features", forall([i, k], Implies(And(inr(i, c["n"]), inr(k, m)), f_same(
                    to_f(X(i, k)), to_f(c["x"](i, int_t(sel(k)))))))),
                *same_arr(I, A(I, res[1]), c["rho"], "the correlations reported"), *same_arr(I, A(I, res[2]), c["pval"], "the significance reported"),
                *same_arr(I, A(I, c["xr"]), c["x"], "the features given are kept"), *same_arr(I, A(I, c["yr"]), c["y"], "the performances given are kept")]


class Correlations(Contract):
    """The correlation of a feature with an algorithm is that of the instances where both are known."""
    qual = C + "_compute_correlation"
    name = "_compute_correlation"

    def setup(self, I):
        n, d, a = nat(I, "n", 1), nat(I, "d", 1), nat(I, "a", 1)
        x, y = arr2(I, "x", n, d, missing=True), arr2(I, "y", n, a, missing=True)
        return dict(self=stage(I, {}), x=x, y=y), dict(n=n, d=d, a=a, x=A(I, x), y=A(I, y), xr=x, yr=y)

    def ensures(self, I, c, res):
        from pyvc.lib_sp import pearson
        R, P = A(I, res[0]), A(I, res[1])
        i, j, k = (I.e.generic(v) for v in "ijk")
        x, y, n = c["x"], c["y"], c["n"]
        known = lambda k: And(Not(sym.isnan(to_f(x(k, i)))), Not(sym.isnan(to_f(y(k, j)))))
        m, at = lib_np.mask_sel(I, n, lambda k: mkbool(known(k)))
        r, p = pearson(I, lambda k: x(at(k), i), lambda k: y(at(k), j), m)
        some = z3.Exists([k], And(inr(k, n), known(k)))
        rng = And(inr(i, c["d"]), inr(j, c["a"]))
        both = lambda f, g: And(f_same(to_f(R(i, j)), f), f_same(to_f(P(i, j)), g))
        return [("one correlation and significance per feature and algorithm", And(*[lib_np.dim_t(t.shape[q]) == (c["d"], c["a"])[q] for t in (R, P) for q in (0, 1)])),
                ("the correlation of the instances where both are known", forall([i, j], Implies(And(rng, some), both(to_f(r), to_f(p))))),
                ("unknown without such instances", forall([i, j], Implies(And(rng, Not(some)), And(sym.isnan(to_f(R(i, j))), sym.isnan(to_f(P(i, j))))))),
                *same_arr(I, A(I, c["xr"]), c["x"], "the features given are kept"), *same_arr(I, A(I, c["yr"]), c["y"], "the performances given are kept")]


GEN, KM, GA, KF, KNN = (LibV(n) for n in ("numpy.random.Generator", "sklearn.cluster.KMeans", "pygad.GA", "sklearn.model_selection.KFold",
                                         "sklearn.neighbors.KNeighborsClassifier"))
LABEL = z3.Function("cluster_label", INT, INT)


def search_tools(I):
    """Trusted contracts of the clustering and search libraries."""
    def integers(I, v, a, kw, nd):
        if len(a) != 1 or kw:
            raise Unsupported("options of integers")
        x = I.e.const("draw", INT)
        I.e.assume(And(0 <= x, x < int_t(a[0])))
        return SInt(x)
    I.lib["method:numpy.random.Generator.integers"] = integers

    def make(cls, what):
        def h(I, a, kw, nd):
            I.e.trusted(f"{cls.name}: {what}")
            return I.e.alloc(ObjC(cls, {**{f"arg{q}": v for q, v in enumerate(a)}, **kw}))
        I.lib[cls.name] = h
    make(KM, "labels between 0 and the number of clusters, one per row, every cluster having a row")
    make(GA, "some solution; one gene per declared number")
    make(KF, "an object made from its options")
    make(KNN, "an object made from its options")

    def fit_predict(I, v, a, kw, nd):
        f = I.content(v).fields
        x = A(I, a[0])
        I.fits.append((f, a[0]))
        k = int_t(f["n_clusters"])
        q, r = z3.Int("q!lab"), z3.Int("r!lab")
        n = lib_np.dim_t(x.shape[0])
        I.e.axiom(z3.ForAll([q], Implies(And(0 <= q, q < n), And(0 <= LABEL(q), LABEL(q) < k)), patterns=[LABEL(q)]), {LABEL.name()})
        I.e.assume(z3.ForAll([q], Implies(inr(q, k), z3.Exists([r], And(inr(r, n), LABEL(r) == q)))))
        return lib_np.new(I, (x.shape[0],), lambda r: SInt(LABEL(r)), "int")
    I.lib["method:sklearn.cluster.KMeans.fit_predict"] = fit_predict
    I.fits = []


def generator(I):
    return I.e.alloc(ObjC(GEN, {}))


class Clustering(Contract):
    """Every feature is in the cluster of its label and in no other."""
    qual = C + "select_features_by_clustering"
    name = "select_features_by_clustering"

    def configure(self, I):
        search_tools(I)

    def setup(self, I):
        I.fits.clear()
        n, d = nat(I, "n", 1), nat(I, "d", 1)
        x, o = arr2(I, "x", n, d, missing=True), options(I)
        I.e.assume(o.fields["k"].t >= 1)
        return dict(self=stage(I, dict(opts=o)), x_aux=x, rng=generator(I)), dict(n=n, d=d, k=o.fields["k"].t, x=A(I, x), xr=x, o=o)

    def ensures(self, I, c, res):
        if len(I.fits) != 1:
            raise Unsupported("the features are not clustered once")
        f, given = I.fits[0]
        R, L = A(I, res[0]), A(I, res[1])
        i, j = I.e.generic("i"), I.e.generic("j")
        return [*same_arr(I, A(I, given), A(I, I.getattr(c["xr"], "T")), "the features are clustered"),
                ("as many clusters as asked for", int_t(f["n_clusters"]) == c["k"]),
                ("one row per feature, one column per cluster", And(lib_np.dim_t(R.shape[0]) == c["d"], lib_np.dim_t(R.shape[1]) == c["k"])),
                ("a feature is in the cluster of its label only", forall([i, j], Implies(And(inr(i, c["d"]), inr(j, c["k"])), R.b(i, j) == (LABEL(i) == j)))),
                ("the labels are reported", And(lib_np.dim_t(L.shape[0]) == c["d"], forall([i], Implies(inr(i, c["d"]), L.i(i) == LABEL(i))))),
                *same_arr(I, A(I, c["xr"]), c["x"], "the features given are kept")]


def clusters(I, d, k):
    """A clustering of d features in k clusters none of which is empty."""
    t = arr2(I, "clust", d, k, "bool")
    c = A(I, t)
    i, f = z3.Int("i!cl"), z3.Int("f!cl")
    I.e.assume(z3.ForAll([i], Implies(inr(i, k), z3.Exists([f], And(inr(f, d), c.b(f, i))))))
    return t, c


def decoded(I, clust, d, gene):
    """The feature which a gene stands for in a cluster: counted around the cluster."""
    def at(i):
        m, sg = lib_np.mask_sel(I, d, lambda f: mkbool(clust.b(f, i)))
        return sg(int_t(I.binop(ast.Mod(), SInt(gene(i)), SInt(lib_np.dim_t(m)))))
    return at


def selection(I, extent):
    """The selection of which this is the extent: (count, positions, mask)."""
    hit = I.e.memo.get(("selname", extent.decl().name())) if z3.is_expr(extent) else None
    if hit is None or hit[0].params:
        raise Unsupported("the combination is not a selection by a mask")
    r, sg = hit
    return extent, (lambda k: sg(k)), (lambda j: lib_np.at(r, r.terms[0], j))


class Cost(Wiring):
    """The fitness of a combination: its worst error over the algorithms, negated."""
    qual = C + "cost_fcn"
    name = "cost_fcn"

    def configure(self, I):
        super().configure(I)
        search_tools(I)
        s = Stub("instancespace.stages.pilot:PilotStage.pilot", self.projection)
        I.contracts[s.qual] = s
        s = Stub("instancespace.data.options:PilotOptions.default", lambda I, v: SU(z3.Const("default_pilot", OBJ)))
        I.contracts[s.qual] = s
        I.lib["sklearn.model_selection.cross_val_score"] = self.scores
        I.loop_invs[(self.qual, 1)] = LoopInv(self.worst, self.havoc, self.modifies)

    @staticmethod
    def running(entry):
        """The local which holds the worst error so far."""
        names = [k for k, v in entry.vars.items() if isinstance(v, float) and v == -float("inf")]
        if len(names) != 1:
            raise Unsupported("the worst error so far is not recognised")
        return names[0]

    def havoc(self, I, frame, k, entry):
        nm = self.running(entry)
        frame.vars[nm] = SF(I.e.const("worst", REAL), I.e.const("worst_kind", INT))

    def modifies(self, I, entry, vars0):
        return {self.running(entry)} | {n for n in vars0 if n not in entry.vars} | {"i"}, set()

    def worst(self, I, frame, k, entry):
        w = to_f(frame.vars[self.running(entry)])
        j = I.e.generic("j")
        low = z3.And(w.kind == 2, T(True)) if z3.is_expr(w.kind) else T(w.kind == 2)
        return [("no error so far is worse", forall([j], Implies(inr(j, k), sym.f_le(self.err(I, j), w)))),
                ("the worst error so far is that of some algorithm", Or(And(k == 0, low), z3.Exists([j], And(inr(j, k), f_same(self.err(I, j), w)))))]

    def err(self, I, j):
        c = I.tc
        (call,), _ = self.called(I, "pilot")
        s = self.errors(I, A(I, call[1].fields["z"]), lambda r: z3.If(c["b"].b(r, j), z3.IntVal(1), z3.IntVal(0)))
        return to_f(sym.f_neg(to_f(I.lib["numpy.mean"](I, [s], {}, None))))

    def projection(self, I, v):
        z = arr2(I, "z", I.tc["n"], z3.IntVal(2), finite=True)
        c = I.repo.lookup(I.repo.module("instancespace.stages.pilot"), "PilotOutput", I)
        return RecV(c, {"z": z})

    @staticmethod
    def errors(I, z, labels):
        r, fresh, act = lib_np.reducer(I, "cross_validation", z.shape[0], lambda r: (to_f(z(r, z3.IntVal(0))).val, to_f(z(r, z3.IntVal(1))).val, labels(r)), [INT])
        cv = z3.Function("cv_score", INT, INT, REAL)
        a, b = z3.Ints("a!cv b!cv")
        I.e.axiom(z3.ForAll([a, b], cv(a, b) <= 0, patterns=[cv(a, b)]), {"cv_score"})
        e = r.fns[0](*act)
        return lib_np.new(I, (z3.Int("folds"),), lambda k: SF(cv(e, k)), "float")

    def scores(self, I, a, kw, nd):
        I.e.trusted("sklearn.model_selection.cross_val_score: the negated squared errors of every fold; functions of the coordinates and labels")
        if len(a) != 3 or set(kw) != {"cv", "scoring"} or kw["scoring"] != "neg_mean_squared_error":
            raise Unsupported("options of cross_val_score")
        I.e.assume(z3.Int("folds") >= 1)
        m = I.content(a[0]) if isinstance(a[0], Ref) else None
        if not (isinstance(m, ObjC) and m.cls == KNN):
            raise Unsupported("the classifier is not KNeighborsClassifier")
        for lab, g in [("folds of the search", term_eq(I, kw["cv"], I.tc["cv"]))]:
            I.e.oblige(lab, g, nd, kind="pre")
        z, y = A(I, a[1]), A(I, a[2])
        return self.errors(I, z, lambda r: int_t(y(r)))

    def setup(self, I):
        I.calls.clear()
        n, d, a, k = nat(I, "n", 1), nat(I, "d", 1), nat(I, "a", 1), nat(I, "k", 1)
        x, y, b = arr2(I, "x", n, d, missing=True), arr2(I, "y", n, a, missing=True), arr2(I, "y_bin", n, a, "bool")
        cl, clust = clusters(I, d, k)
        lab = z3.Function("name", INT, usort("Str"))
        names = lib_np.new(I, (d,), lambda i: SU(lab(i)), "object")
        sol = arr1(I, "solution", k, "int")
        cv = SU(z3.Const("cv_partition", OBJ))
        g = I.e.alloc(ObjC(GA, dict(selfx=x, selfy=y, selfy_bin=b, clust=cl, cv_partition=cv, selffeat_labels=names)))
        I.tc = c = dict(n=n, d=d, a=a, k=k, x=A(I, x), y=y, ya=A(I, y), b=A(I, b), clust=clust, sol=A(I, sol), lab=lab, cv=cv, keep=dict(x=x, y=y, y_bin=b, clust=cl, sol=sol))
        c["kept"] = {q: A(I, v) for q, v in c["keep"].items()}
        return dict(instance=g, solutions=sol, _solution_idx=SInt(z3.Int("number"))), c

    def ensures(self, I, c, res):
        (call,), _ = self.called(I, "pilot")
        v = call[0]
        i, j, q, r = (I.e.generic(t) for t in "ijqr")
        at = decoded(I, c["clust"], c["d"], lambda i: c["sol"].i(i))
        pick = lambda j: z3.Exists([q], And(inr(q, c["k"]), at(q) == j))
        X = A(I, v["x"])
        m, sg, mask = selection(I, X.shape[1])
        out = [("the combination has the features its genes stand for, one of every cluster", forall([j], Implies(inr(j, c["d"]), mask(j) == pick(j)))),
               ("the projection is made of the combination's features", And(lib_np.dim_t(X.shape[0]) == c["n"], lib_np.dim_t(X.shape[1]) == lib_np.dim_t(m), forall(
            [r, i], Implies(And(inr(r, c["n"]), inr(i, lib_np.dim_t(m))), f_same(to_f(X(r, i)), to_f(c["x"](r, sg(i))))))))]
        out += same_arr(I, A(I, v["y"]), c["ya"], "the projection is made for the performances")
        names = I.seq_of(I.content(v["feat_labels"]))
        nn = z3.IntVal(names.n) if isinstance(names.n, int) else names.n
        out.append(("the features have their names", And(nn == lib_np.dim_t(m), forall([i], Implies(inr(i, nn), term_eq(I, names.get(i), SU(c["lab"](sg(i)))))))))
        f = to_f(res)
        worst = sym.f_neg(f)
        out += [("no algorithm's error is worse than the fitness says", forall([j], Implies(inr(j, c["a"]), sym.f_le(self.err(I, j), worst)))),
                ("the fitness is the error of some algorithm", z3.Exists([j], And(inr(j, c["a"]), f_same(self.err(I, j), worst))))]
        for k, x in c["kept"].items():
            out += same_arr(I, A(I, c["keep"][k]), x, f"{k} is kept")
        return out


class Best(Wiring):
    """The combination found is decoded as its fitness is evaluated, on the same data."""
    qual = C + "_find_best_combination"
    name = "_find_best_combination"

    def configure(self, I):
        super().configure(I)
        search_tools(I)

        def run(I, v, a, kw, nd):
            self.check(I, I.content(v).fields, nd)
            I.runs.append(v)
        I.runs = []
        I.lib["method:pygad.GA.run"] = run

        def best(I, v, a, kw, nd):
            if len(I.runs) != 1:
                raise Unsupported("the search is not run once")
            n = int_t(I.content(v).fields["num_genes"])
            f = z3.Function("gene", INT, INT)
            return lib_np.new(I, (n,), lambda i: SInt(f(i)), "int"), SF(z3.Real("best_fitness")), SInt(z3.Int("best_number"))
        I.lib["method:pygad.GA.best_solution"] = best

    def check(self, I, f, nd):
        """What the search is given when it is run."""
        c = I.tc
        j = I.e.generic("j")
        goal = lambda lab, g: I.e.oblige(lab, g, nd, kind="pre")
        fn = f.get("fitness_func")
        name = getattr(getattr(fn, "func", fn), "qual", None) or getattr(fn, "name", "")
        if "cost_fcn" not in str(name) or not str(getattr(f["gene_type"], "name", f["gene_type"])).endswith("int"):
            raise Unsupported("the search does not use cost_fcn on integers")
        goal("one gene per cluster", int_t(f["num_genes"]) == c["k"])
        for k, w in (("selfx", c["xa"]), ("selfy", c["y"]), ("selfy_bin", c["b"]), ("clust", c["cl"])):
            for lab, g in same_arr(I, A(I, f[k]), w, f"the search is given its {k}"):
                goal(lab, g)
        L = A(I, f["selffeat_labels"])
        goal("the search is given the names of the features", And(lib_np.dim_t(L.shape[0]) == c["d"], forall([j], Implies(inr(j, c["d"]), term_eq(
            I, L(j), SU(c["lab"](c["sel"].i(j))))))))

    def setup(self, I):
        I.calls.clear()
        I.runs.clear()
        n, d0, d, a = nat(I, "n", 1), nat(I, "d0", 1), nat(I, "d", 1), nat(I, "a", 1)
        x, y, b = arr2(I, "x", n, d0, missing=True), arr2(I, "y", n, a, missing=True), arr2(I, "y_bin", n, a, "bool")
        o = options(I)
        k = o.fields["k"].t
        I.e.assume(k >= 1)
        cl, clust = clusters(I, d, k)
        sel = arr1(I, "selvars", d, "int")
        sa = A(I, sel)
        q, r = z3.Ints("q!sv r!sv")
        I.e.assume(z3.ForAll([q], Implies(inr(q, d), inr(sa.i(q), d0)), patterns=[sa.i(q)]))
        xa = lib_np.getitem(I, x, (sym.Slice(None, None, None), sel), None)
        lab = z3.Function("name", INT, usort("Str"))
        names = lib_np.new(I, (d0,), lambda i: SU(lab(i)), "object")
        par = record(I, O, "ParallelOptions", dict(flag="bool", n_cores="int"), "par_")
        me = stage(I, dict(x=x, y=y, y_bin=b, opts=o, feat_labels=names, parallel_options=par))
        I.tc = c = dict(n=n, d0=d0, d=d, a=a, k=k, x=A(I, x), y=A(I, y), b=A(I, b), cl=clust, sel=sa, xa=A(I, xa), lab=lab, keep=dict(x=x, y=y, b=b, cl=cl, sel=sel, xa=xa))
        return dict(self=me, x_aux=xa, clust=cl, selvars=sel, rng=generator(I)), c

    def ensures(self, I, c, res):
        X, S = A(I, res[0]), A(I, res[1])
        i, j, q, r = (I.e.generic(t) for t in "ijqr")
        f = z3.Function("gene", INT, INT)
        at = decoded(I, c["cl"], c["d"], f)
        pick = lambda j: z3.Exists([q], And(inr(q, c["k"]), at(q) == j))
        m, sg, mask = selection(I, S.shape[0])
        out = [("the features which the best combination stands for are kept, one of every cluster", forall([j], Implies(inr(j, c["d"]), mask(j) == pick(j)))),
               ("reported: their numbers, in order", forall([i], Implies(inr(i, m), S.i(i) == c["sel"].i(sg(i))))),
               ("kept: their columns", And(lib_np.dim_t(X.shape[0]) == c["n"], lib_np.dim_t(X.shape[1]) == lib_np.dim_t(m), forall([r, i], Implies(
                   And(inr(r, c["n"]), inr(i, m)), f_same(to_f(X(r, i)), to_f(c["x"](r, S.i(i))))))))]
        for k, v in c["keep"].items():
            out += same_arr(I, A(I, v), c[k], f"{k} is kept")
        return out


SELVARS = dict(small_scale_flag="bool", small_scale="float", file_idx_flag="bool", file_idx="str", feats="obj", algos="obj", selvars_type="str",
               min_distance="float", density_flag="bool")
ROWS = dict(y="mat", y_bin="bmat", x_raw="mat", y_raw="mat", beta="bvec", num_good_algos="vec", y_best="vec", p="ivec")
ALLROWS = sym.Slice(None, None, None)


def rows_of(I, name, kind, n):
    """Data with one entry per instance."""
    dt = {"m": "float", "v": "float", "b": "bool", "i": "int"}[kind[0]]
    return arr2(I, name, n, nat(I, name + "_cols"), dt, missing=dt == "float") if kind.endswith("mat") else arr1(I, name, n, dt)


def columns(I, x, sel):
    return lib_np.getitem(I, x, (ALLROWS, sel), None)


class Sifted(Wiring):
    """Features, names and numbers stay aligned on every way through the selection."""
    qual = C + "_sifted"
    name = "_sifted"

    def configure(self, I):
        super().configure(I)
        for s in (Stub(C + "select_features_by_performance", self.by_performance), Stub(C + "evaluate_cluster", self.evaluated),
                  Stub(C + "select_features_by_clustering", self.clustered), Stub(C + "_find_best_combination", self.best),
                  Stub("instancespace.utils.filter:do_filter", self.filtered)):
            I.contracts[s.qual] = s

    def picked(self, I, name, extent, bound):
        sel = arr1(I, name, extent, "int")
        f = A(I, sel)
        k = z3.Int("k!" + name)
        I.e.assume(z3.ForAll([k], Implies(inr(k, extent), inr(f.i(k), bound)), patterns=[f.i(k)]))
        return sel

    def by_performance(self, I, v):
        c = I.tc
        m = nat(I, "relevant")
        I.e.assume(m <= c["d"])
        sel = self.picked(I, "relevant_no", m, c["d"])
        return columns(I, c["x"], sel), value(I, "rho", "mat"), value(I, "pval", "mat"), sel

    def evaluated(self, I, v):
        return value(I, "scores", "objs"), value(I, "labels", "ivec")

    def clustered(self, I, v):
        return arr2(I, "clust", A(I, v["x_aux"]).shape[1], I.tc["o"].fields["k"].t, "bool"), value(I, "labels2", "ivec")

    def best(self, I, v):
        c = I.tc
        m = nat(I, "best")
        sel = self.picked(I, "best_no", m, c["d"])
        return columns(I, c["x"], sel), sel

    def filtered(self, I, v):
        n = I.tc["dense_n"]
        return arr1(I, "removed", n, "bool"), arr1(I, "diss", n, "bool"), arr1(I, "visa", n, "bool"), SF(z3.Real("uniformity"))

    def setup(self, I):
        I.calls.clear()
        from contracts.preprocessing import col
        n, d = nat(I, "n", 1), nat(I, "d", 0)
        lab = z3.Function("name", INT, usort("Str"))
        v = {k: rows_of(I, k, t, n) for k, t in ROWS.items()}
        v["x"] = arr2(I, "x", n, d, missing=True)
        v["inst_labels"] = col(I, "inst_labels", n, usort("Item"))[0]
        v["s"] = col(I, "s", n, usort("Item"))[0] if I.e.branch(z3.Bool("s_given")) else None
        o = options(I)
        names = lib_np.new(I, (d,), lambda i: SU(lab(i)), "object")
        so = record(I, O, "SelvarsOptions", SELVARS, "sv_")
        dense, dn = None, nat(I, "dense_n", 1)
        if I.e.branch(z3.Bool("dense_given")):
            w = {k: rows_of(I, "dense_" + k, t, dn) for k, t in ROWS.items()}
            w["x"] = arr2(I, "dense_x", dn, d, missing=True)
            w["inst_labels"] = col(I, "dense_labels", dn, usort("Item"))[0]
            w["s"] = col(I, "dense_s", dn, usort("Item"))[0] if I.e.branch(z3.Bool("dense_s_given")) else None
            dense = record(I, "instancespace.data.model", "DataDense", w)
        me = stage(I, dict(v, opts=o, feat_labels=names, parallel_options=SU(z3.Const("parallel", OBJ))))
        I.tc = c = dict(n=n, d=d, x=v["x"], v=v, o=o, lab=lab, so=so, dense=dense, dense_n=dn)
        c["kept"] = {k: A(I, r) for k, r in v.items() if isinstance(r, Ref) and I.is_arr(r)}
        return dict(self=me, opts_selvars=so, data_dense=dense), c

    def raises(self, I, c, ex):
        few = c["d"] <= 1
        return [("only when at most one feature is there or is left", And(T(ex.name == "NotEnoughFeatureError"), z3.simplify(Or(few, And(
            self.wanted(c), T("select_features_by_performance" in I.calls), z3.Int("relevant") <= 1)))))]

    def wanted(self, c):
        return And(c["d"] > 3, bool_t(c["o"].fields["flag"]))

    def ensures(self, I, c, res):
        v, d = c["v"], c["d"]
        get = lambda k: I.getattr(res, k)
        called = lambda nm: (self.called(I, nm)[0][0] if I.calls.get(nm) else None)
        perf, clus, best, filt = (called(k) for k in ("select_features_by_performance", "select_features_by_clustering", "_find_best_combination", "do_filter"))
        ev = called("evaluate_cluster")
        out = [("a single feature is an error", d > 1),
               ("everything is kept when selection is off or at most three features are there", self.wanted(c) == T(perf is not None)),
               ("clusters are used when more than three and more features than clusters remain", T(best is not None) == And(
                   T(perf is not None), z3.Int("relevant") > 3, z3.Int("relevant") > c["o"].fields["k"].t)),
               ("a single relevant feature is an error", Or(T(perf is None), z3.Int("relevant") > 1))]
        k = I.e.generic("k")
        sel = get("selvars")
        S = A(I, sel)
        if perf is None:
            out.append(("all features are reported", And(lib_np.dim_t(S.shape[0]) == d, forall([k], Implies(inr(k, d), S.i(k) == k)))))
        else:
            out += same(I, sel, best[1][1] if best is not None else perf[1][3], "the selected numbers are reported")
        if best is not None:
            if clus is None:
                raise Unsupported("the features are not clustered")
            out += self.passed(I, clus, dict(x_aux=perf[1][0]), "the clustering")
            out += self.passed(I, best, dict(x_aux=perf[1][0], clust=clus[1][0], selvars=perf[1][3]), "the search")
            out += same(I, get("clust"), clus[1][0], "the clusters are reported")
        if perf is not None:
            out += self.fields(I, res, dict(rho=perf[1][1], pval=perf[1][2]), "reported")
        m = lib_np.dim_t(S.shape[0])
        names = I.seq_of(I.content(get("feat_labels")))
        nn = z3.IntVal(names.n) if isinstance(names.n, int) else names.n
        out.append(("each selected feature has its own name", And(nn == m, forall([k], Implies(inr(k, m), term_eq(I, names.get(k), SU(c["lab"](S.i(k)))))))))
        f = c["so"].fields
        dense = bool_t(f["density_flag"]) if c["dense"] is not None and best is not None else T(False)
        out.append(("instances are filtered only when asked for, on the dense data", dense == T(filt is not None)))
        if filt is None:
            out += same(I, get("x"), columns(I, v["x"], sel), "the features are the selected columns")
            for q in (*ROWS, "inst_labels", "s"):
                out += same(I, get(q), v[q], f"{q} is passed on")
        else:
            w = c["dense"].fields
            out += self.passed(I, filt, dict(x=columns(I, w["x"], sel), y=w["y"], y_bin=w["y_bin"], selvars_type=f["selvars_type"], min_distance=f["min_distance"]), "the filter")
            keep = lib_np.map1(I, filt[1][0], lambda b: mkbool(Not(bool_t(b))), dtype="bool")
            cut = lambda r: lib_np.getitem(I, r, keep, None)
            out += same(I, get("x"), columns(I, cut(w["x"]), sel), "the features are the selected columns of the instances kept")
            for q in ROWS:
                out += same(I, get(q), cut(w[q]), f"{q} is that of the instances kept")
            for q in ("inst_labels", "s"):
                if w[q] is None:
                    out += same(I, get(q), v[q], f"{q} is passed on")
                else:
                    out += same_arr(I, A(I, lib_pd.vals(I, get(q))), A(I, cut(lib_pd.vals(I, w[q]))), f"{q} is that of the instances kept")
        for q, x in c["kept"].items():
            out += same_arr(I, A(I, v[q]), x, f"{q} is kept")
        return out


class Run(Wiring):
    """Every part of the stage's input reaches the selection under its own name."""
    qual = C + "_run"
    name = "_run"
    stubs = (Stub(C + "_sifted", lambda I, v: SU(z3.Const("out", OBJ))),)
    KINDS = dict(ROWS, x="mat", inst_labels="ser", s="ser?", feat_labels="strs", selvars_options="obj", data_dense="obj", parallel_options="obj")

    def setup(self, I):
        I.calls.clear()
        o = options(I)
        r = record(I, M, "SiftedInput", dict(self.KINDS, sifted_options=o))
        return dict(inputs=r), dict(i=r.fields)

    def ensures(self, I, c, res):
        i = c["i"]
        (call,), out = self.called(I, "_sifted")
        out += self.passed(I, call, dict(opts_selvars=i["selvars_options"], data_dense=i["data_dense"]), "the selection")
        me = I.e.get(call[0]["self"]).fields
        for k in (*ROWS, "x", "inst_labels", "s", "parallel_options"):
            out += same(I, me[k], i[k], f"the stage holds {k}")
        out += same(I, me["opts"], i["sifted_options"], "the stage holds the options")
        L, want = A(I, me["feat_labels"]), I.seq_of(I.content(i["feat_labels"]))
        k = I.e.generic("k")
        out.append(("the stage holds the names", And(lib_np.dim_t(L.shape[0]) == want.n, forall([k], Implies(inr(k, want.n), term_eq(I, L(k), want.get(k)))))))
        return out + same(I, res, call[1], "its result is returned")


class EvaluateCluster(Wiring):
    """The scores of 2, 3, … clusters of the features, which are kept."""
    qual = C + "evaluate_cluster"
    name = "evaluate_cluster"

    def configure(self, I):
        super().configure(I)
        search_tools(I)
        I.lib["sklearn.metrics.silhouette_score"] = self.score
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def score(self, I, a, kw, nd):
        I.e.trusted("sklearn.metrics.silhouette_score: a number made of the rows and labels")
        for l, g in same_arr(I, A(I, a[0]), I.tc["xt"], "the features are scored"):
            I.e.oblige(l, g, nd, kind="pre")
        return SF(I.e.const("silhouette", REAL))

    def setup(self, I):
        I.calls.clear()
        I.fits.clear()
        n, d = nat(I, "n", 1), nat(I, "d", 1)
        x, o = arr2(I, "x", n, d, missing=True), options(I)
        k = o.fields["k"].t
        I.e.assume(And(k >= 2, k < d))
        I.tc = c = dict(x=A(I, x), xr=x, xt=A(I, I.getattr(x, "T")), k=k, d=d)
        return dict(self=stage(I, dict(opts=o)), x_aux=x, rng=generator(I)), c

    def names(self, entry):
        lists = [n for n, v in entry.vars.items() if isinstance(v, Ref) and isinstance(entry.heap.get(v.loc), ListC) and not entry.heap[v.loc].items]
        maps = [n for n, v in entry.vars.items() if isinstance(v, Ref) and isinstance(entry.heap.get(v.loc), DictC) and not entry.heap[v.loc].items]
        if len(lists) != 1 or len(maps) != 1:
            raise Unsupported("the scores are kept differently")
        return lists[0], maps[0]

    def inv(self, I, frame, k, entry):
        l, m = self.names(entry)
        s = I.seq_of(I.content(frame.vars[l]))
        n = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        d = I.content(frame.vars[m])
        q = I.e.generic("q")
        if isinstance(d, DictC):
            if d.items:
                raise Unsupported("the labels are kept differently")
            dom = lambda q: T(False)
        else:
            dom = d.dom
        return [("one score per number of clusters", n == k), ("the labels of every number of clusters", forall([q], dom(q) == And(2 <= q, q < k + 2)))]

    def havoc(self, I, frame, k, entry):
        l, m = self.names(entry)
        f = I.e.func("score", [INT], REAL)
        I.e.heap[frame.vars[l].loc] = SeqC(k, lambda q: SF(f(q)))
        I.e.heap[frame.vars[m].loc] = MapC(("int",), lambda q: And(2 <= q, q < k + 2), lambda q: self.labelled(I, q))

    def labelled(self, I, q):
        f = z3.Function("labels_of", INT, INT, INT)
        return lib_np.new(I, (I.tc["d"],), lambda r: SInt(f(q, r)), "int")

    def modifies(self, I, entry, vars0):
        l, m = self.names(entry)
        return {n for n in vars0 if n not in entry.vars} | {"n", "kmeans", "cluster_labels"}, {entry.vars[l].loc, entry.vars[m].loc}

    def ensures(self, I, c, res):
        s = I.seq_of(I.content(res[0]))
        return [("one score per number of clusters", s.n == c["d"] - 2), *same_arr(I, A(I, c["xr"]), c["x"], "the features given are kept")]


ALL = [EvaluateCluster(), Correlations(), Performance(), Clustering(), Cost(), Best(), Sifted(), Run()]
