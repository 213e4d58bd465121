"""Contracts of the algorithm selection models (C25, C26)."""
import z3

from contracts.common import OBJ, Stub, Wiring, record, same, value
from pyvc import lib_np, sym
from pyvc.engine import usort
from pyvc.loops import LoopInv
from pyvc.sym import And, Implies, ListC, Not, ObjC, Or, RecV, Ref, SF, SInt, SeqC, T, Unsupported, bool_t, f_lt, f_same, int_t, to_f
from pyvc.verify import A, Contract, arr1, arr2, forall, inr, nat, same_arr, seq_of_sort, term_eq

M = "instancespace.stages.pythia"
P = M + ":PythiaStage."
INT, REAL = z3.IntSort(), z3.RealSort()


def floats(I, name, n, lo=None, hi=None):
    """A list of numbers (between lo and hi)."""
    f = z3.Function(name, INT, REAL)
    k = z3.Int("k!" + name)
    if lo is not None:
        I.e.axiom(z3.ForAll([k], And(f(k) >= lo, f(k) <= hi), patterns=[f(k)]), {name})
    return I.e.alloc(SeqC(n, lambda k: SF(f(k)), "float")), f


class Selections(Contract):
    """The recommended algorithm of every instance, and the one recommended most often good."""
    qual = P + "_determine_selections"
    name = "_determine_selections"

    def setup(self, I):
        n, d = nat(I, "n", 1), nat(I, "d", 1)
        y_hat, y_bin = arr2(I, "y_hat", n, d, "bool"), arr2(I, "y_bin", n, d, "bool")
        prec, p = floats(I, "precision", d, 0, 1)
        return dict(nalgos=SInt(d), precision=prec, y_hat=y_hat, y_bin=y_bin), dict(
            n=n, d=d, p=p, hat=A(I, y_hat), bin=A(I, y_bin), hr=y_hat, br=y_bin, prec=prec)

    def ensures(self, I, c, res):
        if not isinstance(res, tuple) or len(res) != 2:
            raise Unsupported("two selections are not returned")
        s0, s1 = A(I, res[0]), A(I, res[1])
        n, d, p, hat, good = (c[k] for k in ("n", "d", "p", "hat", "bin"))
        i, j = I.e.generic("i"), I.e.generic("j")
        usable = lambda i, j: And(hat.b(i, j), Or(p(j) > 0, d == 1))
        k = z3.Int("k!some")
        some = lambda i: z3.Exists([k], And(inr(k, d), usable(i, k)))
        count = lambda j: lib_np.count_of(I, n, lambda r: good.b(r, j))
        a = s1.i(i)
        ri, rj = inr(i, n), inr(j, d)
        return [("one recommendation per instance", And(s0.shape[0] == n, s1.shape[0] == n)),
                ("a recommended algorithm is an algorithm", forall([i], Implies(ri, Or(s0.i(i) == -1, inr(s0.i(i), d))))),
                ("a recommended algorithm is predicted good", forall([i], Implies(And(ri, s0.i(i) != -1), usable(i, s0.i(i))))),
                ("no algorithm predicted good has a higher precision",
                 forall([i, j], Implies(And(ri, rj, s0.i(i) != -1, hat.b(i, j)), p(j) <= p(s0.i(i))))),
                ("none is recommended only when none is predicted good", forall([i], Implies(And(ri, s0.i(i) == -1), Not(some(i))))),
                ("the default is used only then", forall([i], Implies(And(ri, s0.i(i) != -1), a == s0.i(i)))),
                ("the default is an algorithm", forall([i], Implies(And(ri, s0.i(i) == -1), inr(a, d)))),
                ("the default is good most often",
                 forall([i, j], Implies(And(ri, rj, s0.i(i) == -1), count(j) <= count(a)))),
                *same_arr(I, A(I, c["hr"]), hat, "the predictions given are kept"),
                *same_arr(I, A(I, c["br"]), good, "the labels given are kept")]


class Znorm(Contract):
    """The standardised coordinates and the parameters which standardise them."""
    qual = P + "_compute_znorm"
    name = "_compute_znorm"

    def setup(self, I):
        n, d = nat(I, "n", 2), nat(I, "d", 1)
        z = arr2(I, "z", n, d, finite=True)
        return dict(z=z), dict(n=n, d=d, z=A(I, z), zr=z)

    def ensures(self, I, c, res):
        if not isinstance(res, tuple) or len(res) != 3:
            raise Unsupported("three results are not returned")
        mu, sigma, zn = (A(I, r) for r in res)
        n, d, z = c["n"], c["d"], c["z"]
        i, j = I.e.generic("i"), I.e.generic("j")
        m, s = self.of(I, c["zr"], z)
        rng = And(inr(i, n), inr(j, d))
        return [("one parameter per coordinate", And(mu.shape[0] == d, sigma.shape[0] == d)),
                ("the shape is kept", And(zn.shape[0] == n, zn.shape[1] == d)),
                ("the means are those of the coordinates", forall([j], Implies(inr(j, d), f_same(to_f(mu(j)), to_f(m(j)))))),
                ("the deviations are the sample deviations", forall([j], Implies(inr(j, d), f_same(to_f(sigma(j)), to_f(s(j)))))),
                ("the coordinates are standardised with the reported parameters", forall([i, j], Implies(
                    rng, f_same(to_f(zn(i, j)), sym.f_div(sym.f_sub(to_f(z(i, j)), to_f(mu(j))), to_f(sigma(j))))))),
                *same_arr(I, A(I, c["zr"]), z, "the coordinates given are kept")]

    @staticmethod
    def of(I, zr, z):
        base = lib_np.new(I, z.shape, lambda i, j: z(i, j), "float")
        return (A(I, I.lib["numpy.mean"](I, [base], {"axis": 0}, None)),
                A(I, I.lib["numpy.std"](I, [base], {"axis": 0, "ddof": 1}, None)))


COLS = {"Algorithms": None, "Avg_Perf_all_instances": None, "Std_Perf_all_instances": None, "Probability_of_good": None,
        "Avg_Perf_selected_instances": None, "Std_Perf_selected_instances": None, "CV_model_accuracy": None,
        "CV_model_precision": None, "CV_model_recall": None, "BoxConstraint": None, "KernelScale": None}


class Summary(Contract):
    """One row per algorithm, the oracle and the selector."""
    qual = P + "_generate_summary"
    name = "_generate_summary"

    def setup(self, I):
        n, d = nat(I, "n", 1), nat(I, "d", 1)
        y = arr2(I, "y", n, d, missing=True)
        y_hat, y_bin = arr2(I, "y_hat", n, d, "bool"), arr2(I, "y_bin", n, d, "bool")
        best = arr1(I, "y_best", n)
        s0, s1 = arr1(I, "sel0", n, "int"), arr1(I, "sel1", n, "int")
        labels, lab = seq_of_sort(I, "labels", d, usort("Str"))
        v = dict(nalgos=SInt(d), algo_labels=labels, y=y, y_hat=y_hat, y_bin=y_bin, y_best=best, selection0=s0, selection1=s1)
        c = dict(n=n, d=d, lab=lab)
        for k in ("precision", "accuracy", "recall", "box_consnt", "k_scale"):
            v[k], c[k] = floats(I, k, d)
        c["A"] = {k: A(I, x) for k, x in v.items() if isinstance(x, Ref) and I.is_arr(x)}
        c["refs"] = v
        return v, c

    def ensures(self, I, c, res):
        from pyvc import lib_pd
        if not lib_pd.is_a(I, res, "DataFrame") or "named" not in I.content(res).fields:
            raise Unsupported("the summary is not made from named columns")
        fr = I.content(res).fields
        cols = fr["named"]
        if set(cols) - set(COLS):
            raise Unsupported("columns of the summary are not recognised")
        n, d, a = c["n"], c["d"], c["A"]
        out = [("missing entries are blank", T(fr.get("missing") == "")), ("all columns are reported", T(set(cols) == set(COLS)))]
        j = I.e.generic("j")
        y, hat, good, best = (a[k] for k in ("y", "y_hat", "y_bin", "y_best"))
        s0, s1 = a["selection0"], a["selection1"]
        nan = SF(z3.RealVal(0), 3)
        r3 = z3.Function("round_dec", REAL, INT, REAL)
        rnd = lambda x: SF(r3(to_f(x).val, z3.IntVal(3)), to_f(x).kind)
        new = lambda shape, f, dt="float": lib_np.new(I, shape, f, dt)
        stat = lambda nm, x, **kw: I.lib["numpy." + nm](I, [x], kw, None)
        yy = new((n, d), lambda i, j: y(i, j))
        own = new((n, d), lambda i, j: I.ite(hat.b(i, j), y(i, j), nan))
        full = new((n, d), lambda i, j: I.ite(s1.i(i) == j, y(i, j), nan))
        bst = new((n,), lambda i: best(i))
        col = lambda r, j: to_f(A(I, r)(j))
        hundred = lambda x: sym.f_mul(to_f(100), to_f(x))
        cells = lambda r, j: (r / d, r % d)
        tru = lambda r: good.b(*cells(r, j))
        pre = lambda r: s0.i(cells(r, j)[0]) == cells(r, j)[1]
        k = z3.Int("k!al")
        chosen_good = lambda i: z3.Exists([k], And(inr(k, d), good.b(i, k), s1.i(i) == k))
        pgood = sym.f_div(to_f(SInt(lib_np.count_of(I, n, chosen_good))), to_f(SInt(n)))
        lst = lambda nm: lambda j: SF(c[nm](j))
        want = {
            "Avg_Perf_all_instances": (lambda j: rnd(rnd(col(stat("nanmean", yy, axis=0), j))), rnd(stat("nanmean", bst)), rnd(stat("nanmean", full))),
            "Std_Perf_all_instances": (lambda j: rnd(rnd(col(stat("nanstd", yy, axis=0), j))), rnd(stat("nanstd", bst)), rnd(stat("nanstd", full))),
            "Probability_of_good": (lambda j: rnd(sym.f_div(to_f(SInt(lib_np.count_of(I, n, lambda r: good.b(r, j)))), to_f(SInt(n)))), rnd(to_f(1)), rnd(pgood)),
            "Avg_Perf_selected_instances": (lambda j: rnd(col(stat("nanmean", own, axis=0), j)), nan, rnd(stat("nanmean", full))),
            "Std_Perf_selected_instances": (lambda j: rnd(col(stat("nanstd", own, axis=0), j)), nan, rnd(stat("nanstd", full))),
            "CV_model_accuracy": (lambda j: rnd(hundred(lst("accuracy")(j))), nan, nan),
            "CV_model_precision": (lambda j: rnd(hundred(lst("precision")(j))), nan, rnd(hundred(I.scores["precision"](I, n * d, tru, pre)))),
            "CV_model_recall": (lambda j: rnd(hundred(lst("recall")(j))), nan, rnd(hundred(I.scores["recall"](I, n * d, tru, pre)))),
            "BoxConstraint": (lambda j: rnd(lst("box_consnt")(j)), nan, nan),
            "KernelScale": (lambda j: rnd(lst("k_scale")(j)), nan, nan)}
        for nm, ref in cols.items():
            x = A(I, ref)
            out.append((f"{nm}: one row per algorithm, the oracle and the selector", x.shape[0] == d + 2))
            if nm == "Algorithms":
                out.append(("the rows name the algorithms", forall([j], Implies(inr(j, d), term_eq(I, x(j), sym.SU(c["lab"](j)))))))
                for q, w in ((0, "Oracle"), (1, "Selector")):
                    out.append((f"the row of the {w.lower()} is named", term_eq(I, x(d + q), w)))
                continue
            alg, orc, sel = want[nm]
            out.append((f"{nm}: each algorithm's own value", forall([j], Implies(inr(j, d), f_same(to_f(x(j)), alg(j))))))
            out.append((f"{nm}: the oracle's value", f_same(to_f(x(d)), orc)))
            out.append((f"{nm}: the selector's value", f_same(to_f(x(d + 1)), sel)))
        for k2, x in a.items():
            out += same_arr(I, A(I, c["refs"][k2]), x, f"{k2} is kept")
        return out


ALL = [Selections(), Znorm(), Summary()]


SUB, HAT = (z3.Function("fit_" + n, INT, INT, z3.BoolSort()) for n in ("sub", "hat"))
PSUB, PHAT = (z3.Function("fit_p" + n, INT, INT, REAL) for n in ("sub", "hat"))
BOX, SCALE = (z3.Function("fit_" + n, INT, REAL) for n in ("c", "g"))
SVM = z3.Function("fit_svm", INT, OBJ)
GRID = z3.Function("param_grid", INT, OBJ)


class Pythia(Wiring):
    """One model per algorithm, from its own labels and weights; every result at its own position."""
    qual = P + "pythia"
    name = "pythia"

    def configure(self, I):
        super().configure(I)
        I.lib["sklearn.model_selection.StratifiedKFold"] = self.kfold
        for s in (Stub(P + "_fitmatsvm", lambda I, v: self.fit(I, v), pre=lambda I, v: self.given(I, v)),
                  Stub(P + "_generate_params", lambda I, v: sym.SU(GRID(self.index(I)))),
                  Stub(P + "_display_overall_perf", lambda I, v: None),
                  Stub(P + "_compute_znorm", lambda I, v: (value(I, "mu", "vec"), value(I, "sigma", "vec"), arr2(I, "znorm", I.pc["n"], I.pc["nz"], finite=True))),
                  Stub(P + "_determine_selections", lambda I, v: (value(I, "s0", "ivec"), value(I, "s1", "ivec"))),
                  Stub(P + "_generate_summary", lambda I, v: sym.SU(z3.Const("summary", OBJ)))):
            I.contracts[s.qual] = s

    @staticmethod
    def kfold(I, a, kw, nd):
        I.e.trusted("sklearn.model_selection.StratifiedKFold: an object made from the number of folds")
        n = kw.get("n_splits", a[0] if a else None)
        I.pc["folds"].append((n, kw.get("random_state")))
        return sym.SU(z3.Const("folds", OBJ))

    def index(self, I):
        g = list(I.e.generics)
        if len(g) != 1:
            raise Unsupported("the models are not trained in one loop over the algorithms")
        return g[0]

    def setup(self, I):
        I.calls.clear()
        n, d, nz = nat(I, "n", 1), nat(I, "d", 1), nat(I, "nz", 1)
        o = record(I, "instancespace.data.options", "PythiaOptions", dict(
            cv_folds="int", is_poly_krnl="bool", use_weights="bool", use_grid_search="bool", params="mat?"), "opt_")
        z, y = arr2(I, "z", n, nz, finite=True), arr2(I, "y", n, d, missing=True)
        b, best = arr2(I, "y_bin", n, d, "bool"), arr1(I, "y_best", n)
        labels, lab = seq_of_sort(I, "labels", d, usort("Str"))
        # cost-sensitive learning needs performances which differ
        r = z3.Int("differs")
        ya, mean = A(I, y), to_f(I.lib["numpy.nanmean"](I, [y], {}, None))
        cell = to_f(ya(r / d, r % d))
        I.e.assume(And(inr(r, n * d), sym.isfin(cell), sym.isfin(mean), cell.val != mean.val))
        v = dict(z=z, y=y, y_bin=b, y_best=best, algo_labels=labels, opts=o, parallel_options=sym.SU(z3.Const("parallel", OBJ)))
        I.pc = c = dict(n=n, d=d, nz=nz, v=v, folds=[], y=A(I, y), A={k: A(I, x) for k, x in v.items() if isinstance(x, Ref) and I.is_arr(x)})
        return dict(v), c

    def given(self, I, v):
        c, i = I.pc, self.index(I)
        r = I.e.generic("r")
        b = A(I, v["y_bin"])
        o = c["v"]["opts"].fields
        calls = I.calls.get("_compute_znorm", [])
        if len(calls) != 1:
            raise Unsupported("the coordinates are not standardised once")
        out = [("one label per instance", b.shape[0] == c["n"]),
               ("the labels are the algorithm's own", forall([r], Implies(inr(r, c["n"]), b.b(r) == c["A"]["y_bin"].b(r, i)))),
               ("one weight per instance", A(I, v["w"]).shape[0] == c["n"]),
               *same(I, v["z"], calls[0][1][2], "the coordinates are the standardised ones"),
               ("the folds are the reported ones", term_eq(I, v["skf"], sym.SU(z3.Const("folds", OBJ)))),
               ("the kernel asked for", term_eq(I, v["is_poly_kernel"], o["is_poly_krnl"])),
               ("the search asked for", term_eq(I, v["use_grid_search"], o["use_grid_search"])),
               ("the cores asked for", term_eq(I, v["parallel_options"], c["v"]["parallel_options"]))]
        return out

    def fit(self, I, v):
        i, n = self.index(I), I.pc["n"]
        new = lambda f, dt, w: lib_np.new(I, (n,), lambda r: w(f(i, r)), dt)
        c = I.repo.lookup(I.repo.module(M), "_SvmRes", I)
        return RecV(c, dict(svm=sym.SU(SVM(i)), Ysub=new(SUB, "bool", sym.mkbool), Yhat=new(HAT, "bool", sym.mkbool),
                            Psub=new(PSUB, "float", SF), Phat=new(PHAT, "float", SF), c=SF(BOX(i)), g=SF(SCALE(i))))

    def ensures(self, I, c, res):
        n, d = c["n"], c["d"]
        i, j = I.e.generic("i"), I.e.generic("j")
        out = []
        get = lambda k: I.getattr(res, k)
        for k, f, dt in (("y_sub", SUB, "b"), ("y_hat", HAT, "b"), ("pr0_sub", PSUB, "f"), ("pr0_hat", PHAT, "f")):
            x = A(I, get(k))
            val = x.b(i, j) == f(j, i) if dt == "b" else f_same(to_f(x(i, j)), SF(f(j, i)))
            out += [(f"{k}: shape", And(x.shape[0] == n, x.shape[1] == d)),
                    (f"{k}: each algorithm's own model at its position", forall([i, j], Implies(And(inr(i, n), inr(j, d)), val)))]
        seqs = {k: I.seq_of(I.content(get(k))) for k in ("svm", "box_consnt", "k_scale", "accuracy", "precision", "recall")}
        lens = {k: (z3.IntVal(s.n) if isinstance(s.n, int) else s.n) for k, s in seqs.items()}
        out += [(f"{k}: one entry per algorithm", m == d) for k, m in lens.items()]
        at = lambda k: seqs[k].get(j)
        out += [("svm: each algorithm's own model", forall([j], Implies(inr(j, d), term_eq(I, at("svm"), sym.SU(SVM(j)))))),
                ("box_consnt: each algorithm's own", forall([j], Implies(inr(j, d), f_same(to_f(at("box_consnt")), SF(BOX(j)))))),
                ("k_scale: each algorithm's own", forall([j], Implies(inr(j, d), f_same(to_f(at("k_scale")), SF(SCALE(j))))))]
        good = c["A"]["y_bin"]
        for k in ("accuracy", "precision", "recall"):
            sc = lambda f: to_f(I.scores[k](I, n, lambda r: good.b(r, j), lambda r: f(j, r)))
            out.append((f"{k}: of the algorithm's own predictions", forall([j], Implies(inr(j, d), Or(
                f_same(to_f(at(k)), sc(HAT)), f_same(to_f(at(k)), sc(SUB)))))))
        m = A(I, get("cvcmat"))
        cnt = lambda t, p: lib_np.count_of(I, n, lambda r: And(good.b(r, j) if t else Not(good.b(r, j)), SUB(j, r) if p else Not(SUB(j, r))))
        out.append(("cvcmat: one row of four per algorithm", And(m.shape[0] == d, m.shape[1] == 4)))
        for q, (t, p, nm) in enumerate(((0, 0, "true negatives"), (0, 1, "false positives"), (1, 0, "false negatives"), (1, 1, "true positives"))):
            out.append((f"cvcmat: {nm} of the algorithm's cross-validated predictions", forall([j], Implies(inr(j, d), m.i(j, q) == cnt(t, p)))))
        (zn,), _ = self.called(I, "_compute_znorm")
        (sel,), _ = self.called(I, "_determine_selections")
        (smy,), _ = self.called(I, "_generate_summary")
        v = c["v"]
        out += self.passed(I, zn, dict(z=v["z"]), "the standardisation")
        out += self.fields(I, res, dict(mu=zn[1][0], sigma=zn[1][1], selection0=sel[1][0], selection1=sel[1][1], pythia_summary=smy[1]), "reported")
        rec = {k: get(k) for k in ("precision", "accuracy", "recall", "box_consnt", "k_scale", "y_hat")}
        out += self.passed(I, sel, dict(nalgos=SInt(d), precision=rec["precision"], y_hat=rec["y_hat"], y_bin=v["y_bin"]), "the selection")
        out += self.passed(I, smy, dict(nalgos=SInt(d), algo_labels=v["algo_labels"], y=v["y"], y_bin=v["y_bin"], y_best=v["y_best"],
                                        selection0=sel[1][0], selection1=sel[1][1], **rec), "the summary")
        for k, x in c["A"].items():
            out += same_arr(I, A(I, v[k]), x, f"the argument {k} is kept")
        return out


class Run(Wiring):
    """The parts of the stage's input reach the function under their own names."""
    qual = P + "_run"
    name = "_run"
    stubs = (Stub(P + "pythia", lambda I, v: sym.SU(z3.Const("out", OBJ))),)

    def setup(self, I):
        I.calls.clear()
        r = record(I, M, "PythiaInput", dict(z="mat", y_raw="mat", y_bin="bmat", y_best="vec", algo_labels="strs", pythia_options="obj", parallel_options="obj"))
        return dict(inputs=r), dict(i=r.fields)

    def ensures(self, I, c, res):
        i = c["i"]
        (call,), out = self.called(I, "pythia")
        out += self.passed(I, call, dict(z=i["z"], y=i["y_raw"], y_bin=i["y_bin"], y_best=i["y_best"], algo_labels=i["algo_labels"],
                                         opts=i["pythia_options"], parallel_options=i["parallel_options"]), "the analysis")
        return out + same(I, res, call[1], "its result is returned")


ALL = [Selections(), Znorm(), Summary(), Pythia(), Run()]


class FitSvm(Wiring):
    """The best model of the search over the given data; predictions for, and cross-validated ones of, exactly these data."""
    qual = P + "_fitmatsvm"
    name = "_fitmatsvm"

    def configure(self, I):
        super().configure(I)
        L = I.lib
        SEARCH, BEST = "sklearn.model_selection.RandomizedSearchCV", "sklearn.svm.SVC"

        def svc(I, a, kw, nd):
            I.e.trusted("sklearn.svm.SVC: a model made from its settings")
            if a or "random_state" not in kw:
                raise Unsupported("the settings of the model are not recognised")
            return I.e.alloc(ObjC(sym.LibV(BEST), {"settings": dict(kw), "best": False}))

        def search(kind, space):
            def f(I, a, kw, nd):
                I.e.trusted("the searches for hyper-parameters (scikit-learn, scikit-optimize): a best estimator and its parameters")
                if a or not {"estimator", "cv", space} <= set(kw):
                    raise Unsupported("the settings of the search are not recognised")
                return I.e.alloc(ObjC(sym.LibV(SEARCH), {"kind": kind, "space": kw[space], "est": kw["estimator"], "cv": kw["cv"], "fitted": None}))
            return f
        L[BEST] = svc
        L[SEARCH] = search("grid", "param_distributions")
        L["skopt.BayesSearchCV"] = search("bayes", "search_spaces")

        def fit(I, v, a, kw, nd):
            if len(a) != 2 or set(kw) - {"sample_weight"}:
                raise Unsupported("the call of the search is not recognised")
            f = dict(I.content(v).fields)
            if f["fitted"] is not None:
                raise Unsupported("the search is fitted twice")
            f["fitted"] = True
            I.pc["search"] = dict(f, z=a[0], y=a[1], w=kw.get("sample_weight"))
            n, d = I.pc["n"], I.pc["d"]
            self.data(I, a[0], a[1], "the search")
            if I.pc["search"]["w"] is not None:
                for l, g in same_arr(I, A(I, I.pc["search"]["w"]), I.pc["A"]["w"], "the search weighs the instances as given"):
                    I.e.oblige(l, g, nd, kind="pre")
            I.e.put(v, ObjC(sym.LibV(SEARCH), f))
            return v

        def fitted(I, v):
            f = I.content(v).fields
            if f["fitted"] is None:
                raise Unsupported("the search is not fitted")
            return f

        def best(I, v):
            f = fitted(I, v)
            if "model" not in I.pc:
                I.pc["model"] = I.e.alloc(ObjC(sym.LibV(BEST), {"settings": I.content(f["est"]).fields["settings"], "best": True}))
            return I.pc["model"]

        def params(I, v):
            fitted(I, v)
            return I.e.alloc(sym.DictC({"C": SF(z3.Real("best_C")), "gamma": SF(z3.Real("best_gamma"))}))
        L[f"method:{SEARCH}.fit"] = fit
        L[f"attr:{SEARCH}.best_estimator_"] = best
        L[f"attr:{SEARCH}.best_params_"] = params

        def model(I, v):
            if v != I.pc.get("model"):
                raise Unsupported("predictions of another model")
        vec = lambda f: lambda I: lib_np.new(I, (I.pc["n"],), lambda i: sym.mkbool(f(z3.IntVal(0), i)), "bool")
        mat = lambda f: lambda I: lib_np.new(I, (I.pc["n"], z3.IntVal(2)), lambda i, k: SF(f(i, k)), "float")
        made = {"predict": (vec(HAT), vec(SUB)), "predict_proba": (mat(PHAT), mat(PSUB))}
        self.made = made

        def predict(nm):
            def f(I, v, a, kw, nd):
                model(I, v)
                if len(a) != 1 or kw:
                    raise Unsupported("the call of the model is not recognised")
                self.data(I, a[0], None, "the predictions")
                return made[nm][0](I)
            return f
        for nm in made:
            L[f"method:{BEST}.{nm}"] = predict(nm)

        def cross(I, a, kw, nd):
            I.e.trusted("sklearn.model_selection.cross_val_predict: predictions of models which have not seen the instance")
            if len(a) != 3 or set(kw) - {"cv", "method", "n_jobs"}:
                raise Unsupported("the cross-validation is not recognised")
            m = kw.get("method", "predict")
            if m not in made:
                raise Unsupported("what is cross-validated is not recognised")
            model(I, a[0])
            self.data(I, a[1], a[2], "the cross-validation")
            g = term_eq(I, kw.get("cv"), I.pc["v"]["skf"]) if kw.get("cv") is not None else T(False)
            I.e.oblige("the cross-validation: with the folds given", g, nd, kind="pre")
            return made[m][1](I)
        L["sklearn.model_selection.cross_val_predict"] = cross

    def data(self, I, z, y, what):
        for l, g in same_arr(I, A(I, z), I.pc["A"]["z"], f"{what}: the coordinates given") + (
                same_arr(I, A(I, y), I.pc["A"]["y_bin"], f"{what}: the labels given") if y is not None else []):
            I.e.oblige(l, g, None, kind="pre")

    def setup(self, I):
        I.calls.clear()
        n, d = nat(I, "n", 1), nat(I, "nz", 1)
        z, b, w = arr2(I, "z", n, d, finite=True), arr1(I, "y_bin", n, "bool"), arr1(I, "w", n, finite=True)
        par = record(I, "instancespace.data.options", "ParallelOptions", dict(flag="bool", n_cores="int"), "par_")
        v = dict(z=z, y_bin=b, w=w, skf=sym.SU(z3.Const("folds", OBJ)), is_poly_kernel=value(I, "poly", "bool"),
                 param_space=sym.SU(z3.Const("space", OBJ)), use_grid_search=value(I, "grid", "bool"), parallel_options=par)
        I.pc = c = dict(n=n, d=d, v=v, A={k: A(I, v[k]) for k in ("z", "y_bin", "w")})
        return dict(v), c

    def ensures(self, I, c, res):
        s = I.pc.get("search")
        if s is None or I.pc.get("model") is None:
            raise Unsupported("the model is found differently")
        v = c["v"]
        set_ = I.content(s["est"]).fields["settings"]
        g = lambda k: I.getattr(res, k)
        poly, grid = bool_t(v["is_poly_kernel"]), bool_t(v["use_grid_search"])
        out = [("the kernel asked for", Implies(poly, T(set_.get("kernel") == "poly"))), ("the other kernel otherwise", Implies(Not(poly), T(set_.get("kernel") == "rbf"))),
               ("the model gives probabilities", T(set_.get("probability") is True)),
               ("the search asked for", grid if s["kind"] == "grid" else Not(grid)),
               ("the search uses the folds given", term_eq(I, s["cv"], v["skf"])),
               ("the search uses the parameters given", term_eq(I, s["space"], v["param_space"])),
               ("the search weighs the instances", T(s["w"] is not None)),
               ("the model is the best one found", T(g("svm") == I.pc["model"])),
               ("the box constraint is that of the model", f_same(to_f(g("c")), SF(z3.Real("best_C")))),
               ("the kernel scale is that of the model", f_same(to_f(g("g")), SF(z3.Real("best_gamma"))))]
        i = I.e.generic("i")
        n = c["n"]
        for k, f in (("Yhat", HAT), ("Ysub", SUB)):
            x = A(I, g(k))
            out += [(f"{k}: one per instance", x.shape[0] == n), (f"{k}: the model's own", forall([i], Implies(inr(i, n), x.b(i) == f(z3.IntVal(0), i))))]
        for k, f in (("Phat", PHAT), ("Psub", PSUB)):
            x = A(I, g(k))
            out += [(f"{k}: one per instance", x.shape[0] == n),
                    (f"{k}: the probability of being good", forall([i], Implies(inr(i, n), f_same(to_f(x(i)), SF(f(i, z3.IntVal(1)))))))]
        for k, x in c["A"].items():
            out += same_arr(I, A(I, v[k]), x, f"the argument {k} is kept")
        return out


class Precalc(Contract):
    """Pre-calculated parameters are used when there are two for every algorithm, and kept."""
    qual = P + "_check_precalcparams"
    name = "_check_precalcparams"

    def setup(self, I):
        m = nat(I, "algos", 1)
        p = arr2(I, "params", nat(I, "rows"), nat(I, "cols")) if I.e.branch(z3.Bool("params_given")) else None
        return dict(params=p, nalgos=SInt(m)), dict(p=p, m=m, P=A(I, p) if p is not None else None)

    def ensures(self, I, c, res):
        if c["p"] is None:
            return [("none given: none", T(res is None))]
        x = c["P"]
        fit = And(x.shape[0] == c["m"], x.shape[1] == 2)
        if res is None:
            return [("two for every algorithm are used", Not(fit)), *same_arr(I, A(I, c["p"]), x, "the parameters given are kept")]
        return [("only two for every algorithm are used", fit), *same_arr(I, A(I, res), x, "those given are used"),
                *same_arr(I, A(I, c["p"]), x, "the parameters given are kept")]


ALL = [Selections(), Znorm(), Summary(), Pythia(), Run(), FitSvm(), Precalc()]
