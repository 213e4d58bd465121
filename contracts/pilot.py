"""Contracts of the projection (C23)."""
import z3

from contracts.common import OBJ, Stub, Wiring, record, same, value
from pyvc import lib_np, lib_pd, sym
from pyvc.engine import usort
from pyvc.loops import LoopInv
from pyvc.sym import And, Implies, ListC, Not, ObjC, Opaque, Or, RecV, Ref, SF, SInt, T, Unsupported, bool_t, f_le, f_same, int_t, to_f
from pyvc.verify import A, Contract, arr1, arr2, forall, inr, nat, same_arr, seq_of_sort, term_eq

M = "instancespace.stages.pilot"
C = M + ":PilotStage."
INT, REAL = z3.IntSort(), z3.RealSort()


def tab(I, shape, f):
    return lib_np.new(I, shape, f, "float")


def dot(I, x, y):
    return I.lib["numpy.dot"](I, [x, y], {}, None)


def transposed(I, x):
    a = A(I, x)
    return tab(I, (a.shape[1], a.shape[0]), lambda i, j: a(j, i))


def squared_error(I, p, q):
    d = tab(I, A(I, p).shape, lambda i, j: sym.f_mul(sym.f_sub(to_f(A(I, p)(i, j)), to_f(A(I, q)(i, j))), sym.f_sub(to_f(A(I, p)(i, j)), to_f(A(I, q)(i, j)))))
    return I.lib["numpy.sum"](I, [d], {}, None)


def r_squared(I, xb, xh, m):
    r = A(I, I.lib["numpy.corrcoef"](I, [xb, xh], {"rowvar": False}, None))
    return lambda j: sym.f_mul(to_f(r(j, j + m)), to_f(r(j, j + m)))


def setting(I):
    inst, n, m = nat(I, "inst", 2), nat(I, "nfeat", 1), nat(I, "ncols", 1)
    I.e.assume(m >= n)
    return inst, n, m


class Analytic(Contract):
    """Coordinates, error and fit are those of the projection and the reconstruction it reports."""
    qual = C + "analytic_solve"
    name = "analytic_solve"

    def setup(self, I):
        inst, n, m = setting(I)
        I.e.assume(m >= 2)
        I.linalg = []
        xb = arr2(I, "x_bar", inst, m, finite=True)
        a = A(I, xb)
        x = tab(I, (inst, n), lambda i, j: a(i, j))
        return dict(x=x, x_bar=xb, n=SInt(n), m=SInt(m), _do_output=True), dict(inst=inst, n=n, m=m, x=A(I, x), xb=a, xr=x, xbr=xb)

    def ensures(self, I, c, res):
        if not isinstance(res, tuple) or len(res) != 6:
            raise Unsupported("six results are not returned")
        a, z, cc, b, err, r2 = res
        inst, n, m, xr, xbr = (c[k] for k in ("inst", "n", "m", "xr", "xbr"))
        At, Z, Cm, Bm, R2 = (A(I, v) for v in (a, z, cc, b, r2))
        eig = [x for x in I.linalg if x[0] == "eig"]
        if len(eig) != 1:
            raise Unsupported("the solution is not made from one eigenproblem")
        i, j, k = I.e.generic("i"), I.e.generic("j"), I.e.generic("k")
        V = tab(I, (m, z3.IntVal(2)), lambda q, k: I.ite(q < n, Bm(q, k), Cm(k, q - n)))        # the two parts together
        out = [("shapes", And(At.shape[0] == 2, At.shape[1] == n, Z.shape[0] == inst, Z.shape[1] == 2, Bm.shape[0] == n, Bm.shape[1] == 2,
                              Cm.shape[0] == 2, Cm.shape[1] == m - n, R2.shape[0] == m))]
        zz = A(I, dot(I, xr, transposed(I, a)))
        out.append(("the coordinates are the features times the projection", forall([i, k], Implies(
            And(inr(i, inst), inr(k, 2)), f_same(to_f(Z(i, k)), to_f(zz(i, k)))))))
        # both parts come from the same two eigenvectors
        vec = A(I, eig[0][2])
        col = z3.Function("col!eig", INT, INT)
        src = A(I, eig[0][1])
        cov = A(I, dot(I, transposed(I, xbr), xbr))
        p, q = I.e.generic("p"), I.e.generic("q")
        out.append(("the eigenproblem is that of all columns", forall([p, q], Implies(And(inr(p, m), inr(q, m)), f_same(to_f(src(p, q)), to_f(cov(p, q)))))))
        e1, e2 = z3.Ints("e1 e2")
        Vv = A(I, V)
        both = z3.Exists([e1, e2], And(inr(e1, m), inr(e2, m), e1 != e2, forall([p], Implies(inr(p, m), And(
            to_f(Vv(p, z3.IntVal(0))).val == -to_f(vec(p, e1)).val, to_f(Vv(p, z3.IntVal(1))).val == -to_f(vec(p, e2)).val)))))
        xh = A(I, dot(I, z, transposed(I, V)))
        xhat = tab(I, (inst, m), lambda r, s: xh(r, s))
        out.append(("the error is that of the reported parts", f_same(to_f(err), to_f(squared_error(I, xbr, xhat)))))
        rs = r_squared(I, xbr, xhat, m)
        out.append(("the fit is that of the reported parts", forall([j], Implies(inr(j, m), f_same(to_f(R2(j)), I.half(rs(j)))))))
        out.append(("the reconstruction is made from two of the eigenvectors", both))
        return out + same_arr(I, A(I, c["xr"]), c["x"], "the features given are kept") + same_arr(I, A(I, c["xbr"]), c["xb"], "the columns given are kept")


XOPT = z3.Function("x_opt", INT, INT, REAL)
FOPT = z3.Function("f_opt", INT, REAL)


class Numerical(Contract):
    """Every try's result at its own position; the try chosen is one with the best fit of the distances."""
    qual = C + "numerical_solve"
    name = "numerical_solve"

    def configure(self, I):
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)
        I.lib["scipy.optimize.fmin_bfgs"] = self.bfgs

    def bfgs(self, I, a, kw, nd):
        c, k = I.nc, getattr(I, "trial", None)
        if k is None or set(kw) - {"args", "full_output", "disp", "x0", "f"} or kw.get("full_output") is not True:
            raise Unsupported("minimisation outside of the loop over the tries")
        I.e.trusted("scipy.optimize.fmin_bfgs: some point and the value of the function at it")
        f, x0 = (a + [None] * 2)[0] or kw.get("f"), (a + [None] * 2)[1] or kw.get("x0")
        if getattr(f, "qual", None) != C + "error_function":
            raise Unsupported("another function is minimised")
        x = A(I, x0)
        j = I.e.generic("j")
        size = 2 * c["m"] + 2 * c["n"]
        I.e.oblige("the starting point is the try's own", And(x.shape[0] == size, forall([j], Implies(inr(j, size), f_same(
            to_f(x(j)), to_f(c["x0"](j, k)))))), nd, kind="pre")
        args = kw.get("args")
        if not isinstance(args, tuple) or len(args) != 3:
            raise Unsupported("arguments of the minimised function")
        for lab, g in same(I, args[0], c["refs"]["x_bar"], "the function is that of these columns"):
            I.e.oblige(lab, g, nd, kind="pre")
        I.e.oblige("the function is that of these sizes", And(int_t(args[1]) == c["n"], int_t(args[2]) == c["m"]), nd, kind="pre")
        return (tab(I, (size,), lambda j: SF(XOPT(k, j))), SF(FOPT(k)), *[Opaque("minimisation")] * 5)

    def setup(self, I):
        inst, n, m = setting(I)
        t = nat(I, "tries", 1)
        size = 2 * m + 2 * n
        x, xb = arr2(I, "x", inst, n, finite=True), arr2(I, "x_bar", inst, m, finite=True)
        x0, alpha = arr2(I, "x0", size, t, finite=True), arr2(I, "alpha", size, t, finite=True)
        eo, pf = arr1(I, "eoptim", t, finite=True), arr1(I, "perf", t, finite=True)
        hd = arr1(I, "hd", A(I, I.lib["scipy.spatial.distance.pdist"](I, [x], {}, None)).shape[0], finite=True)
        o = record(I, "instancespace.data.options", "PilotOptions", dict(x0="mat", alpha="mat", analytic="bool", n_tries=SInt(t)), "opt_")
        v = dict(x=x, hd=hd, x0=x0, x_bar=xb, n=SInt(n), m=SInt(m), alpha=alpha, eoptim=eo, perf=pf, opts=o, _do_output=True)
        I.trial = None
        I.nc = c = dict(inst=inst, n=n, m=m, t=t, size=size, x0=A(I, x0), refs=v, init={k: A(I, v[k]) for k in ("alpha", "eoptim", "perf", "x", "x_bar", "hd", "x0")})
        return dict(v), c

    def score(self, I):
        """The correlation of the distances in the projection of try k."""
        from pyvc.lib_sp import pearson
        c = I.nc
        x, hd = c["init"]["x"], c["init"]["hd"]

        def f(k):
            at = tab(I, (c["n"], z3.IntVal(2)), lambda j, r: SF(XOPT(k, r * c["n"] + j)))
            z = dot(I, c["refs"]["x"], at)
            d = A(I, I.lib["scipy.spatial.distance.pdist"](I, [z], {}, None))
            return pearson(I, hd, d, d.shape[0])[0]
        return f

    def own(self, I):
        return [I.nc["refs"][k] for k in ("alpha", "eoptim", "perf")]

    def havoc(self, I, frame, k, entry):
        I.trial = k
        c = I.nc
        al, eo, pf = self.own(I)
        I.e.put(al, I.content(arr2(I, I.e.fresh_name("alpha"), c["size"], c["t"])))
        I.e.put(eo, I.content(arr1(I, I.e.fresh_name("eoptim"), c["t"])))
        I.e.put(pf, I.content(arr1(I, I.e.fresh_name("perf"), c["t"])))
        frame.vars["idx"] = SInt(I.e.const("idx", INT))
        for nm, ref in (("al", al), ("ept", eo), ("prf", pf)):
            frame.vars[nm] = ref if nm != "al" else I.lib["ndarray.astype"](I, [al, sym.LibV("numpy.float16")], {}, None)

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars} | {"idx", "al", "ept", "prf", "i", "result", "aux", "a", "z", "xopts", "fopts", "_",
                                                          "initial_guess"}, {r.loc for r in self.own(I)}

    def inv(self, I, frame, k, entry):
        c = I.nc
        al, eo, pf = (A(I, r) for r in self.own(I))
        i, j = I.e.generic("i"), I.e.generic("j")
        out = [("shapes", And(al.shape[0] == c["size"], al.shape[1] == c["t"], eo.shape[0] == c["t"], pf.shape[0] == c["t"])),
               *self.facts(I, al, eo, pf, k),
               ("untried tries are as given", forall([j], Implies(And(k <= j, j < c["t"]), f_same(to_f(pf(j)), to_f(c["init"]["perf"](j))))))]
        idx = frame.vars.get("idx")
        if idx is not None:
            out += [("the best so far", Implies(k > 0, self.best(I, int_t(idx), pf)))]
        for nm, ref in (("ept", self.own(I)[1]), ("prf", self.own(I)[2])):
            v = frame.vars.get(nm)
            if v is not None:
                out.append((f"{nm} is the table", T(v == ref)))
        v = frame.vars.get("al")
        if v is not None:
            w = A(I, v)
            out.append(("al is the rounded table", Implies(k > 0, And(w.shape[0] == c["size"], w.shape[1] == c["t"], forall([i, j], Implies(
                And(inr(i, c["size"]), inr(j, c["t"])), f_same(to_f(w(i, j)), I.half(al(i, j)))))))))
        return out

    def facts(self, I, al, eo, pf, k):
        c = I.nc
        i, j = I.e.generic("i"), I.e.generic("j")
        s = self.score(I)
        rng = And(inr(j, k), j < c["t"])
        return [("the result of every try", forall([i, j], Implies(And(inr(i, c["size"]), rng), f_same(to_f(al(i, j)), SF(XOPT(j, i)))))),
                ("the error of every try", forall([j], Implies(rng, f_same(to_f(eo(j)), SF(FOPT(j)))))),
                ("the fit of every try", forall([j], Implies(rng, f_same(to_f(pf(j)), to_f(s(j))))))]

    def best(self, I, idx, pf):
        j = I.e.generic("j")
        t = I.nc["t"]
        some_nan = z3.Exists([j], And(inr(j, t), sym.isnan(to_f(pf(j)))))
        return And(inr(idx, t), Or(some_nan, forall([j], Implies(inr(j, t), f_le(to_f(pf(j)), to_f(pf(idx)))))))

    def ensures(self, I, c, res):
        if not isinstance(res, tuple) or len(res) != 4:
            raise Unsupported("four results are not returned")
        idx, al, eo, pf = res[0], A(I, res[1]), A(I, res[2]), A(I, res[3])
        i, j = I.e.generic("i"), I.e.generic("j")
        s = self.score(I)
        ri, rj = inr(i, c["size"]), inr(j, c["t"])
        out = [("shapes", And(al.shape[0] == c["size"], al.shape[1] == c["t"], eo.shape[0] == c["t"], pf.shape[0] == c["t"])),
               ("every try's solution, rounded", forall([i, j], Implies(And(ri, rj), f_same(to_f(al(i, j)), I.half(SF(XOPT(j, i))))))),
               ("every try's error", forall([j], Implies(rj, f_same(to_f(eo(j)), SF(FOPT(j)))))),
               ("every try's fit of the distances", forall([j], Implies(rj, f_same(to_f(pf(j)), to_f(s(j)))))),
               ("the chosen try fits best", self.best(I, int_t(idx), pf))]
        for k in ("x", "x_bar", "hd", "x0"):
            out += same_arr(I, A(I, c["refs"][k]), c["init"][k], f"{k} is kept")
        return out


class ErrorFunction(Contract):
    """The mean squared difference of the columns and their reconstruction."""
    qual = C + "error_function"
    name = "error_function"

    def setup(self, I):
        inst, n, m = setting(I)
        al, xb = arr1(I, "alpha", 2 * m + 2 * n, finite=True), arr2(I, "x_bar", inst, m, missing=True)
        return dict(alpha=al, x_bar=xb, n=SInt(n), m=SInt(m)), dict(inst=inst, n=n, m=m, al=A(I, al), xb=A(I, xb), ar=al, xr=xb)

    def ensures(self, I, c, res):
        al, xb, n, m, inst = (c[k] for k in ("al", "xb", "n", "m", "inst"))
        a = tab(I, (z3.IntVal(2), n), lambda r, j: al(r * n + j))
        b = tab(I, (m, z3.IntVal(2)), lambda i, r: al(2 * n + i * 2 + r))
        xt = tab(I, (n, inst), lambda j, i: xb(i, j))
        h = A(I, dot(I, dot(I, b, a), xt))
        d = tab(I, (inst, m), lambda i, j: sym.f_mul(sym.f_sub(to_f(xb(i, j)), to_f(h(j, i))), sym.f_sub(to_f(xb(i, j)), to_f(h(j, i)))))
        rows = I.lib["numpy.nanmean"](I, [d], {"axis": 1}, None)
        want = I.lib["numpy.nanmean"](I, [rows], {"axis": 0}, None)
        return [("the mean squared difference", f_same(to_f(res), to_f(want))),
                *same_arr(I, A(I, c["ar"]), al, "the parameters given are kept"), *same_arr(I, A(I, c["xr"]), xb, "the columns given are kept")]


class Pilot(Wiring):
    """The reported parts are those of one solution, and the summary names the projection's columns."""
    qual = C + "pilot"
    name = "pilot"
    stubs = (Stub(C + "analytic_solve", lambda I, v: (arr2(I, "an_a", z3.IntVal(2), I.qc["n"], finite=True), value(I, "an_z"), value(I, "an_c"), value(I, "an_b"),
                                                      value(I, "an_err", "float"), value(I, "an_r2", "vec"))),
             Stub(C + "numerical_solve", lambda I, v: Pilot.solved(I, v)), Stub(C + "_pilot_print", lambda I, v: None))

    @staticmethod
    def solved(I, v):
        c = I.qc
        t = int_t(c["o"]["n_tries"])
        i = nat(I, "best_try")
        I.e.assume(i < t)
        return SInt(i), arr2(I, "al", c["size"], t, finite=True), arr1(I, "eo", t), arr1(I, "pf", t)

    def setup(self, I):
        I.calls.clear()
        inst, n, p = nat(I, "inst", 2), nat(I, "nfeat", 1), nat(I, "nalg", 0)
        m = n + p
        x, y = arr2(I, "x", inst, n, finite=True), arr2(I, "y", inst, p, finite=True)
        labels, lab = seq_of_sort(I, "labels", n, usort("Str"))
        o = record(I, "instancespace.data.options", "PilotOptions", dict(
            x0=value(I, "opt_x0", "mat?"), alpha=self.finite(I, "opt_alpha"), analytic="bool", n_tries=SInt(nat(I, "tries", 1))), "opt_")
        if o.fields["x0"] is not None:
            s = A(I, o.fields["x0"]).shape
            I.e.assume(And(s[0] == 2 * m + 2 * n, s[1] == int_t(o.fields["n_tries"])))
        v = dict(x=x, y=y, feat_labels=labels, options=o, _do_output=True)
        I.qc = c = dict(inst=inst, n=n, m=m, p=p, lab=lab, size=2 * m + 2 * n, o=o.fields, v=v, x=A(I, x), y=A(I, y),
                        al0=A(I, o.fields["alpha"]) if o.fields["alpha"] is not None else None)
        return dict(v), c

    @staticmethod
    def finite(I, nm):
        if not I.e.branch(z3.Bool(nm + "_given")):
            return None
        return arr2(I, nm, nat(I, nm + "_rows"), nat(I, nm + "_cols"), finite=True)

    def ensures(self, I, c, res):
        n, m, inst, size, v = (c[k] for k in ("n", "m", "inst", "size", "v"))
        get = lambda k: I.getattr(res, k)
        an, nu = I.calls.get("analytic_solve", []), I.calls.get("numerical_solve", [])
        i, j, k = I.e.generic("i"), I.e.generic("j"), I.e.generic("k")
        xa, ya = c["x"], c["y"]
        xb = tab(I, (inst, m), lambda i, j: I.ite(j < n, to_f(xa(i, j)), to_f(ya(i, j - n))))
        out = [("analytic exactly when asked for", bool_t(c["o"]["analytic"]) == T(bool(an)))]
        a = A(I, get("a"))
        if an:
            (call,), _ = self.called(I, "analytic_solve")
            out += self.passed(I, call, dict(x=v["x"], x_bar=xb, n=SInt(n), m=SInt(m)), "the analytic solution")
            out += self.fields(I, res, dict(zip(("a", "z", "c", "b", "error", "r2"), call[1])), "reported")
            out += [(f"no {q} without tries", T(get(q) is None)) for q in ("X0", "alpha", "eoptim", "perf")]
        else:
            if nu:
                (call,), _ = self.called(I, "numerical_solve")
                idx, al, eo, pf = call[1]
                out += self.passed(I, call, dict(x=v["x"], x_bar=xb, n=SInt(n), m=SInt(m), opts=v["options"]), "the numerical solution")
                hd = I.lib["scipy.spatial.distance.pdist"](I, [v["x"]], {}, None)
                out += same(I, call[0]["hd"], hd, "the distances are those of the features")
                if c["o"]["x0"] is not None:
                    out += same(I, call[0]["x0"], c["o"]["x0"], "the starting points are those given")
                out += self.fields(I, res, dict(eoptim=eo, perf=pf, X0=call[0]["x0"]), "reported")
                best = lambda q: to_f(A(I, al)(q, int_t(idx)))
            else:
                al0 = c["al0"]
                if al0 is None:
                    raise Unsupported("no solution is made")
                best = lambda q: to_f(al0(q, z3.IntVal(0)))
                out.append(("a supplied solution is used when it fits", And(al0.shape[0] == size, al0.shape[1] == 1)))
                out += same(I, get("alpha"), c["o"]["alpha"], "the supplied solution is reported as it is")
            out.append(("the projection is the first part of the solution", And(a.shape[0] == 2, a.shape[1] == n, forall([k, j], Implies(
                And(inr(k, 2), inr(j, n)), f_same(to_f(a(k, j)), best(k * n + j)))))))
            b, cc, z, r2 = A(I, get("b")), A(I, get("c")), A(I, get("z")), A(I, get("r2"))
            out.append(("shapes", And(b.shape[0] == n, b.shape[1] == 2, cc.shape[0] == 2, cc.shape[1] == m - n, z.shape[0] == inst,
                                      z.shape[1] == 2, r2.shape[0] == m)))
            out.append(("B is the part of the solution for the features", forall([i, k], Implies(
                And(inr(i, n), inr(k, 2)), f_same(to_f(b(i, k)), best(2 * n + 2 * i + k))))))
            out.append(("C is the part of the solution for the performances", forall([i, k], Implies(
                And(inr(i, m - n), inr(k, 2)), f_same(to_f(cc(k, i)), best(2 * n + 2 * (i + n) + k))))))
            zz = A(I, dot(I, v["x"], transposed(I, get("a"))))
            out.append(("the coordinates are the features times the projection", forall([i, k], Implies(
                And(inr(i, inst), inr(k, 2)), f_same(to_f(z(i, k)), to_f(zz(i, k)))))))
            w = tab(I, (z3.IntVal(2), m), lambda k, q: best(2 * n + 2 * q + k))
            xh = dot(I, get("z"), w)
            out.append(("the error is that of the reported parts", f_same(to_f(get("error")), to_f(squared_error(I, xb, xh)))))
            rs = r_squared(I, xb, xh, m)
            out.append(("the fit is that of the reported parts", forall([j], Implies(inr(j, m), f_same(to_f(r2(j)), rs(j))))))
            if c["al0"] is not None and nu:
                out.append(("a supplied solution is not used only when it does not fit", Not(And(c["al0"].shape[0] == size, c["al0"].shape[1] == 1))))
        out += self.summary(I, c, get("pilot_summary"), a)
        for q in ("x", "y"):
            out += same_arr(I, A(I, v[q]), c[q], f"{q} is kept")
        return out

    def summary(self, I, c, s, a):
        if not lib_pd.is_a(I, s, "DataFrame") or "joined" not in I.content(s).fields:
            raise Unsupported("the summary is not two tables side by side")
        left, right = (I.content(t).fields for t in I.content(s).fields["joined"])
        x, cells = A(I, left["cells"]), A(I, right["cells"])
        names = A(I, I.content(right["columns"]).fields["values"])
        j, k = I.e.generic("j"), I.e.generic("k")
        return [("summary: the rows are named", And(x.shape[0] == 2, term_eq(I, x(z3.IntVal(0), z3.IntVal(0)), "Z_{1}"), term_eq(I, x(z3.IntVal(1), z3.IntVal(0)), "Z_{2}"))),
                ("summary: each feature names a column", And(names.shape[0] == c["n"], forall([j], Implies(inr(j, c["n"]), term_eq(I, names(j), sym.SU(c["lab"](j))))))),
                ("summary: each column is the feature's own in the projection", And(cells.shape[0] == 2, cells.shape[1] == c["n"], forall([k, j], Implies(
                    And(inr(k, 2), inr(j, c["n"])), f_same(to_f(cells(k, j)), to_f(a(k, j)))))))]


class Run(Wiring):
    qual = C + "_run"
    name = "_run"
    stubs = (Stub(C + "pilot", lambda I, v: sym.SU(z3.Const("out", OBJ))),)

    def setup(self, I):
        I.calls.clear()
        r = record(I, M, "PilotInput", dict(x="mat", y="mat", feat_labels="strs", pilot_options="obj"))
        return dict(inputs=r), dict(i=r.fields)

    def ensures(self, I, c, res):
        i = c["i"]
        (call,), out = self.called(I, "pilot")
        out += self.passed(I, call, dict(x=i["x"], y=i["y"], feat_labels=i["feat_labels"], options=i["pilot_options"]), "the projection")
        return out + same(I, res, call[1], "its result is returned")


ALL = [Analytic(), Numerical(), ErrorFunction(), Pilot(), Run()]
