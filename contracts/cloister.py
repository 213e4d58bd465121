"""Contracts of the boundary estimation (C24)."""
import z3

from contracts.common import OBJ, Stub, Wiring, record, same, value
from pyvc import sym
from pyvc.loops import LoopInv
from pyvc.sym import And, Implies, LibV, Not, ObjC, Or, PyRaise, RecV, Ref, SF, SInt, T, Unsupported, bool_t, f_lt, to_f
from pyvc.verify import A, Contract, arr1, arr2, define, forall, inr, nat, same_arr, term_eq

M = "instancespace.stages.cloister"
C = M + ":CloisterStage."
INT = z3.IntSort()
BIT = z3.Function("bit", INT, INT, INT)


def bits(I):
    i, c = z3.Ints("i!bit c!bit")
    I.e.axiom(z3.ForAll([i, c], And(0 <= BIT(i, c), BIT(i, c) <= 1), patterns=[BIT(i, c)]), {"bit"})
    return BIT


def options(I):
    return record(I, "instancespace.data.options", "CloisterOptions", dict(p_val="float", c_thres="float"), "opt_")


class Binary(Contract):
    """Row i holds the bits of i: over all i < 2**n every combination appears exactly once."""
    qual = C + "_decimal_to_binary_matrix"
    name = "_decimal_to_binary_matrix"

    def setup(self, I):
        n = nat(I, "nfeats", 1)
        return dict(nfeats=SInt(n)), dict(n=n)

    def ensures(self, I, c, res):
        R, bit = A(I, res), bits(I)
        i, k = I.e.generic("i"), I.e.generic("k")
        n = c["n"]
        p = sym.int_t(I.binop(__import__("ast").Pow(), 2, SInt(n)))
        return [("one row per combination", R.shape[0] == p), ("one column per feature", R.shape[1] == n),
                ("row i holds the bits of i", forall([i, k], Implies(And(inr(i, p), inr(k, n)), R.i(i, k) == bit(i, k))))]

    def apply(self, I, f, v, node):
        from pyvc import lib_np
        n = sym.int_t(v["nfeats"])
        p = I.binop(__import__("ast").Pow(), 2, SInt(n))
        bit = bits(I)
        return lib_np.new(I, (sym.int_t(p), n), lambda i, k: SInt(bit(i, k)), "int")


class Correlation(Contract):
    qual = C + "_compute_correlation"
    name = "_compute_correlation"

    def setup(self, I):
        n, d = nat(I, "n", 2), nat(I, "d", 1)
        x = arr2(I, "x", n, d, finite=True)
        o = options(I)
        return dict(x=x, options=o), dict(x=A(I, x), ref=x, o=o, n=n, d=d)

    def ensures(self, I, c, res):
        from pyvc.lib_sp import pearson
        R, x, d, n = A(I, res), c["x"], c["d"], c["n"]
        i, j = I.e.generic("i"), I.e.generic("j")
        r, p = pearson(I, lambda k: x(k, i), lambda k: x(k, j), n)
        zero = SF(z3.RealVal(0))
        rng = And(inr(i, d), inr(j, d))
        none = Or(i == j, f_lt(c["o"].fields["p_val"], p))
        return [("one correlation per pair", And(R.shape[0] == d, R.shape[1] == d)),
                ("insignificant correlations count as none", forall([i, j], Implies(And(rng, none), sym.f_same(to_f(R(i, j)), zero)))),
                ("significant correlations are those of the features", forall([i, j], Implies(And(rng, Not(none)), sym.f_same(to_f(R(i, j)), r)))),
                *same_arr(I, A(I, c["ref"]), x, "the features given are kept")]


class Boundaries(Contract):
    qual = C + "_generate_boundaries"
    name = "_generate_boundaries"
    uses = ("_decimal_to_binary_matrix",)

    def setup(self, I):
        n, d = nat(I, "n", 1), nat(I, "d", 1)
        x, rho = arr2(I, "x", n, d, finite=True), arr2(I, "rho", d, d, finite=True)
        o = options(I)
        c = dict(x=A(I, x), xr=x, rho=A(I, rho), rr=rho, o=o, n=n, d=d)
        from pyvc import lib_np
        c["N"] = sym.int_t(I.binop(__import__("ast").Pow(), 2, SInt(d)))
        lo, hi = (A(I, I.lib["numpy." + f](I, [x], {"axis": 0}, None)) for f in ("min", "max"))
        bit = bits(I)
        c["edge"] = lambda i, k: SF(z3.If(bit(i, k) == 1, to_f(hi(k)).val, to_f(lo(k)).val), 0)
        sign = lambda v: z3.If(v > 0, 1, z3.If(v < 0, -1, 0))
        th = c["o"].fields["c_thres"].val

        def contra(i, j, k):
            r = to_f(c["rho"](j, k)).val
            p, q = sign(c["edge"](i, j).val), sign(c["edge"](i, k).val)
            return Or(And(r > th, p != q), And(r < -th, p == q))
        I.contra = define(I, "contradicts", [INT] * 3, contra)
        I.bc = c
        return dict(x=x, rho=rho, options=o), c

    def configure(self, I):
        for q, f in enumerate((self.rows, self.firsts, self.seconds)):
            I.loop_invs[(self.qual, q)] = LoopInv(f, lambda *a, q=q: self.havoc(*a, q), self.modifies)

    def own(self, I, frame):
        r = [frame.vars.get(k) for k in ("x_edge", "remove")]
        if not all(isinstance(v, Ref) and I.is_arr(v) for v in r):
            raise Unsupported("the locals x_edge and remove are not recognised")
        return r

    def havoc(self, I, frame, k, entry, q):
        e, r = self.own(I, frame)
        c = I.bc
        if q == 0:
            I.row = k
            I.e.put(e, I.content(arr2(I, I.e.fresh_name("edge"), *A(I, e).shape)))
        if q == 1:
            I.first = k
        I.e.put(r, I.content(arr1(I, I.e.fresh_name("rem"), *A(I, r).shape, "bool")))

    def modifies(self, I, entry, vars0):
        fr = type("F", (), {"vars": entry.vars})
        return {n for n in vars0 if n not in entry.vars} | {"ind", "i", "j", "k"}, {v.loc for v in self.own(I, fr)}

    def some(self, I, i):
        j, k = z3.Ints("j!sm k!sm")
        return z3.Exists([j, k], And(0 <= j, j < k, k < I.bc["d"], I.contra(i, j, k)))

    def shapes(self, I, frame):
        e, r = (A(I, v) for v in self.own(I, frame))
        c = I.bc
        return e, r, [("shapes", And(e.shape[0] == c["N"], e.shape[1] == c["d"], r.shape[0] == c["N"]))]

    def done(self, I, e, r, upto):
        c = I.bc
        i, k = I.e.generic("i"), I.e.generic("k")
        return [("corners so far", forall([i, k], Implies(And(inr(i, upto), inr(k, c["d"])), sym.f_same(to_f(e(i, k)), c["edge"](i, k))))),
                ("removed so far: those with a contradiction", forall([i], Implies(inr(i, upto), r.b(i) == self.some(I, i))))]

    def later(self, I, r, start):
        i = I.e.generic("i")
        return [("later corners are not removed yet", forall([i], Implies(And(start <= i, i < I.bc["N"]), Not(r.b(i)))))]

    def rows(self, I, frame, k, entry):
        e, r, out = self.shapes(I, frame)
        return out + self.done(I, e, r, k) + self.later(I, r, k)

    def firsts(self, I, frame, m, entry):
        e, r, out = self.shapes(I, frame)
        j, k = I.e.generic("j"), I.e.generic("k")
        return out + self.done(I, e, r, I.row)[1:] + self.later(I, r, I.row) + [
            ("no contradiction with an earlier feature", forall([j, k], Implies(And(0 <= j, j < m, j < k, k < I.bc["d"]), Not(I.contra(I.row, j, k)))))]

    def seconds(self, I, frame, m, entry):
        e, r, out = self.shapes(I, frame)
        k = I.e.generic("k")
        return out + self.done(I, e, r, I.row)[1:] + self.later(I, r, I.row) + [
            ("no contradiction of this feature yet", forall([k], Implies(And(I.first < k, k < I.first + 1 + m), Not(I.contra(I.row, I.first, k)))))]

    def ensures(self, I, c, res):
        e, r = A(I, res[0]), A(I, res[1])
        i, k = I.e.generic("i"), I.e.generic("k")
        rng = And(inr(i, c["N"]), inr(k, c["d"]))
        return [("one row per combination of minimum and maximum", And(e.shape[0] == c["N"], e.shape[1] == c["d"], r.shape[0] == c["N"])),
                ("a corner is the minimum or maximum of every feature, by the bits of its number", forall([i, k], Implies(
                    rng, sym.f_same(to_f(e(i, k)), c["edge"](i, k))))),
                ("removed exactly when some pair contradicts its correlation", forall([i], Implies(inr(i, c["N"]), r.b(i) == self.some(I, i)))),
                *same_arr(I, A(I, c["xr"]), c["x"], "the features given are kept"),
                *same_arr(I, A(I, c["rr"]), c["rho"], "the correlations given are kept")]


class Hull(Contract):
    qual = C + "_compute_convex_hull"
    name = "_compute_convex_hull"

    def configure(self, I):
        H = LibV("scipy.spatial.ConvexHull")

        def hull(I, a, kw, nd):
            I.e.trusted("scipy.spatial.ConvexHull: its vertices are row numbers of the points; raises QhullError or ValueError")
            for ex in ("scipy.spatial.QhullError", "builtins.ValueError"):
                if I.e.branch(z3.Bool("raises_" + ex.split(".")[-1])):
                    I.hull_failed = True
                    raise PyRaise(LibV(ex), None, nd)
            p = A(I, a[0])
            I.hull_of = a[0]
            m = nat(I, "n_vertices", 1)
            f = z3.Function("vertex", INT, INT)
            k = z3.Int("k!v")
            I.e.assume(z3.ForAll([k], Implies(inr(k, m), inr(f(k), p.shape[0])), patterns=[f(k)]))
            return I.e.alloc(ObjC(H, {"vertices": I.lib_np.new(I, (m,), lambda k: SInt(f(k)), "int")}))
        for nm in ("scipy.spatial.ConvexHull", "scipy.spatial._qhull.ConvexHull"):
            I.lib[nm] = hull

    def setup(self, I):
        n, d = nat(I, "n", 1), nat(I, "d", 1)
        p = arr2(I, "points", n, d, finite=True)
        I.hull_failed = False
        I.hull_of = None
        return dict(points=p), dict(p=A(I, p), ref=p, n=n, d=d)

    def ensures(self, I, c, res):
        R = A(I, res)
        if I.hull_failed:
            size = R.shape[0] if len(R.shape) == 1 else z3.Or(*[s == 0 for s in R.shape])
            return [("nothing when there is no hull", size == 0 if len(R.shape) == 1 else size)]
        if I.hull_of is None:
            raise Unsupported("the hull is not computed by ConvexHull")
        k, j = I.e.generic("k"), I.e.generic("j")
        m, f = z3.Int("n_vertices"), z3.Function("vertex", INT, INT)
        return same_arr(I, A(I, I.hull_of), c["p"], "the hull is that of the points") + [
            ("one row per vertex", And(R.shape[0] == m, R.shape[1] == c["d"])),
            ("the rows are the vertices of the hull, in its order", forall([k, j], Implies(And(inr(k, m), inr(j, c["d"])), term_eq(
                I, R(k, j), c["p"](f(k), j))))), *same_arr(I, A(I, c["ref"]), c["p"], "the points given are kept")]


def hull_result(I, v):
    k = len(I.calls.get("_compute_convex_hull", []))
    if I.e.branch(z3.Bool(f"hull_{k}")):
        return arr2(I, f"hull_{k}", nat(I, f"hull_{k}_n", 1), nat(I, f"hull_{k}_d", 1))
    return I.lib_np.new(I, (0,), lambda i: SF(z3.RealVal(0)), "float")


class Cloister(Wiring):
    """The hulls of the projected corners: all of them, and those which remain."""
    qual = C + "_run"
    name = "_run"
    stubs = (Stub(C + "_compute_correlation", lambda I, v: value(I, "rho", "mat")),
             Stub(C + "_generate_boundaries", lambda I, v: (Cloister.table(I, "x_edge", z3.Int("d")), arr1(I, "remove", z3.Int("corners"), "bool"))),
             Stub(C + "_compute_convex_hull", hull_result))

    @staticmethod
    def table(I, name, d):
        return arr2(I, name, nat(I, "corners", 1), d, finite=True)

    def setup(self, I):
        I.calls.clear()
        d = nat(I, "d", 1)
        r = record(I, M, "CloisterInput", dict(x=arr2(I, "x", nat(I, "n", 1), d, finite=True), a=arr2(I, "a", z3.IntVal(2), d, finite=True),
                                               cloister_options=options(I)))
        return dict(inputs=r), dict(i=r.fields)

    def ensures(self, I, c, res):
        i = c["i"]
        (cor,), out = self.called(I, "_compute_correlation")
        (gen,), _ = self.called(I, "_generate_boundaries")
        hulls, _ = self.called(I, "_compute_convex_hull", 2)
        out += self.passed(I, cor, dict(x=i["x"], options=i["cloister_options"]), "the correlations")
        out += self.passed(I, gen, dict(x=i["x"], rho=cor[1], options=i["cloister_options"]), "the corners")
        edge, remove = gen[1]
        at = I.getattr(i["a"], "T")
        dot = lambda t: I.lib["numpy.dot"](I, [t, at], {}, None)
        rest = I.lib_np.getitem(I, edge, (I.lib_np.map1(I, remove, lambda b: sym.mkbool(Not(bool_t(b))), dtype="bool"), sym.Slice(None, None, None)), None)
        full = [h for h in hulls if h[0]["points"] is hulls[0][0]["points"]][0]
        out += same(I, hulls[0][0]["points"], dot(edge), "one hull is that of all projected corners")
        out += same(I, hulls[1][0]["points"], dot(rest), "the other hull is that of the projected corners which remain")
        out += same(I, I.getattr(res, "z_edge"), full[1], "the full boundary")
        part = hulls[1][1]
        empty = len(A(I, part).shape) == 1
        return out + same(I, I.getattr(res, "z_ecorr"), full[1] if empty else part,
                          "the boundary of the remaining corners, or the full one when they have no hull")


ALL = [Binary(), Correlation(), Boundaries(), Hull(), Cloister()]
