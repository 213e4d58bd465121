"""Contracts of the footprints (C27, C28, C29)."""
import z3

from contracts.common import OBJ, Stub, Wiring, record, same, value
from pyvc import lib_geo, lib_np, lib_sp, sym
from pyvc.engine import usort
from pyvc.lib_geo import AREA, BUFFER, EMPTY, INSIDE, MULTI, NOTHING, OP, PART, POLY
from pyvc.loops import LoopInv
from pyvc.sym import And, Implies, LibV, ListC, Not, ObjC, Opaque, Or, PyRaise, RecV, Ref, SeqC, SF, SInt, SU, T, Unsupported, bool_t, f_same, int_t, mkbool, to_f
from pyvc.verify import A, Contract, arr1, arr2, forall, inr, nat, same_arr, seq_of_sort, term_eq

M = "instancespace.stages.trace"
C = M + ":TraceStage."
D = "instancespace.data.model"
FIELDS = ("area", "elements", "good_elements", "density", "purity")
R, INT = z3.RealSort(), z3.IntSort()


def points(I, n):
    return arr2(I, "z", n, z3.IntVal(2), finite=True)


def inside(I, p, z, n, mask=None):
    """How many instances lie inside a polygon (of those in the mask)."""
    return lib_np.count_of(I, n, lambda i: And(*([bool_t(mask(i))] if mask is not None else []), INSIDE(
        p, to_f(z(i, z3.IntVal(0))).val, to_f(z(i, z3.IntVal(1))).val)))


def ratio(a, b):
    """a / b, zero when there is nothing to divide by."""
    return z3.If(b == 0, z3.RealVal(0), a / b)


def measures(I, res, p, z, n, mask):
    """Goals: the measures are those of the polygon and of the instances in it."""
    g = lambda k: to_f(I.getattr(res, k))
    e, ge = inside(I, p, z, n), inside(I, p, z, n, mask)
    re, rg = z3.ToReal(e), z3.ToReal(ge)
    want = dict(area=AREA(p), elements=re, good_elements=rg, density=ratio(re, AREA(p)), purity=ratio(rg, re))
    return [(f"the {k} is that of the polygon and the instances inside", f_same(g(k), SF(v))) for k, v in want.items()]


def isnone(I, v):
    return T(True) if v is None else v.t == lib_geo.none(I) if isinstance(v, SU) else T(False)


def is_empty_footprint(I, res, label):
    return [(f"{label}: no polygon", isnone(I, I.getattr(res, "polygon"))),
            *[(f"{label}: {k} is zero", f_same(to_f(I.getattr(res, k)), to_f(0))) for k in FIELDS]]


class FromPolygon(Contract):
    qual = D + ":Footprint.from_polygon"
    name = "from_polygon"

    def setup(self, I):
        I.geometry()
        n = nat(I, "inst", 0)
        z, y = points(I, n), arr1(I, "good", n, "bool")
        p = SU(z3.Const("polygon", POLY)) if I.e.branch(z3.Bool("polygon_given")) else None
        if p is not None:
            I.e.assume(p.t != lib_geo.none(I))
        cls = I.repo.lookup(I.repo.module(D), "Footprint", I)
        return dict(cls=cls, polygon=p, z=z, y_bin=y, smoothen=value(I, "smoothen", "bool")), dict(
            p=p, z=A(I, z), y=A(I, y), n=n, s=z3.Bool("smoothen"), zr=z, yr=y)

    def ensures(self, I, c, res):
        if c["p"] is None:
            return is_empty_footprint(I, res, "nothing")
        p, s = c["p"].t, c["s"]
        cent = z3.RealVal("0.01")
        want = z3.If(s, BUFFER(BUFFER(p, cent), -cent), p)
        got = I.getattr(res, "polygon")
        if not isinstance(got, SU):
            raise Unsupported("another kind of polygon")
        return [("the polygon is the one given", Implies(Not(s), got.t == p)), ("the polygon is there", got.t != lib_geo.none(I)),
                *measures(I, res, got.t, c["z"], c["n"], c["y"]),
                *same_arr(I, A(I, c["zr"]), c["z"], "the points given are kept"), *same_arr(I, A(I, c["yr"]), c["y"], "the labels given are kept")]


class Throw(Contract):
    qual = C + "throw"
    name = "throw"

    def setup(self, I):
        return {}, {}

    def ensures(self, I, c, res):
        return is_empty_footprint(I, res, "an empty footprint")


def footprint(I, name, optional=False):
    """A footprint with any polygon and measures."""
    p = SU(z3.Const(name + "_polygon", POLY))
    if not optional:
        I.e.assume(p.t != lib_geo.none(I))
    return record(I, D, "Footprint", dict(polygon=p, area="float", elements="int", good_elements="int", density="float", purity="float"), name + "_")


class Summary(Contract):
    """Area, density and their shares of the space, and purity, in that order."""
    qual = C + "summary"
    name = "summary"

    def setup(self, I):
        f = footprint(I, "fp")
        a, d = value(I, "space_area", "float"), value(I, "space_density", "float")
        return dict(footprint=f, space_area=a, space_density=d), dict(f=f, a=a, d=d)

    def ensures(self, I, c, res):
        f = c["f"].fields
        items = I.seq_of(I.content(res))
        part = lambda v, w: SF(z3.If(w.val == 0, v.val, v.val / w.val))
        want = [f["area"], part(f["area"], c["a"]), f["density"], part(f["density"], c["d"]), f["purity"]]
        names = ("area", "normalised area", "density", "normalised density", "purity")
        return [("five measures", lib_np.dim_t(items.n) == 5),
                *[(f"{nm} at its place", f_same(to_f(items.get(z3.IntVal(i))), w)) for i, (nm, w) in enumerate(zip(names, want))]]


TIGHT = z3.Function("tightened", POLY, z3.ArraySort(INT, z3.BoolSort()), POLY)
NUMBERS = {k: z3.Function("measured_" + k, POLY, z3.ArraySort(INT, z3.BoolSort()), R if k in ("area", "density", "purity") else INT) for k in FIELDS}


POLY_AT = {k: z3.Function(f"polygon_{k}_of_round", INT, POLY) for k in "bt"}
GO = z3.Function("contradiction_to_resolve_in_round", INT, z3.BoolSort())


def number(k, p, s):
    return SF(NUMBERS[k](p, s)) if k in ("area", "density", "purity") else SInt(NUMBERS[k](p, s))


def as_set(y, n):
    i = z3.Int("i!set")
    return z3.Lambda([i], And(inr(i, n), bool_t(y(i))))


class Contra(Wiring):
    """In every round only the polygon which is less pure on the shared region loses it; at most three rounds."""
    qual = C + "contra"
    name = "contra"
    last = 3
    locals_ = ("contradiction", "num_tries", "base_polygon", "test_polygon")

    def configure(self, I):
        super().configure(I)
        for s in (Stub(C + "tight", lambda I, v: SU(TIGHT(v["polygon"].t, as_set(A(I, v["y_bin"]), I.tc["n"])))),
                  Stub(D + ":Footprint.from_polygon", lambda I, v: self.measured(I, v))):
            I.contracts[s.qual] = s
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def measured(self, I, v):
        """The callee's contract: measures are functions of the polygon and the instances (the space is the same throughout)."""
        if v.get("smoothen", False) is not False:
            raise Unsupported("smoothed")
        c = I.tc
        for lab, g in same_arr(I, A(I, v["z"]), c["z"], "measured over all instances"):
            I.e.oblige(lab, g, None, kind="pre")
        p, s = v["polygon"], as_set(A(I, v["y_bin"]), c["n"])
        cls = I.repo.lookup(I.repo.module(D), "Footprint", I)
        return RecV(cls, {"polygon": p, **{k: number(k, p.t, s) for k in FIELDS}})

    def setup(self, I):
        I.calls.clear()
        I.geometry()
        n = nat(I, "inst", 1)
        z, yb, yt = points(I, n), arr1(I, "y_base", n, "bool"), arr1(I, "y_test", n, "bool")
        fs = []
        for nm in ("base", "test"):
            f = footprint(I, nm)
            if not I.e.branch(z3.Bool(nm + "_given")):
                f = RecV(f.cls, dict(f.fields, polygon=None))
            fs.append(f)
        cls = I.repo.lookup(I.repo.module(M), "TraceStage", I)
        me = I.e.alloc(ObjC(cls, {"z": z}))
        I.tc = c = dict(n=n, z=A(I, z), base=fs[0], test=fs[1], yb=A(I, yb), yt=A(I, yt), zr=z, none=lib_geo.none(I))
        if all(f.fields["polygon"] is not None for f in fs):
            self.define(I, c)
        return dict(self=me, base=fs[0], test=fs[1], y_base=yb, y_test=yt), c

    # -------- the rounds
    def define(self, I, c):
        """The polygons at the start of round r, for every round there can be."""
        n, z = c["n"], c["z"]
        I.e.assume(And(POLY_AT["b"](z3.IntVal(1)) == c["base"].fields["polygon"].t, POLY_AT["t"](z3.IntVal(1)) == c["test"].fields["polygon"].t))
        for r in range(1, self.last + 1):
            b, t = self.at(r)
            s = OP["intersection"](b, t)
            nall, nb, nt = inside(I, s, z, n), inside(I, s, z, n, c["yb"]), inside(I, s, z, n, c["yt"])
            b2, t2 = self.at(r + 1)
            I.e.assume(And(b2 == z3.If(nt > nb, self.cut(c, b, s, c["yb"], r), b), t2 == z3.If(nb > nt, self.cut(c, t, s, c["yt"], r), t)))
            I.e.assume(GO(z3.IntVal(r)) == And(Not(EMPTY(s)), nb != nt))

    def cut(self, c, p, s, y, r):
        """What is left of a polygon: fitted again to its own instances unless the rounds are over."""
        rest = OP["difference"](p, s)
        if r == self.last:
            return rest
        fit = TIGHT(rest, as_set(y, c["n"]))
        return z3.If(And(fit != c["none"], Not(EMPTY(fit))), fit, NOTHING)

    @staticmethod
    def at(r):
        r = z3.IntVal(r) if isinstance(r, int) else r
        return POLY_AT["b"](r), POLY_AT["t"](r)

    def inv(self, I, frame, k, entry):
        if any(x not in frame.vars for x in self.locals_):
            raise Unsupported("the rounds are kept differently")
        v = frame.vars
        b, t = self.at(k + 1)
        j = z3.Int("j!rounds")
        return [("the rounds are counted", And(int_t(v["num_tries"]) == k + 1, k <= self.last)),
                ("the polygons of this round", And(v["base_polygon"].t == b, v["test_polygon"].t == t)),
                ("the shared region of this round", v["contradiction"].t == OP["intersection"](b, t)),
                ("no earlier round was the last", And(*[Implies(r <= k, And(
                    GO(z3.IntVal(r)), Not(EMPTY(self.at(r + 1)[0])), Not(EMPTY(self.at(r + 1)[1])))) for r in range(1, self.last + 1)]))]

    def modifies(self, I, entry, vars0):
        return set(self.locals_) | {n for n in vars0 if n not in entry.vars} | {
            "num_elements", "num_good_elements_base", "num_good_elements_test", "purity_base", "purity_test", "c_area"}, set()

    def havoc(self, I, frame, k, entry):
        for r in range(self.last + 1):
            if r == self.last:
                I.e.assume(k == r)
                break
            if I.e.branch(k == r):
                break
        b, t = self.at(r + 1)
        frame.vars.update(num_tries=r + 1, base_polygon=SU(b), test_polygon=SU(t), contradiction=SU(OP["intersection"](b, t)))

    def ensures(self, I, c, res):
        if not isinstance(res, tuple) or len(res) != 2:
            raise Unsupported("two footprints are not returned")
        b, t, n, z = c["base"], c["test"], c["n"], c["z"]
        pb, pt = b.fields["polygon"], t.fields["polygon"]
        if pb is None or pt is None:
            return [g for q, (w, r) in enumerate(((b, res[0]), (t, res[1]))) for g in same(I, r, w, f"without a polygon nothing changes: {q}")]
        rb, rt = (I.getattr(r, "polygon") for r in res)
        if not isinstance(rb, SU) or not isinstance(rt, SU):
            raise Unsupported("another kind of polygon")
        ended = self.at(self.last + 1)
        for r in range(self.last, 0, -1):
            now, then = self.at(r), self.at(r + 1)
            over = Or(EMPTY(then[0]), EMPTY(then[1]))
            ended = [z3.If(GO(z3.IntVal(r)), z3.If(over, x, y), w) for w, x, y in zip(now, then, ended)]
        shared = OP["intersection"](*self.at(1))
        nb, nt = inside(I, shared, z, n, c["yb"]), inside(I, shared, z, n, c["yt"])
        out = [("without overlap both stay", Implies(EMPTY(shared), And(rb.t == pb.t, rt.t == pt.t))),
               ("equally pure: both stay", Implies(nb == nt, And(rb.t == pb.t, rt.t == pt.t))),
               ("the base after the rounds: only the less pure polygon loses the region", rb.t == ended[0]),
               ("the test after the rounds: only the less pure polygon loses the region", rt.t == ended[1])]
        for r, y, lab in ((res[0], c["yb"], "base"), (res[1], c["yt"], "test")):
            s = as_set(y, n)
            p = I.getattr(r, "polygon").t
            out += [(f"{lab}: the {k} is recomputed from its own instances", f_same(to_f(I.getattr(r, k)), to_f(number(k, p, s)))) for k in FIELDS]
        return out + same_arr(I, A(I, c["zr"]), z, "the instances are kept")


BUILT = z3.Function("footprint_polygon", z3.ArraySort(INT, z3.BoolSort()), POLY)
MEASURED = {k: z3.Function("footprint_" + k, z3.ArraySort(INT, z3.BoolSort()), R if k in ("area", "density", "purity") else INT) for k in FIELDS}


def built(I, mask):
    """What build gives for a set of instances (there may be no polygon)."""
    cls = I.repo.lookup(I.repo.module(D), "Footprint", I)
    num = lambda k: SF(MEASURED[k](mask)) if k in ("area", "density", "purity") else SInt(MEASURED[k](mask))
    return RecV(cls, {"polygon": SU(BUILT(mask)), **{k: num(k) for k in FIELDS}})


def same_fp(I, r, w, label):
    """Goals: two footprints are the same."""
    if not isinstance(r, RecV) or set(r.fields) != set(w.fields):
        raise Unsupported("another kind of footprint")
    p, q = r.fields["polygon"], w.fields["polygon"]
    pt, qt = (lib_geo.none(I) if x is None else x.t for x in (p, q))
    return [(f"{label}: polygon", pt == qt), *[(f"{label}: {k}", f_same(to_f(r.fields[k]), to_f(w.fields[k]))) for k in FIELDS]]


def stage(I, c):
    """The stage object over c["inst"] instances and c["algos"] algorithms."""
    n, m = c["n"], c["m"]
    z, yb, p, beta = points(I, n), arr2(I, "y_bin", n, m, "bool"), arr1(I, "p", n, "int"), arr1(I, "beta", n, "bool")
    labels = seq_of_sort(I, "algo_label", m, usort("Str"))[0]
    par = record(I, "instancespace.data.options", "ParallelOptions", dict(flag="bool", n_cores="int"), "par_")
    I.e.assume(par.fields["n_cores"].t >= 1)
    opts = record(I, "instancespace.data.options", "TraceOptions", dict(use_sim="bool", purity="float"), "opt_")
    cls = I.repo.lookup(I.repo.module(M), "TraceStage", I)
    c.update(z=A(I, z), y=A(I, yb), p=A(I, p), beta=A(I, beta), par=par, opts=opts, labels=labels, refs=dict(z=z, y_bin=yb, p=p, beta=beta))
    c["me"] = I.e.alloc(ObjC(cls, dict(z=z, y_bin=yb, p=p, beta=beta, algo_labels=labels, opts=opts, parallel_opts=par)))
    c["fields"] = dict(I.content(c["me"]).fields)
    return c


def kept(I, c):
    """Goals: the data of the stage are as they were."""
    return [g for k, w in (("z", "z"), ("y_bin", "y"), ("p", "p"), ("beta", "beta")) for g in same_arr(I, A(I, c["refs"][k]), c[w], f"{k} is kept")]


def untouched(I, c):
    """Goals of a task: the data are kept and nothing is written on the stage, which concurrent tasks share."""
    f = I.content(c["me"]).fields
    return kept(I, c) + [("the stage is kept: no attribute is written", T(
        set(f) == set(c["fields"]) and all(f[k] is v for k, v in c["fields"].items())))]


def good_set(I, c, i):
    return as_set(lambda k: c["y"](k, i), c["n"])


def best_set(I, c, i):
    return as_set(lambda k: mkbool(int_t(c["p"](k)) == i), c["n"])


class Process(Wiring):
    """Good: where the algorithm is good; best: where the selection names it.  Nothing else is read or written."""
    qual = C + "process_algorithm"
    name = "process_algorithm"

    def configure(self, I):
        super().configure(I)
        s = Stub(C + "build", lambda I, v: built(I, as_set(A(I, v["y_bin"]), I.tc["n"])))
        I.contracts[s.qual] = s

    def setup(self, I):
        I.calls.clear()
        I.geometry()
        I.tc = c = stage(I, dict(n=nat(I, "inst", 0), m=nat(I, "algos", 1)))
        c["i"] = i = z3.Int("algo")
        I.e.assume(And(0 <= i, i < c["m"]))
        return dict(self=c["me"], i=SInt(i)), c

    def ensures(self, I, c, res):
        if not isinstance(res, tuple) or len(res) != 3:
            raise Unsupported("index, good and best are not returned")
        i = c["i"]
        return [("the number of the algorithm", int_t(res[0]) == i), *same_fp(I, res[1], built(I, good_set(I, c, i)), "good footprint"),
                *same_fp(I, res[2], built(I, best_set(I, c, i)), "best footprint"), *untouched(I, c)]


OWN = {w: {k: z3.Function(f"{w}_{k}_of_algorithm", INT, POLY if k == "polygon" else R if k in ("area", "density", "purity") else INT)
           for k in ("polygon", *FIELDS)} for w in ("good", "best")}


def own(I, w, i):
    cls = I.repo.lookup(I.repo.module(D), "Footprint", I)
    return RecV(cls, {k: (SU if k == "polygon" else SF if k in ("area", "density", "purity") else SInt)(f(i)) for k, f in OWN[w].items()})


class Qualities(Wiring):
    """Whatever the order in which the tasks finish, every algorithm gets its own footprints at its own place."""
    qual = C + "compute_algorithm_qualities"
    name = "compute_algorithm_qualities"

    def configure(self, I):
        super().configure(I)
        s = Stub(C + "process_algorithm", lambda I, v: (v["i"], own(I, "good", int_t(v["i"])), own(I, "best", int_t(v["i"]))),
                 pre=lambda I, v: [("an algorithm", And(0 <= int_t(v["i"]), int_t(v["i"]) < I.tc["m"]))])
        I.contracts[s.qual] = s
        I.completion = None
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies, when=lambda I: I.completion is not None)

    def setup(self, I):
        I.calls.clear()
        I.completion = None
        I.geometry()
        I.tc = c = stage(I, dict(n=nat(I, "inst", 0), m=nat(I, "algos", 0)))
        return dict(self=c["me"], n_algos=SInt(c["m"])), c

    def lists(self, entry):
        """The lists the loop fills: the two footprint lists of the function."""
        if "good" not in entry.vars or "best" not in entry.vars:
            raise Unsupported("the footprints are collected differently")
        return [(w, entry.vars[w]) for w in ("good", "best")]

    def inv(self, I, frame, k, entry):
        m, pos = I.tc["m"], I.completion[1]
        j = I.e.generic("j")
        out = []
        for w, ref in self.lists(entry):
            s = I.seq_of(I.content(ref))
            n = s.n if z3.is_expr(s.n) else z3.IntVal(s.n)
            out.append((f"{w}: one per algorithm", n == m))
            for lab, g in same_fp(I, s.get(j), own(I, w, j), f"{w} of a finished algorithm"):
                out.append((lab, forall([j], Implies(And(inr(j, m), pos(j) < k), g))))
        return out

    def havoc(self, I, frame, k, entry):
        for w, ref in self.lists(entry):
            now = {key: z3.Function(I.e.fresh_name(f"{w}_{key}_now"), INT, f.range()) for key, f in OWN[w].items()}
            cls = own(I, w, z3.IntVal(0)).cls
            I.e.heap[ref.loc] = SeqC(I.tc["m"], lambda j, now=now: RecV(cls, {
                key: (SU if key == "polygon" else SF if key in ("area", "density", "purity") else SInt)(f(j)) for key, f in now.items()}))

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars} | {"i", "good_performance", "best_performance", "future"}, {r.loc for _, r in self.lists(entry)}

    def ensures(self, I, c, res):
        if not isinstance(res, tuple) or len(res) != 2:
            raise Unsupported("good and best are not returned")
        out = []
        j = I.e.generic("j")
        for w, r in zip(("good", "best"), res):
            s = I.seq_of(I.content(r))
            n = s.n if z3.is_expr(s.n) else z3.IntVal(s.n)
            out.append((f"{w}: one per algorithm", n == c["m"]))
            for lab, g in same_fp(I, s.get(j), own(I, w, j), f"{w}: every algorithm's own"):
                out.append((lab, forall([j], Implies(inr(j, c["m"]), g))))
        return out + kept(I, c)


FIT = z3.Function("fitted_cluster", INT, POLY)
SOFAR = z3.Function("union_of_clusters", INT, POLY)
SOME = z3.Function("some_cluster_fitted", INT, z3.BoolSort())
LAST = z3.Function("last_cluster", INT)


class Build(Wiring):
    """Fewer than three distinct points: an empty footprint.  Otherwise the measures of the union of the fitted clusters."""
    qual = C + "build"
    name = "build"

    def configure(self, I):
        super().configure(I)
        unique = I.lib["numpy.unique"]

        def distinct(I, a, kw, nd):
            out = unique(I, a, kw, nd)
            if kw.get("axis") != 0:
                raise Unsupported("unique values instead of rows")
            I.calls.setdefault("unique", []).append((A(I, a[0]), A(I, out)))
            return out
        I.lib["numpy.unique"] = distinct
        for s in (Stub(C + "run_dbscan", self.labels), Stub(C + "fit_poly", self.fit), Stub(C + "throw", lambda I, v: "thrown"),
                  Stub(D + ":Footprint.from_polygon", lambda I, v: value(I, "measured", "obj"))):
            I.contracts[s.qual] = s
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def rows(self, I):
        u = I.calls.get("unique", [])
        if len(u) != 1:
            raise Unsupported("the distinct points are found differently")
        return u[0]

    def labels(self, I, v):
        """The callee's contract: a label per point, finite."""
        _, u = self.rows(I)
        c = I.tc
        for lab, g in same_arr(I, A(I, v["data"]), u, "the distinct points are clustered") + same_arr(
                I, A(I, v["y_bin"]), c["mask"], "the instances of interest are clustered"):
            I.e.oblige(lab, g, None, kind="pre")
        x = arr1(I, "label", u.shape[0], "float", finite=True)
        c["label"], c["label_ref"] = A(I, x), x
        return x

    def fit(self, I, v):
        _, u = self.rows(I)
        c = I.tc
        k = c["iter"]
        x, lab = A(I, v["polydata"]), c["label"]
        cnt, pos = lib_np.mask_sel(I, u.shape[0], lambda q: mkbool(f_same(to_f(lab(q)), to_f(SInt(k)))))
        q, d = I.e.generic("q"), I.e.generic("d")
        goals = [("as many points as the cluster has", lib_np.dim_t(x.shape[0]) == lib_np.dim_t(z3.IntVal(cnt) if isinstance(cnt, int) else cnt)),
                 ("the points of the cluster", forall([q, d], Implies(And(inr(q, lib_np.dim_t(x.shape[0])), inr(d, z3.IntVal(2))), f_same(
                     to_f(x(q, d)), to_f(u(pos(q), d))))))]
        for l, g in goals + same_arr(I, A(I, v["y_bin"]), c["mask"], "the instances of interest are the purity"):
            I.e.oblige(l, g, None, kind="pre")
        return SU(FIT(k))

    def setup(self, I):
        I.calls.clear()
        I.geometry()
        I.tc = c = stage(I, dict(n=nat(I, "inst", 1), m=nat(I, "algos", 1)))
        y = arr1(I, "mask", c["n"], "bool")
        c.update(mask=A(I, y), y_ref=y)
        k = z3.Int("k!clusters")
        use = And(FIT(k + 1) != lib_geo.none(I), Not(EMPTY(FIT(k + 1))))
        I.e.assume(And(SOFAR(0) == NOTHING, Not(SOME(0))))
        I.e.assume(z3.ForAll([k], Implies(k >= 0, And(SOME(k + 1) == Or(SOME(k), use), SOFAR(k + 1) == z3.If(
            use, z3.If(SOME(k), OP["union"](SOFAR(k), FIT(k + 1)), FIT(k + 1)), SOFAR(k)))), patterns=[SOFAR(k + 1)]))
        c["fold"] = lambda k: And(SOME(k + 1) == Or(SOME(k), And(FIT(k + 1) != lib_geo.none(I), Not(EMPTY(FIT(k + 1))))), SOFAR(k + 1) == z3.If(
            And(FIT(k + 1) != lib_geo.none(I), Not(EMPTY(FIT(k + 1)))), z3.If(SOME(k), OP["union"](SOFAR(k), FIT(k + 1)), FIT(k + 1)), SOFAR(k)))
        return dict(self=c["me"], y_bin=y), c

    def inv(self, I, frame, k, entry):
        v = frame.vars
        if "polygon_body" not in v or "flag" not in v or not isinstance(v["polygon_body"], SU):
            raise Unsupported("the clusters are put together differently")
        I.tc["done"] = k
        return [("the clusters so far", v["polygon_body"].t == SOFAR(k)), ("whether there was one", bool_t(v["flag"]) == SOME(k)),
                ("there is a polygon", v["polygon_body"].t != lib_geo.none(I))]

    def havoc(self, I, frame, k, entry):
        I.tc["iter"] = k + 1
        I.e.assume(Implies(k >= 0, I.tc["fold"](k)))
        frame.vars["polygon_body"] = SU(I.e.const("body", POLY))
        frame.vars["flag"] = mkbool(I.e.const("flag", z3.BoolSort()))

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars} | {"polygon_body", "flag", "aux", "polydata", "i"}, set()

    def ensures(self, I, c, res):
        given, u = self.rows(I)
        n = c["n"]
        cnt, pos = lib_np.mask_sel(I, n, lambda q: c["mask"](q))
        q, d = I.e.generic("q"), I.e.generic("d")
        gn = lib_np.dim_t(given.shape[0])
        out = [("the instances of interest: how many", gn == lib_np.dim_t(cnt)),
               ("the instances of interest", forall([q, d], Implies(And(inr(q, gn), inr(d, z3.IntVal(2))), f_same(to_f(given(q, d)), to_f(c["z"](pos(q), d))))))]
        few = lib_np.dim_t(u.shape[0]) < 3
        if res == "thrown":
            return out + [("an empty footprint only for fewer than three points", few)]
        calls, more = self.called(I, "from_polygon")
        out.append(("fewer than three points: an empty footprint", Not(few)))
        v = calls[0][0]
        out += [*same(I, v["z"], c["refs"]["z"], "measured over all instances"), *same_arr(I, A(I, v["y_bin"]), c["mask"], "measured for the instances of interest"),
                ("with smooth borders", bool_t(v.get("smoothen", False))), ("the polygon: all fitted clusters", self.whole(I, c, v["polygon"]))]
        return out + same(I, res, calls[0][1], "the footprint is the measured one") + untouched(I, c)

    def whole(self, I, c, p):
        """The union over the clusters 1 … highest label."""
        hi = I.lib["numpy.max"](I, [c["label_ref"]], {}, None)
        k = z3.ToInt(to_f(hi).val)
        k = z3.If(k > 0, k, 0)
        return And(p.t == SOFAR(k))


FP = usort("Footprint")
MASK = z3.ArraySort(INT, z3.BoolSort())
FP_OF = z3.Function("footprint_of", MASK, FP)
FP_GET = {k: z3.Function("footprint_field_" + k, FP, R) for k in FIELDS}
FP_FIRST = {w: z3.Function(w + "_footprint_of_algorithm", INT, FP) for w in ("good", "best")}
CONTRA = [z3.Function("after_contra_" + w, FP, FP, MASK, MASK, FP) for w in ("base", "test")]
AFTER = z3.Function("best_after_pairs", INT, INT, INT, FP)
SUMMARY = [z3.Function(f"summary_{k}", FP, R, R, R) for k in range(5)]


class Trace(Wiring):
    """Space from all instances, own footprints, every pair of best footprints compared once in order, hard from the rest, one row each."""
    qual = C + "_trace"
    name = "_trace"

    def configure(self, I):
        super().configure(I)
        for k in FIELDS:
            I.sort_attr[("Footprint", k)] = lambda I, t, k=k: SF(FP_GET[k](t))
        mask = lambda y: as_set(A(I, y), I.tc["n"])
        seq = lambda w: I.e.alloc(SeqC(I.tc["m"], lambda j: SU(FP_FIRST[w](j)), et=("u", "Footprint", FP)))

        def qualities(I, v):
            I.tc["lists"] = tuple(seq(w) for w in ("good", "best"))
            return I.tc["lists"]

        def contra(I, v):
            args = v["base"].t, v["test"].t, mask(v["y_base"]), mask(v["y_test"])
            return tuple(SU(f(*args)) for f in CONTRA)
        for s in (Stub(C + "build", lambda I, v: SU(FP_OF(mask(v["y_bin"])))), Stub(C + "contra", contra),
                  Stub(C + "compute_algorithm_qualities", qualities, pre=lambda I, v: [("all algorithms", int_t(v["n_algos"]) == I.tc["m"])]),
                  Stub(C + "summary", lambda I, v: I.list_([SF(f(v["footprint"].t, to_f(v["space_area"]).val, to_f(v["space_density"]).val)) for f in SUMMARY]))):
            I.contracts[s.qual] = s
        I.loop_invs[(self.qual, 0)] = LoopInv(lambda *a: self.inv(*a, inner=False), lambda *a: self.havoc(*a, inner=False), self.modifies)
        I.loop_invs[(self.qual, 1)] = LoopInv(lambda *a: self.inv(*a, inner=True), lambda *a: self.havoc(*a, inner=True), self.modifies)

    def setup(self, I):
        I.calls.clear()
        I.geometry()
        I.tc = c = stage(I, dict(n=nat(I, "inst", 1), m=nat(I, "algos", 1)))
        m = c["m"]
        i, j, q = (z3.Int(x + "!pairs") for x in "ijq")
        ax = I.e.assume
        ax(z3.ForAll([q], AFTER(0, 1, q) == FP_FIRST["best"](q), patterns=[AFTER(0, 1, q)]))
        ax(z3.ForAll([i, j, q], Implies(And(0 <= i, i < j, j < m), AFTER(i, j + 1, q) == self.step(I, i, j, q)), patterns=[AFTER(i, j + 1, q)]))
        ax(z3.ForAll([i, q], Implies(And(0 <= i, i < m), AFTER(i + 1, i + 2, q) == AFTER(i, m, q)), patterns=[AFTER(i + 1, i + 2, q)]))
        return dict(self=c["me"]), c

    # -------- the pairs
    def step(self, I, i, j, q):
        args = AFTER(i, j, i), AFTER(i, j, j), best_set(I, I.tc, i), best_set(I, I.tc, j)
        return z3.If(q == i, CONTRA[0](*args), z3.If(q == j, CONTRA[1](*args), AFTER(i, j, q)))

    def where(self, I, frame, k, entry, inner):
        i = int_t(frame.vars["i"]) if inner else k
        return i, (i + 1 + k if inner else i + 1)

    def inv(self, I, frame, k, entry, inner):
        i, j = self.where(I, frame, k, entry, inner)
        q = I.e.generic("q")
        s = I.seq_of(I.content(I.tc["lists"][1]))
        n = s.n if z3.is_expr(s.n) else z3.IntVal(s.n)
        return [("one best footprint per algorithm", n == I.tc["m"]),
                ("the pairs so far have been compared", forall([q], Implies(inr(q, I.tc["m"]), s.get(q).t == AFTER(i, j, q))))]

    def havoc(self, I, frame, k, entry, inner):
        now = z3.Function(I.e.fresh_name("best_now"), INT, FP)
        if inner:
            i, j = self.where(I, frame, k, entry, True)
            _, j2 = self.where(I, frame, k + 1, entry, True)
            q = z3.Int("q!pairs")
            I.e.assume(Implies(And(0 <= i, i < j, j < I.tc["m"]), z3.ForAll([q], AFTER(i, j2, q) == self.step(I, i, j, q), patterns=[AFTER(i, j2, q)])))
        I.e.heap[I.tc["lists"][1].loc] = SeqC(I.tc["m"], lambda q: SU(now(q)), et=("u", "Footprint", FP))

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars} | {"i", "j"}, {I.tc["lists"][1].loc}

    def ensures(self, I, c, res):
        m, n = c["m"], c["n"]
        g = lambda k: I.getattr(res, k)
        space, hard = FP_OF(as_set(lambda k: mkbool(T(True)), n)), FP_OF(as_set(lambda k: mkbool(Not(bool_t(c["beta"](k)))), n))
        q = I.e.generic("q")
        last = lambda q: AFTER(m, m + 1, q)
        out = [("space: the footprint of all instances", g("space").t == space), ("hard: the footprint of the instances which are not beta", g("hard").t == hard)]
        for w, want in (("good", FP_FIRST["good"]), ("best", last)):
            s = I.seq_of(I.content(g(w)))
            sn = s.n if z3.is_expr(s.n) else z3.IntVal(s.n)
            out += [(f"{w}: one per algorithm", sn == m), (f"{w}: every algorithm's own", forall([q], Implies(inr(q, m), s.get(q).t == want(q))))]
        f = I.content(g("trace_summary")).fields
        if "joined" not in f:
            raise Unsupported("the summary is put together differently")
        names, body = (I.content(x).fields for x in f["joined"])
        x, y = A(I, names["cells"]), A(I, body["cells"])
        lab = I.seq_of(I.content(c["labels"]))
        z0 = z3.IntVal(0)
        out += [("summary: one row per algorithm", And(lib_np.dim_t(x.shape[0]) == m, lib_np.dim_t(y.shape[0]) == m)),
                ("summary: the algorithms, in order", forall([q], Implies(inr(q, m), term_eq(I, x(q, z0), lab.get(q)))))]
        titles = A(I, I.content(body["columns"]).fields["values"]) if isinstance(body["columns"], Ref) else None
        area, density = FP_GET["area"](space), FP_GET["density"](space)
        for h, (w, fp) in enumerate((("Good", FP_FIRST["good"]), ("Best", last))):
            for k, t in enumerate(("Area_{}", "Area_{}_Normalised", "Density_{}", "Density_{}_Normalised", "Purity_{}")):
                col = z3.IntVal(5 * h + k)
                out.append((f"summary: {t.format(w)} of every row", forall([q], Implies(inr(q, m), f_same(
                    to_f(y(q, col)), SF(SUMMARY[k](fp(q), area, density)))))))
                if titles is not None:
                    out.append((f"summary: {t.format(w)} is under its name", term_eq(I, titles(col), t.format(w))))
        return out + kept(I, c)


class Run(Wiring):
    """Predicted or experimental performance, as the options say; a selection 0 names no algorithm only where it is -1."""
    qual = C + "_run"
    name = "_run"
    kinds = dict(z="mat", selection0="ivec", p="ivec", beta="bvec", algo_labels="strs", y_hat="bmat", y_bin="bmat")

    def configure(self, I):
        super().configure(I)
        I.contracts[C + "_trace"] = Stub(C + "_trace", lambda I, v: value(I, "outputs", "obj"))

    def setup(self, I):
        I.calls.clear()
        I.geometry()
        r = record(I, M, "TraceInputs", dict(
            self.kinds, trace_options=record(I, "instancespace.data.options", "TraceOptions", dict(use_sim="bool", purity="float"), "topt_"),
            parallel_options=record(I, "instancespace.data.options", "ParallelOptions", dict(flag="bool", n_cores="int"), "popt_")), "in_")
        return dict(inputs=r), dict(r=r)

    def ensures(self, I, c, res):
        calls, out = self.called(I, "_trace")
        f = c["r"].fields
        me = I.content(calls[0][0]["self"]).fields
        sim = z3.simplify(bool_t(f["trace_options"].fields["use_sim"]))
        want = dict(z=f["z"], beta=f["beta"], algo_labels=f["algo_labels"], opts=f["trace_options"], parallel_opts=f["parallel_options"])
        for k, w in want.items():
            out += same(I, me[k], w, f"the analysis gets {k}")
        for k, a, b in (("y_bin", "y_hat", "y_bin"), ("p", "selection0", "p")):
            for cond, w in ((sim, f[a]), (Not(sim), f[b])):
                out += [(lab + (" (predicted)" if cond is sim else " (experimental)"), Implies(cond, g)) for lab, g in same(I, me[k], w, f"the analysis gets {k}")]
        return out + same(I, res, calls[0][1], "the results are those of the analysis")


SPLIT = z3.Function("piece", POLY, INT, POLY)


class Parts(Wiring):
    """What the fitting of polygons shares: a list of polygons put together, data which are kept."""

    def setup_stage(self, I):
        I.calls.clear()
        I.geometry()
        I.tc = c = stage(I, dict(n=nat(I, "inst", 1), m=nat(I, "algos", 1)))
        y = arr1(I, "good", c["n"], "bool")
        c.update(good=A(I, y), good_ref=y)
        return c, y

    def frame_goals(self, I, c):
        return untouched(I, c) + same_arr(I, A(I, c["good_ref"]), c["good"], "the labels given are kept")


class Tight(Parts):
    """Every part is fitted again to the good instances inside it."""
    qual = C + "tight"
    name = "tight"

    def configure(self, I):
        super().configure(I)
        I.contracts[C + "fit_poly"] = Stub(C + "fit_poly", self.fit)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)
        I.lib["shapely.ops.unary_union"] = I.lib["shapely.unary_union"] = self.union

    def union(self, I, a, kw, nd):
        I.e.trusted("shapely.unary_union: a polygon")
        p = SU(I.e.const("united", POLY))
        I.e.assume(p.t != lib_geo.none(I))
        return p

    def fit(self, I, v):
        c = I.tc
        k = c.get("iter", z3.IntVal(0))
        p = c["poly"].t
        part = PART(p, k) if I.e.branch(And(p != lib_geo.none(I), MULTI(p))) else p
        x = A(I, v["polydata"])
        ok = lambda q: And(INSIDE(part, to_f(c["z"](q, z3.IntVal(0))).val, to_f(c["z"](q, z3.IntVal(1))).val), bool_t(c["good"](q)))
        cnt, pos = lib_np.mask_sel(I, c["n"], lambda q: mkbool(ok(q)))
        q, d = I.e.generic("q"), I.e.generic("d")
        xn = lib_np.dim_t(x.shape[0])
        goals = [("as many points as there are good instances in the part", xn == lib_np.dim_t(z3.IntVal(cnt) if isinstance(cnt, int) else cnt)),
                 ("the good instances in the part", forall([q, d], Implies(And(inr(q, xn), inr(d, z3.IntVal(2))), f_same(to_f(x(q, d)), to_f(c["z"](pos(q), d))))))]
        for l, g in goals + same_arr(I, A(I, v["y_bin"]), c["good"], "the good instances are those given"):
            I.e.oblige(l, g, None, kind="pre")
        return SU(FIT(k))

    def setup(self, I):
        c, y = self.setup_stage(I)
        c["poly"] = p = SU(z3.Const("polygon", POLY))
        return dict(self=c["me"], polygon=p, y_bin=y), c

    def lists(self, I, entry):
        out = [n for n, v in entry.vars.items() if isinstance(v, Ref) and isinstance(entry.heap.get(v.loc), ListC) and not entry.heap[v.loc].items]
        if len(out) != 1:
            raise Unsupported("the fitted parts are kept differently")
        return out[0]

    def inv(self, I, frame, k, entry):
        v = frame.vars[self.lists(I, entry)]
        s = I.seq_of(I.content(v))
        n = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        return [("no more fitted parts than parts", And(0 <= n, n <= k))]

    def havoc(self, I, frame, k, entry):
        I.tc["iter"] = k
        v = entry.vars[self.lists(I, entry)]
        n, f = I.e.const("fitted", INT), I.e.func("fitted_part", [INT], POLY)
        I.e.heap[v.loc] = SeqC(n, lambda q: SU(f(q)))

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars} | {"aux", "polydata", "inside", "criteria"}, {entry.vars[self.lists(I, entry)].loc}

    def ensures(self, I, c, res):
        return [("without a polygon there is none", Implies(c["poly"].t == lib_geo.none(I), isnone(I, res))), *self.frame_goals(I, c)]


class FitPoly(Parts):
    """The polygon around the points, without the pieces which are not pure enough."""
    qual = C + "fit_poly"
    name = "fit_poly"

    def configure(self, I):
        super().configure(I)
        I.lib["alphashape.alphashape"] = self.shape
        I.lib["shapely.ops.triangulate"] = self.pieces
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def some(self, I, name):
        p = SU(I.e.const(name, POLY))
        I.e.assume(p.t != lib_geo.none(I))
        return p

    def shape(self, I, a, kw, nd):
        I.e.trusted("alphashape: a polygon, or QhullError (points on a line); the points are not changed")
        c = I.tc
        for l, g in same_arr(I, A(I, a[0]), c["pts"], "the shape is that of the points given"):
            I.e.oblige(l, g, nd, kind="pre")
        if I.e.branch(z3.Bool("on_a_line")):
            c["no_outline"] = True
            raise PyRaise(LibV("scipy.spatial.QhullError"), None, nd)
        return self.some(I, "outline")

    def pieces(self, I, a, kw, nd):
        I.e.trusted("shapely.ops.triangulate: a list of polygons")
        t = a[0].t
        n = I.e.const("pieces", INT)
        I.e.assume(n >= 0)
        k = z3.Int("k!pieces")
        I.e.assume(z3.ForAll([k], SPLIT(t, k) != lib_geo.none(I), patterns=[SPLIT(t, k)]))
        return I.e.alloc(SeqC(n, lambda q: SU(SPLIT(t, q))))

    def setup(self, I):
        c, y = self.setup_stage(I)
        x = arr2(I, "pts", nat(I, "points", 0), z3.IntVal(2), finite=True)
        c.update(pts=A(I, x), pts_ref=x)
        return dict(self=c["me"], polydata=x, y_bin=y), c

    def inv(self, I, frame, k, entry):
        p = frame.vars.get("polygon")
        if not isinstance(p, SU):
            raise Unsupported("what is left of the polygon is kept differently")
        return [("there is a polygon", p.t != lib_geo.none(I))]

    def havoc(self, I, frame, k, entry):
        frame.vars["polygon"] = SU(I.e.const("left", POLY))

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars} | {"polygon"}, set()

    def ensures(self, I, c, res):
        few = lib_np.dim_t(c["pts"].shape[0]) < 3
        return [("fewer than three points: no polygon", Implies(few, isnone(I, res))),
                *self.frame_goals(I, c), *same_arr(I, A(I, c["pts_ref"]), c["pts"], "the points given are kept")]


class Dist(Contract):
    """The Euclidean distances of a point to all others."""
    qual = C + "dist"
    name = "dist"

    def setup(self, I):
        n = nat(I, "m", 1)
        x, p = arr2(I, "x", n, z3.IntVal(2), finite=True), arr1(I, "p", z3.IntVal(2), finite=True)
        return dict(i=p, x=x), dict(x=A(I, x), p=A(I, p), xr=x, pr=p, n=n)

    def apply(self, I, f, v, node):
        x, p = A(I, v["x"]), A(I, v["i"])
        if len(x.shape) != 2 or len(p.shape) != 1:
            raise Unsupported("distances of other data")
        I.e.oblige("dist: points of a plane", And(lib_np.dim_t(x.shape[1]) == 2, lib_np.dim_t(p.shape[0]) == 2), node, kind="pre")
        return lib_np.new(I, (x.shape[0],), lambda k: lib_sp.euclid(I, lambda d: x(k, d), lambda d: p(d), z3.IntVal(2)), "float")

    def ensures(self, I, c, res):
        r, x, p = A(I, res), c["x"], c["p"]
        k = I.e.generic("k")
        return [("one distance per point", lib_np.dim_t(r.shape[0]) == c["n"]),
                ("the Euclidean distances", forall([k], Implies(inr(k, c["n"]), f_same(to_f(r(k)), lib_sp.euclid(I, lambda d: x(k, d), lambda d: p(d), z3.IntVal(2)))))),
                *same_arr(I, A(I, c["xr"]), x, "the points given are kept"), *same_arr(I, A(I, c["pr"]), p, "the point given is kept")]


class Dbscan(Contract):
    """Every point has one label: that of a cluster, counted from one, or noise.  The points are kept."""
    qual = C + "dbscan"
    name = "dbscan"
    names = ("classes", "touched", "type_", "no")

    def configure(self, I):
        for q, (f, h) in enumerate(((self.outer, self.h_outer), (self.queue, self.h_queue), (self.near, self.h_near))):
            I.loop_invs[(self.qual, q)] = LoopInv(f, h, self.modifies)

    def setup(self, I):
        n = nat(I, "m", 1)
        x = arr2(I, "x", n, z3.IntVal(2), finite=True)
        I.tc = c = dict(x=A(I, x), xr=x, n=n)
        return dict(x=x, k=value(I, "k", "int"), eps=value(I, "eps", "float")), c

    def state(self, I, frame):
        v = frame.vars
        if any(k not in v for k in self.names) or not isinstance(v["classes"], Ref):
            raise Unsupported("the clusters are kept differently")
        return v

    def outer(self, I, frame, k, entry):
        v = self.state(I, frame)
        n = I.tc["n"]
        q = I.e.generic("q")
        x, no = A(I, v["classes"]), to_f(v["no"])
        val = to_f(x(q))
        out = [("clusters count from one", And(no.val >= 1, *([] if isinstance(no.kind, int) else [no.kind == 0]))),
               ("every point has a label", forall([q], Implies(inr(q, n), And(
                   sym.isfin(val), val.val <= no.val, Or(val.val == -1, val.val == 0, val.val >= 1)))))]
        return out

    def queue(self, I, frame, k, entry):
        v = self.state(I, frame)
        s = I.seq_of(I.content(v["ind_list"])) if isinstance(v.get("ind_list"), Ref) else None
        if s is None:
            raise Unsupported("the points to visit are kept differently")
        n = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        q = I.e.generic("q")
        return self.outer(I, frame, k, entry) + [("what is to be visited are points", And(n >= 0, forall([q], Implies(inr(q, n), inr(int_t(s.get(q)), I.tc["n"])))))]

    near = queue

    def h_outer(self, I, frame, k, entry):
        for nm in ("classes", "touched", "type_"):
            r = frame.vars[nm]
            I.e.heap[r.loc] = I.e.heap[arr1(I, I.e.fresh_name(nm + "_now"), I.tc["n"], "float").loc]
        frame.vars["no"] = SInt(I.e.const("no", INT))

    def h_queue(self, I, frame, k, entry):
        self.h_outer(I, frame, k, entry)
        n, f = I.e.const("to_visit", INT), I.e.func("visit", [INT], INT)
        I.e.heap[frame.vars["ind_list"].loc] = SeqC(n, lambda q: SInt(f(q)))

    h_near = h_queue

    def modifies(self, I, entry, vars0):
        refs = [entry.vars[k] for k in ("classes", "touched", "type_", "ind_list") if isinstance(entry.vars.get(k), Ref)]
        return {n for n in vars0 if n not in entry.vars} | {"no", "ob", "d", "ind", "i1", "current_index", "ind_list"}, {r.loc for r in refs}

    def ensures(self, I, c, res):
        r = A(I, res)
        q = I.e.generic("q")
        v = to_f(r(q))
        return [("one label per point", lib_np.dim_t(r.shape[0]) == c["n"]),
                ("a cluster's number or noise", forall([q], Implies(inr(q, c["n"]), And(sym.isfin(v), Or(v.val >= 1, v.val == -1))))),
                *same_arr(I, A(I, c["xr"]), c["x"], "the points given are kept")]


class Epsilon(Contract):
    """The neighbourhood radius is a number made of the points, which are kept."""
    qual = C + "epsilon"
    name = "epsilon"

    def setup(self, I):
        n = nat(I, "m", 1)
        x = arr2(I, "x", n, z3.IntVal(2), finite=True)
        return dict(x=x, k=value(I, "k", "int")), dict(x=A(I, x), xr=x)

    def ensures(self, I, c, res):
        to_f(res)
        return same_arr(I, A(I, c["xr"]), c["x"], "the points given are kept")


class RunDbscan(Wiring):
    """The points are clustered; they and the labels are kept."""
    qual = C + "run_dbscan"
    name = "run_dbscan"

    def configure(self, I):
        super().configure(I)
        I.contracts[C + "epsilon"] = Stub(C + "epsilon", self.radius)
        I.contracts[C + "dbscan"] = Stub(C + "dbscan", self.labels)

    def setup(self, I):
        I.calls.clear()
        n, m = nat(I, "inst", 1), nat(I, "m", 1)
        x, y = arr2(I, "x", m, z3.IntVal(2), finite=True), arr1(I, "good", n, "bool")
        I.tc = c = dict(x=A(I, x), xr=x, y=A(I, y), yr=y, m=m)
        return dict(y_bin=y, data=x), c

    def radius(self, I, v):
        self.data(I, v)
        return SF(z3.Real("radius"))

    def data(self, I, v):
        for l, g in same_arr(I, A(I, v["x"]), I.tc["x"], "the points given are clustered"):
            I.e.oblige(l, g, None, kind="pre")

    def labels(self, I, v):
        self.data(I, v)
        return arr1(I, "label", I.tc["m"], "float", finite=True)

    def ensures(self, I, c, res):
        (call,), _ = self.called(I, "dbscan")
        return [*same(I, res, call[1], "the labels are those of the clustering"),
                *same_arr(I, A(I, c["xr"]), c["x"], "the points given are kept"), *same_arr(I, A(I, c["yr"]), c["y"], "the labels given are kept")]


ALL = [FromPolygon(), Throw(), Summary(), Contra(), Build(), Process(), Qualities(), Trace(), Run(), Tight(), FitPoly(), Dist(), Dbscan(), Epsilon(), RunDbscan()]
