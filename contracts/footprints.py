"""How footprints are fitted (C36): groups of close instances, an outline around each, no piece which is not pure enough."""
import z3

from contracts import trace
from contracts.common import Stub
from contracts.trace import C, FIT, SPLIT, isnone, inside
from pyvc import lib_geo, lib_np, lib_sp, sym
from pyvc.lib_geo import EMPTY, HULL, INSIDE, MULTI, OP, PART, PARTS, POLY, SIMPLIFY
from pyvc.sym import And, If, Implies, Not, Or, Ref, SF, SInt, SU, T, Unsupported, bool_t, f_same, int_t, mkbool, to_f
from pyvc.verify import A, Contract, arr2, forall, inr, nat, same_arr

INT, REAL = z3.IntSort(), z3.RealSort()
LEFT = z3.Function("left_after_pieces", INT, POLY)
CNT, NPTS, PARTFIT = z3.Function("parts_refitted", INT, INT), z3.Function("good_instances_in_part", INT, INT), z3.Function("part_refitted", INT, POLY)


class FitPoly(trace.FitPoly):
    """The simplified outline of the points, without exactly the triangles whose share of instances of interest is below the purity asked for."""

    def shape(self, I, a, kw, nd):
        if I.tc.get("outlines") or I.tc.get("no_outline"):
            raise Unsupported("more than one outline")
        out = super().shape(I, a, kw, nd)
        I.tc.setdefault("outlines", []).append(out.t)
        return out

    def pieces(self, I, a, kw, nd):
        c = I.tc
        if "whole" in c:
            raise Unsupported("cut in pieces more than once")
        c["whole"] = t = a[0].t
        I.e.assume(LEFT(0) == t)
        out = super().pieces(I, a, kw, nd)
        c["pieces"] = I.content(out).n
        return out

    def setup(self, I):
        v, c = super().setup(I)
        I.e.assume(to_f(c["opts"].fields["purity"]).kind == 0 if not isinstance(to_f(c["opts"].fields["purity"]).kind, int) else T(True))
        return v, c

    def impure(self, I, k):
        c = I.tc
        h = HULL(SPLIT(c["whole"], k))
        e, g = inside(I, h, c["z"], c["n"]), inside(I, h, c["z"], c["n"], c["good"])
        return And(e > 0, z3.ToReal(g) / z3.ToReal(e) < to_f(c["opts"].fields["purity"]).val)

    def inv(self, I, frame, k, entry):
        out = super().inv(I, frame, k, entry)
        if "whole" not in I.tc:
            raise Unsupported("the pieces are found differently")
        return out + [("what is left: no impure piece so far", frame.vars["polygon"].t == LEFT(k))]

    def havoc(self, I, frame, k, entry):
        super().havoc(I, frame, k, entry)
        w = I.tc["whole"]
        I.e.assume(Implies(k >= 0, LEFT(k + 1) == If(self.impure(I, k), OP["difference"](LEFT(k), SPLIT(w, k)), LEFT(k))))

    def ensures(self, I, c, res):
        few = lib_np.dim_t(c["pts"].shape[0]) < 3
        q = I.e.generic("q")
        allgood = forall([q], Implies(inr(q, c["n"]), bool_t(c["good"](q))))
        n = isnone(I, res)
        out = [("fewer than three points: no polygon", Implies(few, n))]
        o = c.get("outlines", [])
        if not o:
            return out + [("an outline for three points or more", Or(few, z3.BoolVal(c.get("no_outline", False)))), ("without an outline no polygon", n)]
        if len(o) != 1:
            raise Unsupported("more than one outline")
        if res is None:
            return out + [("nothing only around no area", And(Not(allgood), self.emptied(I, c, o[0])))]
        p = c.get("whole", res.t)
        if not (z3.is_app(p) and p.decl().eq(SIMPLIFY) and p.arg(0).eq(o[0])):
            raise Unsupported("the outline is simplified differently")
        if "whole" in c:
            return out + [("without the impure pieces, with the others", res.t == LEFT(c["pieces"])), ("there is a polygon", Not(n))]
        return out + [("nothing is cut out only if all instances are of interest", Or(allgood, n)), ("there is a polygon", Not(n))]

    def emptied(self, I, c, o):
        p = z3.Real("tol!fit")
        return z3.Exists([p], EMPTY(SIMPLIFY(o, p)))


class Tight(trace.Tight):
    """The union of the parts fitted again, each to the instances of interest inside it, where there are at least three of them."""

    def union(self, I, a, kw, nd):
        c = I.tc
        s = I.seq_of(I.content(a[0]))
        n = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        for lab, g in self.listed(I, s, n, c["parts_n"]):
            I.e.oblige("united: " + lab, g, nd, kind="pre")
        c["united"] = out = super().union(I, a, kw, nd)
        return out

    def setup(self, I):
        v, c = super().setup(I)
        I.e.assume(CNT(0) == 0)
        p = c["poly"].t
        c["parts_n"] = If(MULTI(p), PARTS(p), 1)
        zero = z3.IntVal(0)
        I.e.assume(Implies(Not(MULTI(p)), And(NPTS(zero) == self.points(I, p), CNT(1) == If(self.use(I, zero), 1, 0))))
        k = z3.Int("k!cnt")
        I.e.axiom(z3.ForAll([k], Implies(k >= 0, And(CNT(k) >= 0, CNT(k) <= k)), patterns=[CNT(k)]), {CNT.name()})
        return v, c

    def points(self, I, part):
        """How many instances of interest lie in a part."""
        c, z0, z1 = I.tc, z3.IntVal(0), z3.IntVal(1)
        cnt, _ = lib_np.mask_sel(I, c["n"], lambda q: mkbool(And(INSIDE(part, to_f(c["z"](q, z0)).val, to_f(c["z"](q, z1)).val), bool_t(c["good"](q)))))
        return lib_np.dim_t(cnt)

    def use(self, I, k):
        return And(NPTS(k) >= 3, FIT(k) != lib_geo.none(I), Not(EMPTY(FIT(k))))

    def listed(self, I, s, n, k):
        q = I.e.generic("q")
        el = s.get(CNT(q))
        if not isinstance(el, SU):
            raise Unsupported("the parts are kept differently")
        return [("as many as there are parts with enough instances", n == CNT(k)),
                ("every part with enough instances", forall([q], Implies(And(inr(q, k), self.use(I, q)), And(inr(CNT(q), n), el.t == FIT(q)))))]

    def inv(self, I, frame, k, entry):
        v = frame.vars[self.lists(I, entry)]
        s = I.seq_of(I.content(v))
        n = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        out = super().inv(I, frame, k, entry)
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
            return out + [("the parts so far: as many as there are parts with enough instances", CNT(k) == 0),
                          ("the parts so far: every part with enough instances", self.nothing(I, k))]
        return out + [("the parts so far: " + l, g) for l, g in self.listed(I, s, n, k)]

    def nothing(self, I, k):
        q = I.e.generic("q")
        return forall([q], Implies(inr(q, k), Not(self.use(I, q))))

    def havoc(self, I, frame, k, entry):
        super().havoc(I, frame, k, entry)
        c = I.tc
        p = c["poly"].t
        part = If(MULTI(p), PART(p, k), p)
        I.e.assume(NPTS(k) == self.points(I, part))
        I.e.assume(Implies(k >= 0, CNT(k + 1) == CNT(k) + If(self.use(I, k), 1, 0)))
        j = z3.Int("j!cnt")
        I.e.assume(z3.ForAll([j], Implies(And(0 <= j, j < k), And(CNT(j) <= CNT(k), Implies(self.use(I, j), CNT(j) < CNT(k)))), patterns=[CNT(j)]))

    def ensures(self, I, c, res):
        none = c["poly"].t == lib_geo.none(I)
        u = c.get("united")
        out = [("without a polygon there is none", Implies(none, isnone(I, res)))]
        if u is None:
            return out + [("nothing only if no part has enough instances", And(isnone(I, res), Or(none, CNT(c["parts_n"]) == 0)))]
        return out + [("the parts fitted again, united", res.t == u.t)]


class Epsilon(Contract):
    """The radius within which k of the points are expected, were they even over their bounding box: radius² · π · points = k · area."""
    qual = C + "epsilon"
    name = "epsilon"

    def configure(self, I):
        I.lib["numpy.prod"] = self.prod
        I.lib["scipy.special.gamma"] = self.gamma

    def prod(self, I, a, kw, nd):
        x = A(I, a[0])
        d = z3.simplify(lib_np.dim_t(x.shape[0]))
        if len(x.shape) != 1 or not z3.is_int_value(d) or kw or len(a) > 1 or d.as_long() > 4:
            raise Unsupported("product of something else")
        I.e.trusted("numpy.prod: the product of the elements")
        out = to_f(1)
        for q in range(d.as_long()):
            out = sym.f_mul(out, to_f(x(z3.IntVal(q))))
        return out

    def gamma(self, I, a, kw, nd):
        t = z3.simplify(to_f(a[0]).val)
        if not z3.is_rational_value(t) or t.as_fraction() not in (1, 2):
            raise Unsupported("gamma of something else")
        I.e.trusted("gamma(1) = gamma(2) = 1")
        return to_f(1)

    def setup(self, I):
        n, k = nat(I, "m", 1), I.e.const("k", INT)
        pi = z3.Real("pi")
        I.lib["const:numpy.pi"] = I.lib["const:math.pi"] = SF(pi)
        I.e.trusted("pi: some number between 3 and 4")
        I.e.assume(And(k >= 1, pi > 3, pi < 4))
        x = arr2(I, "x", n, z3.IntVal(2), finite=True)
        return dict(x=x, k=SInt(k)), dict(x=A(I, x), xr=x, n=n, k=k)

    def ensures(self, I, c, res):
        r, x = to_f(res), c["xr"]
        z = lambda nm, j: to_f(A(I, I.lib["numpy." + nm](I, [x], {"axis": 0}, None))(z3.IntVal(j))).val
        w, h = (z("max", j) - z("min", j) for j in (0, 1))
        pi, m, k, s = z3.Real("pi"), z3.ToReal(c["n"]), z3.ToReal(c["k"]), z3.Function("uf_sqrt", REAL, REAL)
        whole = w * h * k
        for l, g in (("the root of a square", s(pi * pi) == pi), ("the box is not negative", And(w >= 0, h >= 0)), ("nor its area", w * h >= 0)):
            I.e.oblige(l, g, None, kind="lemma")
            I.e.assume(g)
        return [("a number", sym.isfin(r)), ("not negative", r.val >= 0),
                ("as many points as expected", r.val * r.val * (pi * m) == whole),
                *same_arr(I, A(I, x), c["x"], "the points given are kept")]


class RunDbscan(trace.RunDbscan):
    """A twentieth of the instances of interest, rounded up, at least 3 and at most 50, with the radius for it, makes a group."""

    def size(self, I, v):
        k = to_f(v["k"])
        t = I.lib["numpy.sum"](I, [I.tc["yr"]], {}, None)
        u = -((-int_t(t)) / 20)
        want = If(u < 3, 3, If(u > 50, 50, u))
        I.e.oblige("the size of a group: a twentieth, rounded up, from 3 to 50", And(sym.isfin(k), k.val == z3.ToReal(want)), None, kind="pre")

    def radius(self, I, v):
        self.size(I, v)
        return super().radius(I, v)

    def labels(self, I, v):
        self.size(I, v)
        e = to_f(v["eps"])
        I.e.oblige("grouped with the radius for it", And(sym.isfin(e), e.val == z3.Real("radius")), None, kind="pre")
        return super().labels(I, v)


DIST = z3.Function("distance_of", INT, INT, REAL)
ROOM, COMP = z3.Function("reached_from_a_dense_point", INT, z3.BoolSort()), z3.Function("linked_set", INT, INT)


class Dbscan(trace.Dbscan):
    """The groups are the sets of linked points with a dense one: neighbours of a group's point are in the same group, every dense point is
    in one, whatever holds for dense points and spreads to neighbours (ROOM) holds in every group, and whatever neighbours share (COMP) all
    of a group share."""

    def configure(self, I):
        super().configure(I)
        I.calls = {}
        I.contracts[C + "dist"] = Stub(C + "dist", self.distances)

    def setup(self, I):
        n, k = nat(I, "m", 1), I.e.const("k", INT)
        x, eps = arr2(I, "x", n, z3.IntVal(2), finite=True), z3.Real("eps")
        X = A(I, x)
        I.tc = c = dict(x=X, xr=x, n=n, k=k, eps=eps)
        I.e.assume(And(k >= 1, eps >= 0))
        far = lambda p, q: lib_sp.euclid(I, lambda d: X(q, d), lambda d: X(p, d), z3.IntVal(2))
        a, b = I.e.generic("a"), I.e.generic("b")
        for l, g in (("distances are mutual", forall([a, b], Implies(And(inr(a, n), inr(b, n)), f_same(far(a, b), far(b, a))))),
                     ("a point is at its own place", forall([a], Implies(inr(a, n), And(sym.isfin(far(a, a)), far(a, a).val == 0))))):
            I.e.oblige(l, g, None, kind="lemma")
        a, b = z3.Ints("a!d b!d")
        r2 = And(inr(a, n), inr(b, n))
        ax = lambda t, p: I.e.assume(z3.ForAll([a, b], Implies(r2, t), patterns=[p]))
        ax(DIST(a, b) == DIST(b, a), DIST(a, b))
        I.e.assume(z3.ForAll([a], Implies(inr(a, n), DIST(a, a) == 0), patterns=[DIST(a, a)]))
        near = DIST(a, b) <= eps
        I.e.assume(z3.ForAll([a, b], Implies(And(r2, near), COMP(a) == COMP(b)), patterns=[z3.MultiPattern(DIST(a, b), COMP(a), COMP(b))]))
        I.e.assume(z3.ForAll([a, b], Implies(And(r2, near, ROOM(a)), ROOM(b)), patterns=[z3.MultiPattern(DIST(a, b), ROOM(b))]))
        g = I.e.generic("g")
        I.e.assume(forall([g], Implies(And(inr(g, n), self.dense(I, g)), ROOM(g))))
        return dict(x=x, k=SInt(k), eps=SF(eps)), c

    def degree(self, I, a):
        c = I.tc
        cnt, _ = lib_np.mask_sel(I, c["n"], lambda q: mkbool(DIST(a, q) <= c["eps"]))
        return lib_np.dim_t(cnt)

    def dense(self, I, a):
        return self.degree(I, a) >= I.tc["k"] + 1

    def distances(self, I, v):
        c = I.tc
        x, p = A(I, v["x"]), A(I, v["i"])
        for l, g in same_arr(I, x, c["x"], "distances to the points given"):
            I.e.oblige(l, g, None, kind="pre")
        cur, d = c["at"], I.e.generic("d")
        I.e.oblige("distances from the point at hand", forall([d], Implies(inr(d, z3.IntVal(2)), f_same(to_f(p(d)), to_f(c["x"](cur, d))))), None, kind="pre")
        return lib_np.new(I, (c["n"],), lambda q: SF(DIST(cur, q)), "float")

    # ---------------------------------------------------------------- what is known of the labels
    def known(self, I, frame, new):
        """new: the number of the group being filled (None between groups)."""
        v, c = self.state(I, frame), I.tc
        n, a, b = c["n"], I.e.generic("a"), I.e.generic("b")
        x, t = A(I, v["classes"]), A(I, v["touched"])
        L = lambda q: to_f(x(q)).val
        done = lambda q: to_f(t(q)).val != 0
        no = to_f(v["no"]).val
        mine = lambda q: L(q) == no if new else z3.BoolVal(False)
        near = lambda p, q: DIST(p, q) <= c["eps"]
        one = lambda g: forall([a], Implies(inr(a, n), g(a)))
        two = lambda g: forall([a, b], Implies(And(inr(a, n), inr(b, n)), g(a, b)))
        old = lambda q: And(L(q) >= 1, L(q) < no)
        out = [("marks are numbers", one(lambda q: And(sym.isfin(to_f(x(q))), sym.isfin(to_f(t(q)))))),
               ("labels", one(lambda q: Or(L(q) == -1, L(q) == 0, old(q), mine(q)))),
               ("groups take all neighbours", two(lambda p, q: Implies(And(old(p), near(p, q)), L(q) == L(p)))),
               ("a labelled point is done", one(lambda q: Implies(And(L(q) != 0, Not(mine(q))), done(q)))),
               ("a point which is done has a label", one(lambda q: Implies(done(q), L(q) != 0))),
               ("noise has no neighbour", two(lambda p, q: Implies(And(L(p) == -1, near(p, q)), p == q))),
               ("noise is not dense", one(lambda q: Implies(L(q) == -1, Not(self.dense(I, q))))),
               ("groups are reached from dense points", one(lambda q: Implies(L(q) >= 1, ROOM(q)))),
               ("a group is linked", two(lambda p, q: Implies(And(old(p), L(p) == L(q)), COMP(p) == COMP(q))))]
        return out

    def outer(self, I, frame, k, entry):
        v = self.state(I, frame)
        no = to_f(v["no"])
        c = I.tc
        x = A(I, v["classes"])
        a = I.e.generic("a")
        if not z3.is_int_value(k) and k.num_args():
            g = Implies(self.dense(I, c["seed"]), to_f(x(c["seed"])).val >= 1)
            I.e.oblige("the point at hand, if dense, is in a group", g, None, kind="lemma")
            I.e.assume(g)
        return [("clusters count from one", And(no.val >= 1, *([] if isinstance(no.kind, int) else [no.kind == 0]))),
                *self.known(I, frame, False),
                ("every dense point so far is in a group", forall([a], Implies(And(inr(a, c["n"]), a < k, self.dense(I, a)), to_f(x(a)).val >= 1)))]

    def h_outer(self, I, frame, k, entry):
        trace.Dbscan.h_outer(self, I, frame, k, entry)
        I.tc.update(at=k, seed=k)

    def filling(self, I, frame, k, closed, coming):
        """While a group is filled: which of its points wait (in the list), are closed, or are still to come."""
        v, c = self.state(I, frame), I.tc
        s = I.seq_of(I.content(v["ind_list"])) if isinstance(v.get("ind_list"), Ref) else None
        if s is None:
            raise Unsupported("the points to visit are kept differently")
        ln = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        n, a, b = c["n"], I.e.generic("a"), I.e.generic("b")
        x, t = A(I, v["classes"]), A(I, v["touched"])
        no = to_f(v["no"])
        mine = lambda q: to_f(x(q)).val == no.val
        near = lambda p, q: DIST(p, q) <= c["eps"]
        q = I.e.generic("q")
        item = lambda p: int_t(s.get(p))
        waits = lambda p: Or(*[And(inr(w(p), ln), item(w(p)) == p) for w in c["waiting"](ln)])
        out = [("clusters count from one", And(no.val >= 1, *([] if isinstance(no.kind, int) else [no.kind == 0]))),
               *self.known(I, frame, True),
               ("the list has points of the group", And(ln >= 0, forall([q], Implies(inr(q, ln), And(inr(item(q), n), mine(item(q))))))),
               ("the group is in one linked set", forall([a], Implies(And(inr(a, n), mine(a)), COMP(a) == COMP(c["seed"])))),
               ("the group has its first point", mine(c["seed"])),
               ("every dense point so far is in a group", forall([a], Implies(And(inr(a, n), a < c["seed"], self.dense(I, a)), to_f(x(a)).val >= 1))),
               ("closed points are done, with their neighbours", forall([a, b], Implies(And(inr(a, n), inr(b, n), closed(a)), And(
                   mine(a), to_f(t(a)).val != 0, Implies(near(a, b), mine(b)))))),
               ("points of the group are closed or wait", forall([a], Implies(And(inr(a, n), mine(a)), Or(closed(a), waits(a), coming(a)))))]
        return out

    def queue(self, I, frame, k, entry):
        c = I.tc
        no = lambda a: z3.BoolVal(False)
        if z3.is_int_value(k):                              # before the first point is visited
            c["waiting"] = lambda ln: self.ranks(I)
            return self.filling(I, frame, k, no, no)
        if z3.is_app(k) and k.num_args() == 0:              # what is assumed of an iteration
            return self.filling(I, frame, k, c["closed"], no)
        was, cur = c["closed"], c["at"]
        w = c["wait"]
        c["waiting"] = lambda ln: [w, lambda p: w(p) - 1]
        return self.filling(I, frame, k, lambda a: Or(was(a), a == cur), no)

    def h_queue(self, I, frame, k, entry):
        c = I.tc
        seed = c["seed"]
        super().h_queue(I, frame, k, entry)
        s = I.seq_of(I.content(frame.vars["ind_list"]))
        cl = I.e.func("closed", [INT], z3.BoolSort())
        c.update(closed=lambda a: cl(a), seed=seed, at=int_t(s.get(z3.IntVal(0))))
        self.h_wait(I)

    def h_wait(self, I):
        c = I.tc
        f = I.e.func("place", [INT], INT)
        c["wait"] = f
        c["waiting"] = lambda ln: [f]

    def near(self, I, frame, k, entry):
        c = I.tc
        was, cur, el = c["closed"], c["at"], entry.elem
        w = c["wait"]
        if z3.is_int_value(k):
            c["waiting"] = lambda ln: [lambda p: w(p) - 1, w]
        elif not (z3.is_app(k) and k.num_args() == 0):
            c["waiting"] = lambda ln: [w, lambda p: ln - 1]
        return self.filling(I, frame, k, lambda a: Or(was(a), a == cur), lambda a: self.later(I, frame, k, a))

    def later(self, I, frame, k, a):
        t = A(I, frame.vars["touched"])
        r = self.ranks(I)[0](a)
        return And(DIST(I.tc["at"], a) <= I.tc["eps"], to_f(t(a)).val == 0, r >= k)

    def ranks(self, I):
        """The places of the point's neighbours among them."""
        cnt = self.degree(I, I.tc["at"])
        r, _ = I.e.memo["selname", cnt.decl().name()]
        _, ta = I.e.memo["sel", id(r)]
        return [lambda p: ta(*cnt.children(), p)]

    def h_near(self, I, frame, k, entry):
        at, seed = I.tc["at"], I.tc["seed"]
        trace.Dbscan.h_queue(self, I, frame, k, entry)
        I.tc.update(at=at, seed=seed)
        self.h_wait(I)

    def ensures(self, I, c, res):
        r = A(I, res)
        n, a, b = c["n"], I.e.generic("a"), I.e.generic("b")
        L = lambda q: to_f(r(q)).val
        near = lambda p, q: DIST(p, q) <= c["eps"]
        return super().ensures(I, c, res) + [
            ("every dense point is in a group", forall([a], Implies(And(inr(a, n), self.dense(I, a)), L(a) >= 1))),
            ("neighbours are in the same group", forall([a, b], Implies(And(inr(a, n), inr(b, n), L(a) >= 1, near(a, b)), L(b) == L(a)))),
            ("a group is reached from a dense point", forall([a], Implies(And(inr(a, n), L(a) >= 1), ROOM(a)))),
            ("a group is linked", forall([a, b], Implies(And(inr(a, n), inr(b, n), L(a) >= 1, L(a) == L(b)), COMP(a) == COMP(b))))]


ALL = [FitPoly(), Tight(), Epsilon(), RunDbscan(), Dbscan()]
IMPORTS = ("trace",)
