"""Planar geometry (shapely): polygons are values of a sort; areas, containment and set operations are library functions."""
import z3

from .engine import usort
from .sym import And, ArrC, Implies, LibV, MethodV, Not, ObjC, Or, Ref, SeqC, SF, SU, T, Unsupported, ViewC, mkbool, to_f

POLY, POINT = usort("Poly"), usort("Point")
R, B = z3.RealSort(), z3.BoolSort()
AREA = z3.Function("area", POLY, R)
EMPTY = z3.Function("is_empty", POLY, B)
INSIDE = z3.Function("contains", POLY, R, R, B)
OP = {n: z3.Function(n, POLY, POLY, POLY) for n in ("intersection", "difference", "union")}
BUFFER = z3.Function("buffer", POLY, R, POLY)
SIMPLIFY = z3.Function("simplified", POLY, R, POLY)
HULL = z3.Function("convex_hull", POLY, POLY)
MULTI = z3.Function("is_multi", POLY, B)
PARTS = z3.Function("parts", POLY, z3.IntSort())
PART = z3.Function("part", POLY, z3.IntSort(), POLY)
# the outline of a polygon: its points, the first one repeated at the end
RING, RX, RY = z3.Function("outline_len", POLY, z3.IntSort()), z3.Function("outline_x", POLY, z3.IntSort(), R), z3.Function("outline_y", POLY, z3.IntSort(), R)
PT = z3.Function("point", R, R, POINT)
PX, PY = z3.Function("point_x", POINT, R), z3.Function("point_y", POINT, R)
NOTHING = z3.Const("no_area", POLY)
MP = LibV("shapely.MultiPoint")


def none(I):
    return I.e.lit(POLY, None)


def present(I, t, what):
    if I.e.spec_mode == 0:
        n = none(I)
        if z3.is_app(t) and t.eq(n):
            I.raise_("AttributeError", what, None)
        I.e.oblige(f"there is a polygon for {what}", t != n, None, kind="safety")


def install(I):
    L, e = I.lib, I.e

    def trust():
        e.trusted("shapely: area, emptiness, containment, set operations, buffers and parts of polygons are functions of the polygons")
        p, q, x, y = z3.Const("p!geo", POLY), z3.Const("q!geo", POLY), z3.Real("x!geo"), z3.Real("y!geo")
        e.axiom(z3.ForAll([p], AREA(p) >= 0, patterns=[AREA(p)]), {"area"})
        e.axiom(z3.ForAll([p, x, y], Implies(INSIDE(p, x, y), Not(EMPTY(p))), patterns=[INSIDE(p, x, y)]), {"contains"})
        e.axiom(z3.ForAll([p, q], OP["intersection"](p, q) == OP["intersection"](q, p), patterns=[OP["intersection"](p, q)]), {"intersection"})
        e.axiom(z3.ForAll([p], PARTS(p) >= 0, patterns=[PARTS(p)]), {"parts"})
        n = none(I)
        e.axiom(And(EMPTY(NOTHING), NOTHING != n), {"no_area"})
        for f in OP.values():
            e.axiom(z3.ForAll([p, q], f(p, q) != n, patterns=[f(p, q)]), {f.name()})
        e.axiom(z3.ForAll([p, x], BUFFER(p, x) != n, patterns=[BUFFER(p, x)]), {"buffer"})
        e.axiom(z3.ForAll([p, x], SIMPLIFY(p, x) != n, patterns=[SIMPLIFY(p, x)]), {"simplified"})
        e.axiom(z3.ForAll([p], HULL(p) != n, patterns=[HULL(p)]), {"convex_hull"})
    def geometry():
        I.unselect = True     # counts over the points of a selection are counts over all points
        trust()
    I.geometry = geometry

    def attr(name, f):
        def h(I, t):
            present(I, t, name)
            return f(t)
        I.sort_attr[("Poly", name)] = h

    def method(name, f):
        def h(I, t, a, kw):
            present(I, t, name)
            return f(t, a, kw)
        I.sort_method[("Poly", name)] = h
    attr("area", lambda t: SF(AREA(t)))
    attr("is_empty", lambda t: mkbool(EMPTY(t)))
    attr("convex_hull", lambda t: SU(HULL(t)))

    def geoms(t):
        p, k = z3.Const("p!geo", POLY), z3.Int("k!geo")
        e.axiom(z3.ForAll([p, k], PART(p, k) != none(I), patterns=[PART(p, k)]), {"part"})
        s = SeqC(PARTS(t), lambda k: SU(PART(t, k)))
        s.of = t
        return e.alloc(s)
    attr("geoms", geoms)

    def exterior(t):
        p = z3.Const("p!geo", POLY)
        e.trusted("shapely: the exterior of a polygon is a sequence of points which is not empty")
        e.axiom(z3.ForAll([p], RING(p) >= 1, patterns=[RING(p)]), {"outline_len"})
        return e.alloc(ObjC(LibV("shapely.LinearRing"), {"of": SU(t)}))
    attr("exterior", exterior)

    def ring(I, v):
        t = I.content(v).fields["of"].t
        n = RING(t)
        return t, n, [I.lib_np.new(I, (n,), lambda r, f=f: SF(f(t, r)), "float") for f in (RX, RY)]
    L["attr:shapely.LinearRing.xy"] = lambda I, v: tuple(ring(I, v)[2])

    def coords(I, v):
        t, n, _ = ring(I, v)
        return I.lib_np.new(I, (n, 2), lambda r, c: SF(z3.If(c == 0, RX(t, r), RY(t, r))), "float")
    L["attr:shapely.LinearRing.coords"] = coords
    I.sort_attr[("Poly", "__isnone__")] = lambda I, t: t == none(I)
    I.sort_attr[("Poly", "__bool__")] = lambda I, t: And(t != none(I), Not(EMPTY(t)))

    def is_a(I, t, a, kw):
        c = a[0].name.split(".")[-1] if isinstance(a[0], LibV) else None
        if c == "MultiPolygon":
            return mkbool(And(t != none(I), MULTI(t)))
        if c == "Polygon":
            return mkbool(And(t != none(I), Not(MULTI(t))))
        if c == "NoneType":
            return mkbool(t == none(I))
        return False
    I.sort_method[("Poly", "__isinstance__")] = lambda I, t, a, kw: (lambda r: r if isinstance(r, bool) else I.truth_t(r))(is_a(I, t, a, kw))

    def poly(v):
        if v is None:
            return none(I)
        if not isinstance(v, SU) or v.t.sort() != POLY:
            raise Unsupported("geometry of another kind")
        return v.t
    for nm, f in OP.items():
        method(nm, lambda t, a, kw, f=f: SU(f(t, poly(a[0]))) if len(a) == 1 and not kw else I.unsup(None, "options of a set operation"))
    method("buffer", lambda t, a, kw: SU(BUFFER(t, to_f(a[0]).val)) if len(a) == 1 and not kw else I.unsup(None, "options of buffer"))
    method("simplify", lambda t, a, kw: SU(SIMPLIFY(t, to_f(a[0]).val)) if len(a) == 1 and not kw else I.unsup(None, "options of simplify"))

    def contains(t, a, kw):
        p = a[0]
        if isinstance(p, SU) and p.t.sort() == POINT:
            if z3.is_app(p.t) and p.t.decl().eq(PT):
                return mkbool(INSIDE(t, p.t.arg(0), p.t.arg(1)))
            return mkbool(INSIDE(t, PX(p.t), PY(p.t)))
        raise Unsupported("containment of something else than a point")
    method("contains", contains)

    def multipoint(I, a, kw, nd):
        if len(a) != 1 or kw:
            raise Unsupported("options of MultiPoint")
        x = I.lib_np.arr(I, a[0])
        if len(x.shape) != 2:
            raise Unsupported("MultiPoint of another table")
        I.lib_np.check_dim(I, x.shape[1], 2, nd, "two coordinates of a point")
        return e.alloc(ObjC(MP, {"of": I.lib_np.new(I, x.shape, x.elem, x.dtype)}))
    L["shapely.MultiPoint"] = L["shapely.geometry.MultiPoint"] = multipoint

    def points(I, v):
        x = I.lib_np.arr(I, I.content(v).fields["of"])
        z = z3.IntVal
        return e.alloc(SeqC(I.lib_np.dim_t(x.shape[0]), lambda k: SU(PT(to_f(x.elem(k, z(0))).val, to_f(x.elem(k, z(1))).val))))
    L["attr:shapely.MultiPoint.geoms"] = points

    def point(I, a, kw, nd):
        if len(a) == 2 and not kw:
            return SU(PT(to_f(a[0]).val, to_f(a[1]).val))
        raise Unsupported("a point from other coordinates")
    L["shapely.Point"] = L["shapely.geometry.Point"] = point

    def polygon(I, a, kw, nd):
        if a or kw:
            raise Unsupported("a polygon from coordinates")
        return SU(NOTHING)
    L["shapely.Polygon"] = L["shapely.geometry.Polygon"] = polygon
