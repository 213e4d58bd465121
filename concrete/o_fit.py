"""C36: how footprints are fitted."""
from unittest import mock

import numpy as np
from shapely.geometry import MultiPolygon, Point, Polygon, box
from shapely.ops import triangulate, unary_union

from .base import Skip, find, need, oracle, same
from .o_trace import clusters, mods, topts

Q = "instancespace.stages.trace:TraceStage."


def grouped(x, k, eps):
    """The groups of points linked by distances up to eps which contain a point with more than k points within eps."""
    m = len(x)
    d = np.sqrt(((x[:, None, :] - x[None, :, :]) ** 2).sum(axis=2))
    off = d[~np.eye(m, dtype=bool)]
    if not np.all(x == np.round(x)) and len(off) and np.min(np.abs(off - eps)) < 1e-9 * min(1.0, eps):
        raise Skip("distances too close to the radius to compare")
    near = d <= eps
    core = near.sum(axis=1) > k
    seen, out = np.zeros(m, bool), []
    for s in range(m):
        if seen[s]:
            continue
        part, todo = set(), [s]
        while todo:
            a = todo.pop()
            if a not in part:
                part.add(a)
                todo += [int(b) for b in np.where(near[a])[0] if b not in part]
        for a in part:
            seen[a] = True
        if any(core[a] for a in part):
            out.append(frozenset(part))
    return out


def partition(lab):
    return {frozenset(np.where(lab == v)[0].tolist()) for v in np.unique(lab) if v > 0}


def g_points(rng, i):
    m = int(rng.integers(3, 40))
    if i % 2:
        x = rng.integers(0, int(rng.integers(4, 10)), (m, 2)).astype(float)
        x = np.unique(x, axis=0)
        x = x[rng.permutation(len(x))]
        eps = float(rng.integers(1, 3))
    else:
        x, eps = clusters(rng, m), float(rng.uniform(0.15, 1.2))
    return dict(x=x, k=int(rng.integers(1, 6)), eps=eps)


@oracle("C36", g_points, 500, 6000)
def groups_of_points(c):
    """random points (a lattice, so that distances equal the radius; clouds) in random order: the groups against connected components with a dense point"""
    f = find(Q + "dbscan", ["x", "k", "eps"])
    x0 = c["x"].copy()
    lab = np.asarray(f(c["x"], c["k"], c["eps"]))
    need(same(c["x"], x0), "the points changed")
    need(lab.shape == (len(x0),) and all(v == -1 or (v >= 1 and v == int(v)) for v in lab), f"labels {lab}")
    want = set(grouped(x0, c["k"], c["eps"]))
    need(partition(lab) == want, f"grouped as {lab}, expected {[sorted(g) for g in want]}")
    pos = sorted({int(v) for v in lab if v > 0})
    need(pos == list(range(1, len(pos) + 1)), f"the groups are numbered {pos}")


def radius(x, k):
    lo, hi = x.min(axis=0), x.max(axis=0)
    return float(np.sqrt((hi - lo)[0] * (hi - lo)[1] * k / (np.pi * len(x))))


def size(y):
    return max(min(-(-int(np.sum(y)) // 20), 50), 3)


def g_run(rng, i):
    m = int(rng.integers(4, 60))
    n = int(rng.choice([20, 61, 90, 140, 400, 1100]))
    y = rng.random(n) < rng.choice([0.1, 0.5, 1.0])
    return dict(x=clusters(rng, m) * float(rng.choice([1.0, 1.0, 1e-3, 1e-5, 1e3])), y=y)


@oracle("C36", g_run, 250, 3000)
def size_and_radius(c):
    """random clouds and numbers of instances of interest (up to where the group size is capped): the radius and the groups found with it"""
    e, f = find(Q + "epsilon", ["x", "k"]), find(Q + "run_dbscan", ["y_bin", "data"])
    k = size(c["y"])
    r = radius(c["x"], k)
    got = e(c["x"], k)
    need(abs(got - r) <= 1e-9 * r, f"radius {got}, expected {r}")
    want = set(grouped(c["x"], k, r))
    m = mods()[1]
    g = find(Q + "dbscan", ["x", "k", "eps"])
    asked = []

    def spy(x, k, eps):
        asked.append((k, eps))
        return g(x, k, eps)
    with mock.patch.object(m.TraceStage, "dbscan", staticmethod(spy)):
        lab = np.asarray(f(c["y"], c["x"]))
    for a, b in asked:
        need(a == k and (b is None or abs(b - r) <= 1e-9 * r), f"groups of {a} within {b}, expected {k} within {r}")
    need(partition(lab) == want, f"group size {k}: grouped as {lab}, expected {[sorted(g) for g in want]}")


# ------------------------------------------------------------------ outlines and their pieces
class Spy:
    """What is outlined and what is cut in pieces."""

    def __init__(self, m):
        if not hasattr(getattr(m, "alphashape", None), "alphashape") or not hasattr(m, "triangulate"):
            raise Skip("outlined differently")
        self.m, self.outlined, self.cut = m, [], []
        self.real = m.alphashape.alphashape

    def shape(self, pts, *a, **k):
        self.outlined.append((np.array(pts, float), None))
        out = self.real(pts, *a, **k)
        self.outlined[-1] = (self.outlined[-1][0], out)
        return out

    def pieces(self, p, *a, **k):
        out = triangulate(p, *a, **k)
        self.cut.append((p, out))
        return out

    def __enter__(self):
        self.ps = [mock.patch.object(self.m.alphashape, "alphashape", self.shape), mock.patch.object(self.m, "triangulate", self.pieces)]
        for p in self.ps:
            p.start()
        return self

    def __exit__(self, *a):
        for p in self.ps:
            p.stop()


def rows(x):
    return frozenset(map(tuple, np.asarray(x, float).tolist()))


def expected(sp, z, y, purity):
    """The fitted polygons, from the outlines: without the impure pieces."""
    if np.all(y):
        return None
    out = []
    need(len(sp.cut) <= len(sp.outlined), "cut in pieces more often than outlined")
    for p, tri in sp.cut:
        for t in tri:
            h = t.convex_hull
            ins = np.array([h.contains(Point(*q)) for q in z])
            n, g = int(ins.sum()), int((ins & y).sum())
            if n > 0 and g / n < purity:
                p = p.difference(t)
        out.append(p)
    return out


def alike(a, b):
    a, b = a if a is not None else Polygon(), b if b is not None else Polygon()
    return a.symmetric_difference(b).area <= 1e-7 * max(1.0, b.area)


def g_fit(rng, i):
    n = int(rng.choice([30, 60, 100, 160]))
    z = clusters(rng, n) if i % 3 else rng.uniform(-2, 2, (n, 2))
    y = rng.random(n) < rng.choice([0.3, 0.6, 0.8, 1.0], p=[0.25, 0.3, 0.3, 0.15])
    if rng.random() < 0.5:
        y &= z @ rng.normal(size=2) > rng.normal() * 0.3
    if rng.random() < 0.1:
        z = np.outer(rng.uniform(-2, 2, n), rng.normal(size=2))
    if rng.random() < 0.3:
        d = int(rng.choice([n // 6, n // 2, n]))
        z[rng.integers(0, n, d)] = z[rng.integers(0, n, d)]
    return dict(z=z, y=y, purity=float(rng.choice([0.3, 0.5, 0.6, 0.75, 1.0])))


def stage_of(c):
    _, m = mods()
    to, po = topts(c["purity"], True, 1)
    n = len(c["z"])
    return m, m.TraceStage(c["z"], np.column_stack([c["y"]]), np.zeros(n, int), np.ones(n, bool), ["one"], to, po)


@oracle("C36", g_fit, 40, 500)
def built_around_groups(c):
    """random instances (duplicates, all of interest, impure regions): the outlined points are exactly the dense groups, and the footprint is the union of the outlines without their impure pieces"""
    dm, _ = mods()
    find(Q + "build", ["self", "y_bin"])
    find("instancespace.data.model:Footprint.from_polygon", ["polygon", "z", "y_bin", "smoothen"])
    m, st = stage_of(c)
    z, y = c["z"].copy(), c["y"].copy()
    with Spy(m) as sp:
        fp = st.build(c["y"])
    pts = np.unique(z[y], axis=0)
    if len(pts) < 3:
        need(not sp.outlined and (fp.polygon is None or fp.polygon.is_empty) and fp.area == 0, f"{len(pts)} distinct points have a footprint")
        return
    groups = [g for g in grouped(pts, size(y), radius(pts, size(y))) if len(g) >= 3]
    want = sorted(sorted(map(tuple, pts[sorted(g)].tolist())) for g in groups)
    got = sorted(sorted(rows(x)) for x, _ in sp.outlined)
    need(got == want, f"outlined groups of {[len(g) for g in got]} points, expected {[len(g) for g in want]}"
         + ("" if [len(g) for g in got] != [len(g) for g in want] else " (other points)"))
    parts = expected(sp, z, y, c["purity"])
    if parts is None:
        return
    need(len(parts) == len(sp.outlined) or any(o is None or o.area < 1e-3 for _, o in sp.outlined), "an outline is not cut in pieces")
    w = dm.Footprint.from_polygon(unary_union(parts) if parts else Polygon(), z, y, smoothen=True)
    need(alike(fp.polygon, w.polygon), f"the footprint has area {fp.area}, the outlines without impure pieces {w.area}")


@oracle("C36", g_fit, 60, 700)
def impure_pieces_cut(c):
    """one group of instances outlined: the polygon is the outline without exactly the impure triangles; fewer than three points have none"""
    find(Q + "fit_poly", ["self", "polydata", "y_bin"])
    m, st = stage_of(c)
    z, y = c["z"].copy(), c["y"].copy()
    pts = np.unique(z[y], axis=0)
    need(st.fit_poly(pts[:2], c["y"]) is None, "two points have a polygon")
    if len(pts) < 3:
        return
    with Spy(m) as sp:
        got = st.fit_poly(pts, c["y"])
    need(same(c["z"], z) and same(c["y"], y), "the instances changed")
    need([rows(x) for x, _ in sp.outlined] == [rows(pts)], "other points are outlined")
    o = sp.outlined[0][1]
    if o is None:
        need(got is None, "a polygon around points which have no outline")
        return
    if np.all(y):
        need(not sp.cut, "cut in pieces with all instances of interest")
        need(got is not None and (o.is_empty or got.hausdorff_distance(o) < 0.2), "the outline changed")
        return
    parts = expected(sp, z, y, c["purity"])
    if got is None:
        need(not parts, "an outline was dropped")
        return
    need(len(parts) == 1, "cut in pieces more than once")
    need(alike(got, parts[0]), f"area {got.area}, the outline without impure pieces {parts[0].area} (outline {sp.cut[0][0].area})")


def g_tight(rng, i):
    c = g_fit(rng, i)
    a = float(rng.uniform(0.2, 3))
    bs = [(-4.0, -4.0, -a / 2, 4.0), (a / 2, -4.0, 4.0, float(rng.uniform(-3, 4)))]
    if i % 3 == 0:
        bs.append((-a / 4, 1.0, a / 4, 3.0))
    if rng.random() < 0.4:                              # a small part with two to four instances in it
        q = int(rng.integers(2, 5))
        c["z"][:q] = [4.5, 4.5] + rng.uniform(-0.4, 0.4, (q, 2))
        c["y"][:q] = True
        bs.append((4.05, 4.05, 5.0, 5.0))
    return dict(c, boxes=bs[:1] if i % 5 == 0 else bs)


@oracle("C36", g_tight, 50, 600)
def parts_refitted(c):
    """polygons of one to three parts: each part with three or more instances of interest inside is outlined from exactly those; the results are united"""
    find(Q + "tight", ["self", "polygon", "y_bin"])
    m, st = stage_of(c)
    z, y = c["z"].copy(), c["y"].copy()
    need(st.tight(None, c["y"]) is None, "no polygon is refined")
    ps = [box(*b) for b in c["boxes"]]
    with Spy(m) as sp:
        got = st.tight(MultiPolygon(ps) if len(ps) > 1 else ps[0], c["y"])
    inside = [z[np.array([p.contains(Point(*q)) for q in z]) & y] for p in ps]
    want = [rows(x) for x in inside if len(x) >= 3]
    need(sorted(map(sorted, want)) == sorted(sorted(rows(x)) for x, _ in sp.outlined), f"outlined {[len(x) for x, _ in sp.outlined]} points, inside are {[len(x) for x in inside]}")
    parts = expected(sp, z, y, c["purity"])
    if parts is None:
        return
    need(alike(got, unary_union(parts) if parts else None), f"refined to area {None if got is None else got.area}")
