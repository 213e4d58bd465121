"""Contracts of the graphs (C34)."""
import z3

from contracts.common import OBJ, Stub, Wiring, record, same, value
from contracts.serialisers import FMT, PATH, STR, Tables, files, fmt, fstring, names, template_of
from pyvc import lib_geo, lib_np, lib_pd, sym
from pyvc.engine import usort
from pyvc.lib_geo import MULTI, PART, PARTS, POLY, RING, RX, RY
from pyvc.loops import LoopInv
from pyvc.sym import And, DictC, Implies, LibV, ListC, Not, ObjC, Or, RecV, Ref, SeqC, SetC, SF, SInt, SU, T, Unsupported, bool_t, f_same, int_t, mkbool, to_f
from pyvc.verify import A, Contract, arr1, arr2, forall, inr, nat, same_arr, seq_of_sort, term_eq

M = "instancespace._serialisers"
INT = z3.IntSort()
FIG, AX = LibV("matplotlib.Figure"), LibV("matplotlib.Axes")
MAP, NORM, HUE = usort("Map"), usort("Norm"), usort("Colour")
SPACED = z3.Function("with_spaces", STR, STR)     # x.replace("_", " ")
P = "matplotlib.pyplot."


def canvas(I):
    """What is drawn is recorded: points with their label, patches, the title and where it is saved."""
    L, e = I.lib, I.e
    I.drawn, I.titles, I.saved, I.patched = [], [], [], []
    none = lambda I, *a: None
    for n in ("clf", "close", "cla", "tight_layout"):
        L[P + n] = none

    def subplots(I, a, kw, nd):
        I.e.trusted("matplotlib: a figure shows the points and patches given to its axes, and is written to the file given")
        if a or kw:
            raise Unsupported("several axes")
        ax = e.alloc(ObjC(AX, {}))
        return e.alloc(ObjC(FIG, {"ax": ax})), ax
    L[P + "subplots"] = subplots
    cmaps = lambda I: e.alloc(DictC({"viridis": SU(z3.Const("viridis", MAP))}))
    L["const:matplotlib.colormaps"] = L["const:" + P + "colormaps"] = cmaps
    I.ranges, I.bars = {}, []

    def normalize(I, a, kw, nd):
        v = SU(e.const("norm", NORM))
        I.ranges[v.t.get_id()] = (v, a[0] if a else kw.get("vmin"), a[1] if len(a) > 1 else kw.get("vmax"))
        return v
    L["matplotlib.colors.Normalize"] = normalize

    def mappable(I, a, kw, nd):
        v = SU(e.const("mappable", OBJ))
        I.bars.append((kw.get("norm", a[0] if a else None), kw.get("cmap", a[1] if len(a) > 1 else None)))
        return v
    L[P + "cm.ScalarMappable"] = L["matplotlib.cm.ScalarMappable"] = mappable
    I.sort_method[("Norm", "__call__")] = lambda I, t, a, kw: SU(e.const("part_of_range", HUE))
    I.sort_method[("Map", "__call__")] = lambda I, t, a, kw: SU(e.const("hue", HUE))
    for n in ("set_xlim", "set_ylim", "set_xlabel", "set_ylabel", "legend", "set_title", "grid", "set_aspect"):
        L[f"method:{AX.name}.{n}"] = none
    for n in ("colorbar", "tight_layout", "legend"):
        L[f"method:{FIG.name}.{n}"] = none

    def scatter(I, v, a, kw, nd):
        if len(a) != 2:
            raise Unsupported("points given differently")
        I.points(v, A(I, a[0]), A(I, a[1]), kw, nd)
    L[f"method:{AX.name}.scatter"] = scatter
    L[f"method:{AX.name}.add_patch"] = lambda I, v, a, kw, nd: I.patch(v, a[0], nd)
    L[f"method:{FIG.name}.suptitle"] = lambda I, v, a, kw, nd: I.titles.append(a[0])
    L[f"method:{FIG.name}.savefig"] = lambda I, v, a, kw, nd: I.saved.append((v, a[0]))
    I.points = lambda v, x, y, kw, nd: I.drawn.append((v, x, y, kw))

    def patch(I, a, kw, nd):
        return e.alloc(ObjC(LibV("matplotlib.Patch"), {"of": a[0] if a else kw.get("xy")}))
    L["matplotlib.patches.Polygon"] = patch
    I.fstring = lambda parts: fstring(I, parts)
    I.sort_method[("Str", "replace")] = lambda I, t, a, kw: SU(SPACED(t)) if a == ["_", " "] or tuple(a) == ("_", " ") else I.unsup(None, "another replacement")

    def add(I, t, a, kw):
        if not isinstance(a[0], str):
            raise Unsupported("texts put together")
        return SU(fmt("{}" + a[0], t.sort())(t))
    I.sort_method[("Str", "__add__")] = add


def coordinates(I, x, y, z, rows, pick, what):
    """Goals: the points drawn are those of the rows picked."""
    r = I.e.generic("r")
    n, m = lib_np.dim_t(x.shape[0]), lib_np.dim_t(y.shape[0])
    return [(f"{what}: as many points", And(n == rows, m == rows)),
            (f"{what}: at their coordinates", forall([r], Implies(inr(r, rows), And(
                f_same(to_f(x(r)), to_f(z(pick(r), z3.IntVal(0)))), f_same(to_f(y(r)), to_f(z(pick(r), z3.IntVal(1))))))))]


class Draw(Wiring):
    """A drawing function: title, file and coordinates."""

    def configure(self, I):
        super().configure(I)
        canvas(I)

    def frame(self, I):
        I.calls.clear()
        I.drawn, I.titles, I.saved, I.patched, I.ranges, I.bars = [], [], [], [], {}, []
        I.geometry()
        n = nat(I, "instances", 1)
        z = arr2(I, "z", n, z3.IntVal(2), finite=True)
        out = I.e.alloc(ObjC(PATH, {"dir": None, "name": "file"}))
        I.tc = c = dict(n=n, z=A(I, z), zr=z, out=out)
        return c

    def shown(self, I, c, title=True):
        figs = {f for f, _ in I.saved}
        out = [("it is saved where asked for", T(bool(I.saved) and all(w == c["out"] for _, w in I.saved))), ("one figure is saved", T(len(figs) == 1))]
        if len(figs) == 1:
            ax = I.content(next(iter(figs))).fields["ax"]
            out.append(("what is drawn is on it", T(all(v == ax for v, *_ in I.drawn))))
        if title:
            if len(I.titles) != 1:
                raise Unsupported("titles are given differently")
            out += same(I, I.titles[0], c["title"], "the title is the one given")
        return out + same_arr(I, A(I, c["zr"]), c["z"], "the coordinates are kept")

    def mask(self, I, mask, what):
        """Goals for each set of points drawn with a label: those of the mask."""
        c = I.tc
        return lambda x, y: coordinates(I, x, y, c["z"], *self.sel(I, mask), what)

    def sel(self, I, mask):
        cnt, pos = lib_np.mask_sel(I, I.tc["n"], lambda q: mkbool(mask(q)))
        return lib_np.dim_t(z3.IntVal(cnt) if isinstance(cnt, int) else cnt), pos


class Scatter(Draw):
    """Every instance at its coordinates, coloured by its own value."""
    qual = M + ":_draw_scatter"
    name = "_draw_scatter"

    def setup(self, I):
        c = self.frame(I)
        x = arr1(I, "x", c["n"])
        c.update(x=A(I, x), xr=x, title=value(I, "title", "str"))
        return dict(z=c["zr"], x=x, title_label=c["title"], output=c["out"]), c

    def ensures(self, I, c, res):
        if len(I.drawn) != 1:
            raise Unsupported("the points are drawn in several sets")
        _, x, y, kw = I.drawn[0]
        if not isinstance(kw.get("c"), Ref):
            raise Unsupported("the values are shown differently")
        norm, cmap = kw.get("norm"), kw.get("cmap")
        if not isinstance(norm, SU) or norm.t.get_id() not in I.ranges or any(v is None for v in I.ranges[norm.t.get_id()]):
            raise Unsupported("the colours are chosen differently")
        _, lo, hi = I.ranges[norm.t.get_id()]
        least, most = (I.lib["numpy." + w](I, [c["xr"]], {}, None) for w in ("min", "max"))
        out = [("the colours run from the smallest value", f_same(to_f(lo), to_f(least))), ("to the greatest", f_same(to_f(hi), to_f(most)))]
        for bar in I.bars:
            if any(not isinstance(v, SU) for v in (*bar, cmap)):
                raise Unsupported("the bar of colours")
            out.append(("the bar shows the colours used", And(bar[0].t == norm.t, bar[1].t == cmap.t)))
        return out + [*coordinates(I, x, y, c["z"], c["n"], lambda r: r, "the instances"), *same_arr(I, A(I, kw["c"]), c["x"], "the values of the instances"),
                *self.shown(I, c), *same_arr(I, A(I, c["xr"]), c["x"], "the values given are kept")]


class Binary(Draw):
    """Good instances as GOOD, the others as BAD."""
    qual = M + ":_draw_binary_performance"
    name = "_draw_binary_performance"

    def setup(self, I):
        c = self.frame(I)
        y = arr1(I, "y_bin", c["n"], "bool")
        c.update(y=A(I, y), yr=y, title=value(I, "title", "str"))
        return dict(z=c["zr"], y_bin=y, title_label=c["title"], output=c["out"]), c

    def ensures(self, I, c, res):
        k = z3.Int("k!some")
        out = []
        for lab, mask in (("GOOD", c["y"].b), ("BAD", lambda q: Not(c["y"].b(q)))):
            got = [(x, y) for _, x, y, kw in I.drawn if kw.get("label") == lab]
            if len(got) > 1:
                raise Unsupported("points of one kind are drawn in several sets")
            if got:
                out += self.mask(I, mask, lab)(*got[0])
            else:
                out.append((f"{lab}: left out only if there is none", forall([k], Implies(inr(k, c["n"]), Not(mask(k))))))
        if any(kw.get("label") not in ("GOOD", "BAD") for *_, kw in I.drawn):
            raise Unsupported("points of another kind")
        return out + self.shown(I, c) + same_arr(I, A(I, c["yr"]), c["y"], "the labels given are kept")


class GoodBad(Binary):
    """The same with the footprint of the good ones."""
    qual = M + ":_draw_good_bad_footprint"
    name = "_draw_good_bad_footprint"
    stubs = (Stub(M + ":_draw_footprint", lambda I, v: None),)

    def setup(self, I):
        v, c = super().setup(I)
        cls = I.repo.lookup(I.repo.module("instancespace.data.model"), "Footprint", I)
        c["fp"] = RecV(cls, {"polygon": SU(z3.Const("its_polygon", POLY))})
        return dict(v, good=c["fp"]), c

    def ensures(self, I, c, res):
        out = super().ensures(I, c, res)
        calls = I.calls.get("_draw_footprint", [])
        if len(calls) > 1:
            raise Unsupported("several footprints")
        k = z3.Int("k!some")
        if not calls:
            return out + [("the footprint is left out only if nothing is good", forall([k], Implies(inr(k, c["n"]), Not(c["y"].b(k)))))]
        ax = I.content(next(iter(f for f, _ in I.saved))).fields["ax"]
        return out + self.passed(I, calls[0], dict(footprint=c["fp"]), "the footprint") + [("the footprint is drawn on the figure", T(calls[0][0]["ax"] == ax))]


class FootprintPatch(Draw):
    """The outline of the polygon, or of each of its parts, once; nothing without a polygon."""
    qual = M + ":_draw_footprint"
    name = "_draw_footprint"

    def configure(self, I):
        super().configure(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)
        I.patch = lambda v, p, nd: self.patch(I, v, p, nd)

    def setup(self, I):
        I.calls.clear()
        I.geometry()
        cls = I.repo.lookup(I.repo.module("instancespace.data.model"), "Footprint", I)
        t = z3.Const("its_polygon", POLY)
        k = z3.Int("k!parts")
        ax = I.e.alloc(ObjC(AX, {}))
        I.tc = c = dict(t=t, ax=ax, part=None)
        I.e.assume(PARTS(t) >= 1)
        I.ghost = I.e.alloc(SetC(("int",), lambda q: z3.BoolVal(False)))
        I.single = I.e.alloc(ListC([]))
        return dict(ax=ax, footprint=RecV(cls, {"polygon": SU(t)}), colour=SU(z3.Const("colour", HUE)), alpha=value(I, "alpha", "float")), c

    def patch(self, I, v, p, nd):
        c, e = I.tc, I.e
        f = I.content(p)
        if not isinstance(f, ObjC) or f.cls.name != "matplotlib.Patch" or not isinstance(f.fields["of"], Ref):
            raise Unsupported("another patch")
        x = A(I, f.fields["of"])
        r = e.generic("r")
        whole = c["part"] is None
        t = c["t"] if whole else PART(c["t"], c["part"])
        n = lib_np.dim_t(x.shape[0])
        z, o = z3.IntVal(0), z3.IntVal(1)
        e.oblige("on the axes given", T(v == c["ax"]), nd, "call")
        e.oblige("the outline of the polygon or of the part", And(n == RING(t), forall([r], Implies(inr(r, RING(t)), And(
            f_same(to_f(x(r, z)), SF(RX(t, r))), f_same(to_f(x(r, o)), SF(RY(t, r))))))), nd, "call")
        if whole:
            e.oblige("a polygon of one part", Not(MULTI(c["t"])), nd, "call")
            I.call_method(I.single, "append", [1], {}, nd)
            return
        at, old = c["part"], e.get(I.ghost).mem
        e.oblige("a part is drawn once", Not(old(at)), nd, "call")
        e.heap[I.ghost.loc] = SetC(("int",), lambda q: Or(old(q), q == at))

    def inv(self, I, frame, k, entry):
        q = z3.Int("q!g")
        I.tc["part"] = k
        return [("the parts drawn", forall([q], I.e.get(I.ghost).mem(q) == And(0 <= q, q < k)))]

    def havoc(self, I, frame, k, entry):
        f = I.e.func("patched", [INT], z3.BoolSort())
        I.e.heap[I.ghost.loc] = SetC(("int",), lambda q: f(q))
        I.tc["part"] = k

    def modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars) | {"poly", "coords", "polygon"}, {I.ghost.loc}

    def ensures(self, I, c, res):
        q = z3.Int("q!e")
        t, none = c["t"], lib_geo.none(I)
        s = len(I.content(I.single).items)
        m = I.e.get(I.ghost).mem
        return [("a polygon of one part is drawn once", T(s == 1) == And(t != none, Not(MULTI(t))) if s < 2 else T(False)),
                ("every part is drawn", Implies(And(t != none, MULTI(t)), forall([q], m(q) == inr(q, PARTS(t)))))]


class Portfolio(Draw):
    """Every instance under the algorithm recorded for it, numbered from 1, or under None."""
    qual = M + ":_draw_portfolio_selections"
    name = "_draw_portfolio_selections"

    def configure(self, I):
        super().configure(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)
        I.points = lambda v, x, y, kw, nd: self.group(I, v, x, y, kw, nd)

    def setup(self, I):
        c = self.frame(I)
        m = nat(I, "algos", 1)
        p = arr1(I, "p", c["n"], "int")
        lab = seq_of_sort(I, "labels", m, STR)[0]
        lab = lib_np.new(I, (m,), I.seq_of(I.content(lab)).get, "object")
        c.update(m=m, p=A(I, p), pr=p, lab=A(I, lab), title=value(I, "title", "str"), at=None)
        I.ghost = I.e.alloc(SetC(("int",), lambda q: z3.BoolVal(False)))
        I.axes = []
        return dict(z=c["zr"], p=p, algorithm_labels=lab, title_label=c["title"], output=c["out"]), c

    def group(self, I, v, x, y, kw, nd):
        c, e = I.tc, I.e
        at = c["at"]
        if at is None:
            raise Unsupported("points are not drawn algorithm by algorithm")
        label = kw.get("label")
        for lab, g in coordinates(I, x, y, c["z"], *self.sel(I, lambda q: c["p"].i(q) == at), "the instances of the algorithm"):
            e.oblige(lab, g, nd, "call")
        if label == "None":
            e.oblige("no algorithm", at == 0, nd, "call")
        elif isinstance(label, SU):
            e.oblige("the name of the algorithm", And(1 <= at, at <= c["m"], Or(
                label.t == SPACED(c["lab"](at - 1).t), label.t == c["lab"](at - 1).t)), nd, "call")
        else:
            raise Unsupported("another label")
        old = e.get(I.ghost).mem
        e.oblige("they are drawn once", Not(old(at)), nd, "call")
        e.heap[I.ghost.loc] = SetC(("int",), lambda q: Or(old(q), q == at))
        I.axes.append(v)

    def some(self, I, t):
        return lib_np.count_of(I, I.tc["n"], lambda r: I.tc["p"].i(r) == t) != 0

    def inv(self, I, frame, k, entry):
        q = I.e.generic("q")
        I.tc["at"] = k
        return [("the algorithms drawn", forall([q], I.e.get(I.ghost).mem(q) == And(0 <= q, q < k, self.some(I, q))))]

    def havoc(self, I, frame, k, entry):
        f = I.e.func("group_drawn", [INT], z3.BoolSort())
        I.e.heap[I.ghost.loc] = SetC(("int",), lambda q: f(q))
        I.tc["at"] = k

    def modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars), {I.ghost.loc}

    def ensures(self, I, c, res):
        q = I.e.generic("q")
        m = I.e.get(I.ghost).mem
        figs = {f for f, _ in I.saved}
        return [("every algorithm with instances, and those without one, are drawn", forall([q], m(q) == And(0 <= q, q <= c["m"], self.some(I, q)))),
                *self.shown(I, c), ("what is drawn is on the figure", T(all(a == I.content(next(iter(figs))).fields["ax"] for a in I.axes) if figs else False)),
                *same_arr(I, A(I, c["pr"]), c["p"], "the selection given is kept")]


class PortfolioFootprint(Portfolio):
    """The same, each with its own footprint."""
    qual = M + ":_draw_portfolio_footprint"
    name = "_draw_portfolio_footprint"

    def configure(self, I):
        super().configure(I)
        I.contracts[M + ":_draw_footprint"] = Stub(M + ":_draw_footprint", self.footprint)

    def footprint(self, I, v):
        c, e = I.tc, I.e
        at = c["at"]
        fp = I.getattr(v["footprint"], "polygon")
        e.oblige("the footprint is that of the algorithm", And(1 <= at, at <= c["m"], fp.t == c["poly"](at - 1)), None, "call")
        old = e.get(I.ghost2).mem
        e.heap[I.ghost2.loc] = SetC(("int",), lambda q: Or(old(q), q == at))
        I.axes.append(v["ax"])

    def setup(self, I):
        v, c = super().setup(I)
        cls = I.repo.lookup(I.repo.module("instancespace.data.model"), "Footprint", I)
        poly = c["poly"] = z3.Function("polygon_of", INT, POLY)
        I.ghost2 = I.e.alloc(SetC(("int",), lambda q: z3.BoolVal(False)))
        best = I.e.alloc(SeqC(c["m"], lambda i: RecV(cls, {"polygon": SU(poly(i))})))
        del v["title_label"]
        return dict(v, best=best), c

    def shown(self, I, c, title=True):
        return super().shown(I, c, False)

    def inv(self, I, frame, k, entry):
        q = I.e.generic("q")
        return super().inv(I, frame, k, entry) + [("the footprints drawn", forall([q], I.e.get(I.ghost2).mem(q) == And(1 <= q, q < k, self.some(I, q))))]

    def havoc(self, I, frame, k, entry):
        super().havoc(I, frame, k, entry)
        f = I.e.func("footprint_drawn", [INT], z3.BoolSort())
        I.e.heap[I.ghost2.loc] = SetC(("int",), lambda q: f(q))

    def modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars), {I.ghost.loc, I.ghost2.loc}

    def ensures(self, I, c, res):
        q = I.e.generic("q")
        return super().ensures(I, c, res) + [("the footprint of every algorithm with instances is drawn", forall([q], I.e.get(I.ghost2).mem(q) == And(
            1 <= q, q <= c["m"], self.some(I, q))))]


class Sources(Draw):
    """Every instance under the name of its source, every source once."""
    qual = M + ":_draw_sources"
    name = "_draw_sources"

    def configure(self, I):
        super().configure(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)
        I.points = lambda v, x, y, kw, nd: self.group(I, v, x, y, kw, nd)
        unique = I.lib["numpy.unique"]

        def distinct(I, a, kw, nd):
            out = unique(I, a, kw, nd)
            I.calls.setdefault("unique", []).append((A(I, a[0]), A(I, out)))
            return out
        I.lib["numpy.unique"] = distinct

    def setup(self, I):
        c = self.frame(I)
        s = seq_of_sort(I, "source", c["n"], STR)[0]
        s = lib_np.new(I, (c["n"],), I.seq_of(I.content(s)).get, "object")
        c.update(s=A(I, s), sr=s, at=None)
        I.ghost = I.e.alloc(SetC(("int",), lambda q: z3.BoolVal(False)))
        I.axes = []
        return dict(z=c["zr"], s=s, output=c["out"]), c

    def labels(self, I):
        u = I.calls.get("unique", [])
        if len(u) != 1:
            raise Unsupported("the sources are found differently")
        for lab, g in same_arr(I, u[0][0], I.tc["s"], "the sources are those of the instances"):
            I.e.oblige(lab, g, None, "call")
        return u[0][1]

    def index(self, I, entry):
        """Which source the k-th round is about, and the round of a source."""
        u = self.labels(I)
        i = z3.Int("i!round")
        x = entry.elem(i)
        if isinstance(x, SU) and x.t.sort() == STR:
            I.e.oblige("the sources one after another", forall([i], Implies(inr(i, lib_np.dim_t(u.shape[0])), x.t == u(i).t)), None, "call")
            return lambda k: k, lambda j: j
        t = int_t(x)
        for at, back in ((lambda o: lambda k: k + o, lambda o: lambda j: j - o), (lambda o: lambda k: o - k, lambda o: lambda j: o - j)):
            o = z3.simplify(t - at(z3.IntVal(0))(i))
            if not any(v.eq(i) for v in z3.z3util.get_vars(o)):
                return at(o), back(o)
        raise Unsupported("the sources in another order")

    def group(self, I, v, x, y, kw, nd):
        c, e = I.tc, I.e
        if c["at"] is None:
            raise Unsupported("points are not drawn source by source")
        at, label, u = c["at"], kw.get("label"), self.labels(I)
        if not isinstance(label, SU):
            raise Unsupported("another label")
        e.oblige("the name of the source", label.t == u(at).t, nd, "call")
        for lab, g in coordinates(I, x, y, c["z"], *self.sel(I, lambda q: c["s"](q).t == u(at).t), "the instances of the source"):
            e.oblige(lab, g, nd, "call")
        old = e.get(I.ghost).mem
        e.oblige("they are drawn once", Not(old(at)), nd, "call")
        e.heap[I.ghost.loc] = SetC(("int",), lambda q: Or(old(q), q == at))
        I.axes.append(v)

    def inv(self, I, frame, k, entry):
        q = I.e.generic("q")
        to, back = self.index(I, entry)
        m = lib_np.dim_t(self.labels(I).shape[0])
        I.tc["at"] = to(k)
        return [("the sources drawn", forall([q], Implies(inr(q, m), I.e.get(I.ghost).mem(q) == And(0 <= back(q), back(q) < k))))]

    def havoc(self, I, frame, k, entry):
        f = I.e.func("source_drawn", [INT], z3.BoolSort())
        I.e.heap[I.ghost.loc] = SetC(("int",), lambda q: f(q))
        I.tc["at"] = self.index(I, entry)[0](k)

    def modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars), {I.ghost.loc}

    def ensures(self, I, c, res):
        q = I.e.generic("q")
        figs = {f for f, _ in I.saved}
        m = lib_np.dim_t(self.labels(I).shape[0])
        return [("every source is drawn", forall([q], Implies(inr(q, m), I.e.get(I.ghost).mem(q)))), *self.shown(I, c, False),
                ("what is drawn is on the figure", T(all(a == I.content(next(iter(figs))).fields["ax"] for a in I.axes) if figs else False)),
                *same_arr(I, A(I, c["sr"]), c["s"], "the sources given are kept")]


# ------------------------------------------------------------------ which data go where
FEATURE = {"distribution_feature_{}.png": "_draw_scatter"}
ALGO = {"distribution_performance_global_normalized_{}.png": "_draw_scatter", "distribution_performance_individual_normalized_{}.png": "_draw_scatter",
        "binary_performance_{}.png": "_draw_binary_performance", "binary_svm_{}.png": "_draw_binary_performance",
        "footprint_{}.png": "_draw_good_bad_footprint"}
ONCE = {"distribution_number_good_algos.png": "_draw_scatter", "distribution_portfolio.png": "_draw_portfolio_selections",
        "distribution_svm_portfolio.png": "_draw_portfolio_selections", "distribution_beta_score.png": "_draw_binary_performance",
        "footprint_portfolio.png": "_draw_portfolio_footprint", "distribution_sources.png": "_draw_sources"}


class Graphs(Tables):
    """Every file is drawn by the function, from the data and with the title which belong to its name."""
    qual = M + ":save_instance_space_graphs"
    name = "save_instance_space_graphs"
    uses = ()

    def configure(self, I):
        super().configure(I)
        canvas(I)
        for f in sorted({*FEATURE.values(), *ALGO.values(), *ONCE.values()}):
            I.contracts[f"{M}:{f}"] = Stub(f"{M}:{f}", lambda I, v, f=f: self.draw(I, f, v))
        for k in (0, 1):
            I.loop_invs[(self.qual, k)] = LoopInv(lambda I, *a, k=k: self.inv(I, k, *a), lambda I, *a, k=k: self.havoc(I, k, *a), self.modifies)

    def more(self, I, vars_, c):
        e, n, a = I.e, c["n"], c["a"]
        D = "instancespace.data.model"
        k = z3.Int("k!fp")
        cls = I.repo.lookup(I.repo.module(D), "Footprint", I)
        fp = {}
        for w in ("good", "best"):
            poly = c[w] = z3.Function("polygon_" + w, INT, POLY)
            fp[w] = e.alloc(SeqC(a, lambda i, poly=poly: RecV(cls, {"polygon": SU(poly(i))})))
        z = arr2(I, "z", n, z3.IntVal(2), finite=True)
        hat, sel = arr2(I, "y_hat", n, a, "bool"), arr1(I, "selection0", n, "int")
        given = e.branch(z3.Bool("sources_given"))
        src = lib_pd.series(I, names(I, "source", n)) if given else None
        opts = record(I, "instancespace.data.options", "TraceOptions", dict(use_sim="bool", purity="float"), "opt_")
        whole = record(I, "instancespace.data.options", "InstanceSpaceOptions", dict(trace=opts))
        data = vars_["data"]
        data = RecV(data.cls, dict(data.fields, s=src))
        c.update(z=z, hat=hat, sel=sel, fp=fp, src=src, sim=bool_t(opts.fields["use_sim"]), at=None)
        c["A"] = {k: A(I, v) for k, v in [*data.fields.items(), ("y_hat", hat), ("selection0", sel), ("z", z)] if isinstance(v, Ref) and I.is_arr(v)}
        c["R"] = {k: v for k, v in [*data.fields.items(), ("y_hat", hat), ("selection0", sel), ("z", z)] if k in c["A"]}
        I.made = {t: e.alloc(SetC(("int",), lambda q: z3.BoolVal(False))) for t in [*FEATURE, *ALGO]}
        I.done = []
        # the greatest and the smallest are of a table which is not empty
        e.assume(And(n >= 1, a >= 1, c["f"] >= 1))
        return dict(vars_, data=data, options=whole, pythia=record(I, D, "PythiaOut", dict(y_hat=hat, selection0=sel)),
                    pilot=record(I, D, "PilotOut", dict(z=z)), trace=record(I, D, "TraceOut", dict(good=fp["good"], best=fp["best"])))

    # -------- the loops over features and algorithms
    def inv(self, I, k, frame, at, entry):
        q = z3.Int("q!g")
        I.tc["at"] = (k, at)
        return [(f"{t}: those so far", forall([q], I.e.get(I.made[t]).mem(q) == And(0 <= q, q < at))) for t in (FEATURE, ALGO)[k]]

    def havoc(self, I, k, frame, at, entry):
        for t in (FEATURE, ALGO)[k]:
            f = I.e.func("graph_drawn", [INT], z3.BoolSort())
            I.e.heap[I.made[t].loc] = SetC(("int",), lambda q, f=f: f(q))
        I.tc["at"] = (k, at)

    def modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars) | {"filename", "algo_label"}, {r.loc for r in I.made.values()}

    # -------- one graph
    def draw(self, I, fn, v):
        name, part = self.placed(I, v["output"], None)
        c, e = I.tc, I.e
        ok = lambda goals: [e.oblige(f"{name}: {lab}", g, None, "call") for lab, g in goals]
        want = FEATURE.get(name) or ALGO.get(name) or ONCE.get(name)
        if want is None:
            raise Unsupported("another file: " + name)
        ok([("drawn by its own function", T(fn == want)), *same(I, v["z"], c["z"], "the coordinates of the instances")])
        if fn != want:
            return None
        if part is not None:
            if c["at"] is None:
                raise Unsupported("graphs are not drawn one by one")
            k, at = c["at"]
            if name not in (FEATURE, ALGO)[k]:
                raise Unsupported("a graph is drawn elsewhere")
            lab = A(I, c[("feat_labels", "algo_labels")[k]])(at)
            ok([("named after the one whose data it shows", part == lab.t), ("the title names it", self.names_it(v["title_label"], lab.t, name))])
            self.column(I, name, v, at, ok)
            old = e.get(I.made[name]).mem
            ok([("drawn once", Not(old(at)))])
            e.heap[I.made[name].loc] = SetC(("int",), lambda q: Or(old(q), q == at))
            return None
        self.single(I, name, v, ok)
        I.done.append(name)
        return None

    def names_it(self, title, lab, name):
        if not isinstance(title, SU):
            return T(False)
        t = title.t
        if z3.is_app(t) and t.decl().name().startswith("text:"):
            t = t.arg(0)
        return Or(t == SPACED(lab), t == lab)

    def vector(self, I, got, f, what, kind="f"):
        r = I.e.generic("r")
        x, n = A(I, got), I.tc["n"]
        eq = (lambda r: f_same(to_f(x(r)), to_f(f(r)))) if kind == "f" else (lambda r: x.b(r) == f(r)) if kind == "b" else (lambda r: x.i(r) == f(r))
        return [(f"{what}: one per instance", lib_np.dim_t(x.shape[0]) == n), (f"{what}: each its own", forall([r], Implies(inr(r, n), eq(r))))]

    def column(self, I, name, v, at, ok):
        c = I.tc
        X = c["A"]
        stat = lambda nm, x, **kw: I.lib["numpy." + nm](I, [x], kw, None)
        new = lambda shape, f, dt="float": lib_np.new(I, shape, f, dt)

        def scaled(x, lo, hi):
            return sym.f_div(sym.f_sub(to_f(x), to_f(lo)), sym.f_sub(to_f(hi), to_f(lo)))
        if name in FEATURE or "individual" in name:
            x, w = (X["x"], c["f"]) if name in FEATURE else (X["y_raw"], c["a"])
            base = new((c["n"], w), lambda i, j: x(i, j))
            lo, hi = A(I, stat("min", base, axis=0)), A(I, stat("max", base, axis=0))
            return ok(self.vector(I, v["x"], lambda r: scaled(x(r, at), lo(at), hi(at)), "its own values, from its smallest to its greatest"))
        if "global" in name:
            y = X["y_raw"]
            base = new((c["n"], c["a"]), lambda i, j: sym.f_add(to_f(y(i, j)), to_f(1)))
            logs = I.lib["numpy.log10"](I, [base], {}, None)
            lg = A(I, logs)
            lo, hi = stat("min", logs), stat("max", logs)
            return ok(self.vector(I, v["x"], lambda r: scaled(lg(r, at), lo, hi), "its logarithms, from the smallest to the greatest of all algorithms"))
        if name == "binary_performance_{}.png":
            return ok(self.vector(I, v["y_bin"], lambda r: X["y_bin"].b(r, at), "whether it is good", "b"))
        if name == "binary_svm_{}.png":
            return ok(self.vector(I, v["y_bin"], lambda r: X["y_hat"].b(r, at), "whether it is predicted good", "b"))
        ok(self.vector(I, v["y_bin"], lambda r: z3.If(c["sim"], X["y_hat"].b(r, at), X["y_bin"].b(r, at)), "whether it is (predicted) good", "b"))
        ok([("its own footprint", I.getattr(v["good"], "polygon").t == c["good"](at))])

    def single(self, I, name, v, ok):
        c = I.tc
        X = c["A"]
        own = lambda what: same(I, v["algorithm_labels"], lib_np.new(I, (c["a"],), lambda j: A(I, c["algo_labels"])(j), "object"), what)
        if name == "distribution_number_good_algos.png":
            ok(self.vector(I, v["x"], lambda r: sym.f_div(to_f(X["num_good_algos"](r)), to_f(SInt(c["a"]))), "the share of good algorithms"))
        elif name == "distribution_portfolio.png":
            ok(self.vector(I, v["p"], lambda r: X["p"].i(r), "the best algorithm", "i") + own("the names of the algorithms"))
        elif name == "distribution_svm_portfolio.png":
            ok(self.vector(I, v["p"], lambda r: X["selection0"].i(r), "the algorithm recommended", "i") + own("the names of the algorithms"))
        elif name == "distribution_beta_score.png":
            ok(self.vector(I, v["y_bin"], lambda r: X["beta"].b(r), "whether the instance is easy", "b"))
        elif name == "footprint_portfolio.png":
            ok(self.vector(I, v["p"], lambda r: z3.If(c["sim"], X["selection0"].i(r), X["p"].i(r)), "the (predicted) best algorithm", "i"))
            ok(own("the names of the algorithms") + same(I, v["best"], c["fp"]["best"], "the best footprints"))
        elif name == "distribution_sources.png":
            if c["src"] is None:
                raise Unsupported("sources")
            ok(same(I, v["s"], lib_np.new(I, (c["n"],), lambda j: A(I, lib_pd.vals(I, c["src"]))(j), "object"), "the sources of the instances"))

    def ensures(self, I, c, res):
        q = z3.Int("q!e")
        want = [n for n in ONCE if n != "distribution_sources.png" or c["src"] is not None]
        return self.complete(I, want) + [(f"{t}: one for each", forall([q], I.e.get(I.made[t]).mem(q) == inr(q, c["f" if t in FEATURE else "a"])))
                                         for t in I.made] + [
            g for k, r in c["R"].items() for g in same_arr(I, A(I, r), c["A"][k], f"{k} is kept")]


ALL = [Scatter(), Binary(), GoodBad(), FootprintPatch(), Portfolio(), PortfolioFootprint(), Sources(), Graphs()]
