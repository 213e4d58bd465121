"""Contracts of the saved tables (C31, C32)."""
import z3

from contracts.common import Stub, Wiring, record, same, value
from pyvc import lib_geo, lib_np, lib_pd, sym
from pyvc.engine import usort
from pyvc.lib_geo import MULTI, PART, PARTS, POLY, RING, RX, RY
from pyvc.loops import LoopInv
from pyvc.sym import And, DictC, Implies, LibV, ListC, Not, ObjC, Or, PyRaise, RecV, Ref, SeqC, SetC, SF, SInt, SU, T, Unsupported, bool_t, f_le, f_same, int_t, mkbool, to_f
from pyvc.verify import A, Contract, arr1, arr2, forall, inr, nat, same_arr, seq_of_sort, term_eq

M = "instancespace._serialisers"
INT = z3.IntSort()


class Colour(Contract):
    """Every column of its own: from 0 to 255, the least 0, the greatest 255, never descending."""
    qual = M + ":_colour_scale"
    name = "_colour_scale"
    whole = False
    rank = 2

    def setup(self, I):
        n = nat(I, "rows", 1)
        d = nat(I, "cols", 1)
        x = arr2(I, "table", n, d, finite=True) if self.rank == 2 else arr1(I, "table", n, finite=True)
        return dict(data=x), dict(n=n, d=d, x=A(I, x), ref=x)

    def ensures(self, I, c, res):
        r, x, n, d = A(I, res), c["x"], c["n"], c["d"]
        i, k = I.e.generic("i"), I.e.generic("k")
        j = I.e.generic("j")
        l = I.e.generic("l") if self.whole else j
        two = self.rank == 2
        at = (lambda a, i, j: a(i, j)) if two else (lambda a, i, j: a(i))
        out = [("the shape is kept", And(r.shape[0] == n, *([r.shape[1] == d] if two else []))), ("whole numbers", T(r.c.dtype == "int"))]
        ok = And(inr(i, n), inr(j, d)) if two else inr(i, n)
        ok2 = And(inr(k, n), inr(l, d)) if two else inr(k, n)
        vs = [i, j] if two else [i]
        ws = ([k, l] if self.whole else [k]) if two else [k]
        val = lambda i, j: to_f(at(x, i, j)).val
        col = lambda i, j: int_t(at(r, i, j))
        le = lambda ext: forall(ws, Implies(ok2, ext(val(k, l), val(i, j))))
        least, most = le(lambda p, q: q <= p), le(lambda p, q: q >= p)
        strict = z3.Exists(ws, And(ok2, val(k, l) < val(i, j)))
        out += [("from 0 to 255", forall(vs, Implies(ok, And(0 <= col(i, j), col(i, j) <= 255)))),
                ("the least value gets 0", forall(vs, Implies(And(ok, least), col(i, j) == 0))),
                ("the greatest value gets 255", forall(vs, Implies(And(ok, most, strict), col(i, j) == 255))),
                ("a larger value never gets a smaller colour", forall(list(dict.fromkeys(vs + ws)), Implies(
                    And(ok, ok2, val(i, j) <= val(k, l)), col(i, j) <= col(k, l))))]
        return out + same_arr(I, A(I, c["ref"]), x, "the table given is kept")


class ColourG(Colour):
    """One scale for the whole table."""
    qual = M + ":_colour_scale_g"
    name = "_colour_scale_g"
    whole = True


class ColourG1(ColourG):
    """One scale for a vector."""
    name = "_colour_scale_g of a vector"
    rank = 1


# ------------------------------------------------------------------ files
STR = usort("Str")
PATH = LibV("pathlib.Path")
FMT = {}


def fmt(template, sort):
    """The text made from a template and one value (different values of one kind give different texts)."""
    key = (template, str(sort))
    if key not in FMT:
        FMT[key] = z3.Function(f"text:{template}:{sort}", sort, STR)
    return FMT[key]


class FileName:
    """A text with one part that is not known: what stands around it, and the part."""

    def __init__(self, template, part):
        self.template, self.part = template, part


def fstring(I, parts):
    var = [p for p in parts if not isinstance(p, str)]
    if len(var) != 1 or not isinstance(var[0], (SU, SInt)):
        raise Unsupported("a text of several unknown parts")
    t = var[0].t if isinstance(var[0], SU) else int_t(var[0])
    template = "".join(p if isinstance(p, str) else "{}" for p in parts)
    f = fmt(template, t.sort())
    return SU(f(t))


def template_of(x):
    """(template, part) of a text made by fstring; a plain text is its own template."""
    if isinstance(x, str):
        return x, None
    if isinstance(x, SU) and z3.is_app(x.t) and x.t.decl().name().startswith("text:") and x.t.num_args() == 1:
        return x.t.decl().name().split(":")[1], x.t.arg(0)
    raise Unsupported("name of a file")


def files(I):
    """Paths and written files."""
    I.fstring = lambda parts: fstring(I, parts)
    I.written = []
    made = lambda d, n: I.e.alloc(ObjC(PATH, {"dir": d, "name": n}))
    I.lib["method:pathlib.Path.__truediv__"] = I.lib["method:pathlib.Path.joinpath"] = lambda I, v, a, kw, nd: made(v, a[0])
    I.lib["method:pathlib.Path.is_dir"] = lambda I, v, a, kw, nd: mkbool(z3.Bool("is_a_directory"))

    def to_csv(I, v, a, kw, nd):
        where = a[0] if a else kw.get("path_or_buf")
        I.e.trusted("DataFrame.to_csv writes the cells under the column names, rows under their labels (index_label: name of the label column; "
                    "index=False: no labels)")
        I.to_csv(where, v, {k: w for k, w in kw.items() if k != "path_or_buf"}, nd)
    I.lib["method:pandas.DataFrame.to_csv"] = to_csv
    return made(None, None)


def texts(I, v):
    """The names in a list, a Series or an index."""
    c = I.content(v)
    if isinstance(c, ObjC) and "values" in c.fields:
        v = c.fields["values"]
    a = I.lib_np.arr(I, v)
    enc = lambda x: SU(I.enc(x, ("u", "Str", STR)))
    return I.e.alloc(SeqC(I.lib_np.dim_t(a.shape[0]), lambda k: enc(a.elem(k))))


class WriteArray(Contract):
    """The cells, each column under its name, each row under its label in a column named Row."""
    qual = M + ":_write_array_to_csv"
    name = "_write_array_to_csv"

    def configure(self, I):
        self.dir = files(I)

    def setup(self, I):
        I.written = []
        I.to_csv = lambda where, f, kw, nd: I.written.append((where, f, kw))
        n = nat(I, "rows")
        one = I.e.branch(z3.Bool("data_is_one_column"))
        d = z3.IntVal(1) if one else nat(I, "cols")
        x = arr1(I, "data", n) if one else arr2(I, "data", n, d)
        cols, rows = (seq_of_sort(I, k, m, STR)[0] for k, m in (("column_names", d), ("row_names", n)))
        cols, rows = lib_pd.series(I, cols), lib_pd.series(I, rows)
        w = I.e.alloc(ObjC(PATH, {"dir": None, "name": "file"}))
        return dict(data=x, column_names=cols, row_names=rows, filename=w), dict(n=n, d=d, x=A(I, x), one=one, cols=cols, rows=rows, w=w)

    def ensures(self, I, c, res):
        if len(I.written) != 1:
            return [("one file is written", T(False))]
        (where, f, kw), = I.written
        q = I.content(f).fields
        got, i, j = A(I, q["cells"]), I.e.generic("i"), I.e.generic("j")
        want = (lambda i, j: c["x"](i)) if c["one"] else (lambda i, j: c["x"](i, j))
        return [("the file asked for", T(where == c["w"])),
                ("as many rows and columns", And(got.shape[0] == c["n"], got.shape[1] == c["d"])),
                ("every cell in its place", forall([i, j], Implies(And(inr(i, c["n"]), inr(j, c["d"])), f_same(to_f(got(i, j)), to_f(want(i, j)))))),
                ("the label column is named Row", T(kw == {"index_label": "Row"})),
                ("rows have labels", T("index" in q))] \
            + same(I, texts(I, q["columns"]), texts(I, c["cols"]), "columns under their names") \
            + (same(I, texts(I, q["index"]), texts(I, c["rows"]), "rows under their labels") if "index" in q else [])

    def apply(self, I, f, v, node):
        e = I.e
        x = I.lib_np.arr(I, v["data"])
        cols = z3.IntVal(1) if len(x.shape) == 1 else I.lib_np.dim_t(x.shape[1])
        for nm, want in (("column_names", cols), ("row_names", I.lib_np.dim_t(x.shape[0]))):
            m = I.lib_np.arr(I, I.content(v[nm]).fields["values"] if isinstance(I.content(v[nm]), ObjC) else v[nm])
            e.oblige(f"_write_array_to_csv: as many {nm} as needed", I.lib_np.dim_t(m.shape[0]) == want, node, "call")
        I.to_table(v, node)
        return None


class BindLabels(Contract):
    """Boundary points are numbered from 1."""
    qual = M + ":_make_bind_labels"
    name = "_make_bind_labels"

    def configure(self, I):
        files(I)

    def setup(self, I):
        n, d = nat(I, "rows"), nat(I, "cols")
        x = arr2(I, "table", n, d)
        return dict(data=x), dict(n=n)

    def ensures(self, I, c, res):
        got, k = A(I, I.content(res).fields["values"]), I.e.generic("k")
        v = got(k)
        if not isinstance(v, SU):
            raise Unsupported("labels of another kind")
        return [("one label per row", got.shape[0] == c["n"]),
                ("numbered from 1", forall([k], Implies(inr(k, c["n"]), v.t == fmt("bnd_pnt_{}", INT)(k + 1))))]

    def apply(self, I, f, v, node):
        x = I.lib_np.arr(I, v["data"])
        return lib_pd.series(I, I.lib_np.new(I, x.shape[:1], lambda k: SU(fmt("bnd_pnt_{}", INT)(k + 1)), "object"))


# ------------------------------------------------------------------ the tables of a model
OFF = z3.Function("points_of_the_parts_before", POLY, INT, INT)


def names(I, k, n):
    return seq_of_sort(I, k, n, STR)[0]


class Tables(Wiring):
    """Every file holds the data of the model which belongs to its name."""
    uses = ("_write_array_to_csv", "_make_bind_labels")

    def configure(self, I):
        super().configure(I)
        self.dir = files(I)

    def data(self, I):
        n, f, a = nat(I, "instances"), nat(I, "features"), nat(I, "algorithms")
        raw = nat(I, "raw_features")
        x = dict(inst_labels=lib_pd.series(I, names(I, "inst", n)), feat_labels=names(I, "feat", f), algo_labels=names(I, "algo", a),
                 x=arr2(I, "d_x", n, f), y=arr2(I, "d_y", n, a), x_raw=arr2(I, "d_x_raw", n, raw), y_raw=arr2(I, "d_y_raw", n, a),
                 y_bin=arr2(I, "d_y_bin", n, a, "bool"), y_best=arr1(I, "d_y_best", n), p=arr1(I, "d_p", n, "int"),
                 num_good_algos=arr1(I, "d_num_good", n), beta=arr1(I, "d_beta", n, "bool"), s=None)
        return record(I, "instancespace.data.model", "Data", x), dict(n=n, f=f, a=a, raw=raw, **x)

    def setup(self, I):
        I.calls.clear()
        I.done = []
        d, c = self.data(I)
        I.tc = c
        c["out"] = I.e.alloc(ObjC(PATH, {"dir": None, "name": None}))
        c["before"] = {}
        I.to_csv = lambda *a: self.table(I, *a)
        I.to_table = lambda v, nd: self.array(I, v, nd)
        vars_ = self.more(I, dict(output_directory=c["out"], data=d), c)
        return vars_, c

    def placed(self, I, where, nd):
        q = I.content(where).fields if isinstance(where, Ref) else {}
        if "name" not in q:
            raise Unsupported("where a file is written")
        I.e.oblige("files go to the directory asked for", T(q["dir"] == I.tc["out"]), nd, "call")
        return template_of(q["name"])

    def array(self, I, v, nd):
        name, part = self.placed(I, v["filename"], nd)
        c = I.tc
        if part is not None:
            return self.outline(I, name, part, v, nd)
        want = self.want(I).get(name)
        if want is None:
            raise Unsupported("another file: " + name)
        data, cols, rows = want
        goals = same(I, v["data"], data, "the data") if isinstance(data, Ref) else data(I, v["data"])
        goals += same(I, texts(I, v["column_names"]), texts(I, cols), "the columns' names")
        if rows == "points":
            rows = lib_pd.series(I, I.lib_np.new(I, I.lib_np.arr(I, v["data"]).shape[:1], lambda k: SU(fmt("bnd_pnt_{}", INT)(k + 1)), "object"))
        goals += same(I, texts(I, v["row_names"]), texts(I, rows), "the rows' labels")
        for lab, g in goals:
            I.e.oblige(f"{name}: {lab}", g, nd, "call")
        I.done.append(name)

    def table(self, I, where, f, kw, nd):
        name, part = self.placed(I, where, nd)
        want = self.tables(I).get(name) if part is None else None
        if want is None:
            raise Unsupported("another file: " + name)
        for lab, g in want(I, f, kw):
            I.e.oblige(f"{name}: {lab}", g, nd, "call")
        I.done.append(name)

    def complete(self, I, want):
        return [(f"{n} is written", T(I.done.count(n) == 1)) for n in want]

    def raises(self, I, c, ex):
        return [("only when there is no such directory", And(T(ex.name == "ValueError"), Not(z3.Bool("is_a_directory")))),
                ("and nothing is written then", T(not I.done))]


class Web(Tables):
    """Colour tables of the tables they are named after."""
    qual = M + ":save_instance_space_for_web"
    name = "save_instance_space_for_web"

    def configure(self, I):
        super().configure(I)
        for k in ("_colour_scale", "_colour_scale_g"):
            s = Stub(f"{M}:{k}", lambda I, v, k=k: self.colours(I, v))
            I.contracts[s.qual] = s

        def colormap(I):
            n = nat(I, "colours_of_viridis", 1)
            return I.e.alloc(DictC({"viridis": SU(z3.Const("viridis", usort("Map")))}))
        I.lib["const:matplotlib.colormaps"] = colormap
        I.sort_method[("Map", "resampled")] = lambda I, t, a, kw: SU(z3.Function("resampled", t.sort(), INT, t.sort())(t, int_t(a[0])))
        I.sort_attr[("Map", "__dict__")] = lambda I, t: I.e.alloc(DictC({"colors": arr2(I, "colours", z3.IntVal(256), z3.IntVal(4), finite=True)}))

    def colours(self, I, v):
        a = I.lib_np.arr(I, v["data"])
        f = I.e.func("colour", [INT] * len(a.shape), INT)
        return I.lib_np.new(I, a.shape, lambda *i: SInt(f(*i)), "int")

    def more(self, I, vars_, c):
        idx = arr1(I, "idx", c["f"], "int")
        k = I.e.generic("k")
        I.e.assume(forall([k], Implies(inr(k, c["f"]), inr(int_t(A(I, idx)(k)), c["raw"]))))
        c["idx"] = A(I, idx)
        return dict(vars_, feat_sel=record(I, "instancespace.data.model", "FeatSel", dict(idx=idx)))

    def want(self, I):
        c = I.tc

        def coloured(fn, of):
            def goals(I, got):
                calls = [v for v, r in I.calls.get(fn, []) if r == got]
                if len(calls) != 1:
                    return [(f"coloured by {fn}", T(False))]
                return same(I, calls[0]["data"], of, f"the colours ({fn}) of the data") if isinstance(of, Ref) else of(I, calls[0]["data"])
            return goals

        def raw(I, got):
            g, i, j = A(I, got), I.e.generic("i"), I.e.generic("j")
            x = A(I, c["x_raw"])
            return [("as many rows and columns", And(g.shape[0] == c["n"], g.shape[1] == c["f"])),
                    ("the raw values of the features selected, in their order", forall([i, j], Implies(
                        And(inr(i, c["n"]), inr(j, c["f"])), f_same(to_f(g(i, j)), to_f(x(i, int_t(c["idx"](j))))))))]
        F, L, N = c["feat_labels"], c["algo_labels"], c["inst_labels"]
        s, g = "_colour_scale", "_colour_scale_g"
        ng = I.e.alloc(ListC(["NumGoodAlgos"]))
        return {"feature_raw_color.csv": (coloured(s, raw), F, N), "algorithm_raw_single_color.csv": (coloured(s, c["y_raw"]), L, N),
                "feature_process_color.csv": (coloured(s, c["x"]), F, N), "algorithm_process_single_color.csv": (coloured(s, c["y"]), L, N),
                "algorithm_raw_color.csv": (coloured(g, c["y_raw"]), L, N), "algorithm_process_color.csv": (coloured(g, c["y"]), L, N),
                "good_algos_color.csv": (coloured(g, c["num_good_algos"]), ng, N)}

    def tables(self, I):
        def colour_table(I, f, kw):
            q = I.content(f).fields
            g = A(I, q["cells"])
            return [("256 colours of three parts", And(g.shape[0] == 256, g.shape[1] == 3))] + same(
                I, texts(I, q["columns"]), texts(I, I.e.alloc(ListC(["R", "G", "B"]))), "the columns' names")
        return {"color_table.csv": colour_table}

    def ensures(self, I, c, res):
        return self.complete(I, [*self.want(I), *self.tables(I)])


def ring_total(t):
    """All outline points of a polygon or of its parts."""
    return z3.If(MULTI(t), OFF(t, PARTS(t)), RING(t))


class Csv(Tables):
    """The tables of the model; for every footprint that has a polygon its outline."""
    qual = M + ":save_instance_space_to_csv"
    name = "save_instance_space_to_csv"
    kinds = ("best", "good")

    def configure(self, I):
        super().configure(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)
        for k in (1, 2):
            I.loop_invs[(self.qual, k)] = LoopInv(self.part_inv, self.part_havoc, self.part_modifies)

    def more(self, I, vars_, c):
        e, n, a = I.e, c["n"], c["a"]
        p, q, k = z3.Const("p!o", POLY), z3.Const("q!o", POLY), z3.Int("k!o")
        e.axiom(z3.ForAll([p], OFF(p, 0) == 0, patterns=[OFF(p, 0)]), {OFF.name()})
        none = lib_geo.none(I)
        idx = arr1(I, "idx", c["f"], "int")
        e.assume(forall([k], Implies(inr(k, c["f"]), inr(int_t(A(I, idx)(k)), c["raw"]))))
        c["idx"] = A(I, idx)
        fp = {}
        for kind in self.kinds:
            poly = z3.Function("polygon_" + kind, INT, POLY)
            cls = I.repo.lookup(I.repo.module("instancespace.data.model"), "Footprint", I)
            fp[kind] = e.alloc(SeqC(a, lambda i, poly=poly: RecV(cls, {"polygon": SU(poly(i))})))
            c[kind] = poly
            e.assume(forall([k], PARTS(poly(k)) >= 1))
        z = arr2(I, "z", n, z3.IntVal(2))
        rows = {k: nat(I, k + "_rows") for k in ("edge", "ecorr")}
        zs = {k: arr2(I, "z_" + k, r, z3.IntVal(2)) for k, r in rows.items()}
        D = "instancespace.data.model"
        y_hat, sel = arr2(I, "y_hat", n, a, "bool"), arr1(I, "selection0", n, "int")

        def frame(nm, cols):
            r = nat(I, nm + "_lines")
            x = arr2(I, nm + "_cells", r, cols)
            return lib_pd.frame(I, x, names(I, nm + "_names", cols), lambda j: z3.BoolVal(True)), A(I, x), r
        sm = {}
        for nm, cols in (("trace", z3.IntVal(11)), ("pilot", nat(I, "pilot_cols", 1)), ("pythia", nat(I, "pythia_cols", 1))):
            f, x, r = frame(nm + "_summary", cols)
            sm[nm] = (f, x, r, cols, A(I, I.content(I.content(f).fields["columns"]).fields["values"]))
        given = e.branch(z3.Bool("cloister_given"))
        c.update(z=z, zs=zs, y_hat=y_hat, sel=sel, sm=sm, given=given, psum=e.branch(z3.Bool("pilot_summary_given")))
        I.wrote = {k: e.alloc(SetC(("int",), lambda t: z3.BoolVal(False))) for k in self.kinds}
        return dict(vars_, sifted_out=record(I, D, "SiftedOut", dict(idx=idx)), trace_out=record(I, D, "TraceOut", dict(
            good=fp["good"], best=fp["best"], summary=sm["trace"][0])), pilot_out=record(I, D, "PilotOut", dict(
                z=z, summary=sm["pilot"][0] if c["psum"] else None)), cloister_out=record(I, D, "CloisterOut", dict(
                    z_edge=zs["edge"], z_ecorr=zs["ecorr"])) if given else None,
            pythia_out=record(I, D, "PythiaOut", dict(y_hat=y_hat, selection0=sel, summary=sm["pythia"][0])))

    # -------- the loop over the algorithms
    def inv(self, I, frame, k, entry):
        t, c = z3.Int("t!w"), I.tc
        I.at = k
        return [(f"the outlines written ({n})", forall([t], I.e.get(I.wrote[n]).mem(t) == And(
            0 <= t, t < k, c[n](t) != lib_geo.none(I)))) for n in self.kinds]

    def havoc(self, I, frame, k, entry):
        for n in self.kinds:
            f = I.e.func("wrote", [INT], z3.BoolSort())
            I.e.heap[I.wrote[n].loc] = SetC(("int",), lambda t, f=f: f(t))
        I.at = k

    def modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars) | {"best", "good", "boundaries", "x", "y", "boundary_coords", "algorithm_labels", "poly"}, {
            r.loc for r in I.wrote.values()}

    # -------- the loop over the parts of a polygon
    def part_inv(self, I, frame, m, entry):
        c = I.tc
        t = self.polygon(I, entry)
        b = frame.vars.get("boundaries")
        if not isinstance(b, Ref):
            raise Unsupported("where the outline is collected")
        x = A(I, b)
        q, r = z3.Ints("q!p r!p")
        P = lambda q: PART(t, q)
        return [("as many points as the parts before have", And(x.shape[0] == 1 + OFF(t, m), x.shape[1] == 2)),
                ("the points of the parts before come first", forall([q], Implies(And(0 <= q, q < m), And(0 <= OFF(t, q), OFF(t, q) + RING(P(q)) <= OFF(t, m))))),
                ("every point in its place", forall([q, r], Implies(And(0 <= q, q < m, 0 <= r, r < RING(P(q))), And(
                    f_same(to_f(x(1 + OFF(t, q) + r, z3.IntVal(0))), SF(RX(P(q), r))),
                    f_same(to_f(x(1 + OFF(t, q) + r, z3.IntVal(1))), SF(RY(P(q), r)))))))]

    def polygon(self, I, entry):
        """The polygon whose parts the loop goes over."""
        if entry.of is None:
            raise Unsupported("the polygon whose parts are collected")
        return entry.of

    def part_havoc(self, I, frame, m, entry):
        t = self.polygon(I, entry)
        e = I.e
        f = e.func("collected", [INT, INT], z3.RealSort())
        n = e.const("collected_rows", INT)
        e.assume(n >= 0)
        frame.vars["boundaries"] = I.lib_np.new(I, (n, 2), lambda i, j: SF(f(i, j)), "float")
        e.assume(OFF(t, z3.simplify(m + 1)) == OFF(t, m) + RING(PART(t, m)))     # the definition

    def part_modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars) | {"boundaries", "x", "y", "boundary_coords", "poly"}, set()

    def outline(self, I, name, part, v, nd):
        kind = [k for k in self.kinds if name == "footprint_{}_" + k + ".csv"]
        if not kind:
            raise Unsupported("another file: " + name)
        kind, e, c = kind[0], I.e, I.tc
        t = c[kind](I.at)
        x = A(I, v["data"])
        total = ring_total(t)
        q, r = z3.Ints("q!ol r!ol")
        lab = A(I, c["algo_labels"])(I.at)
        pt = lambda i, p, r: And(f_same(to_f(x(i, z3.IntVal(0))), SF(RX(p, r))), f_same(to_f(x(i, z3.IntVal(1))), SF(RY(p, r))))
        P = lambda q: PART(t, q)
        goals = [("the algorithm is the one the file is named after", part == lab.t),
                 ("all points of the outline but the last, which closes it", And(x.shape[0] == total - 1, x.shape[1] == 2)),
                 ("the points of a polygon in order", Implies(Not(MULTI(t)), forall([r], Implies(And(0 <= r, r < total - 1), pt(r, t, r))))),
                 ("the points of all parts in order", Implies(MULTI(t), forall([q, r], Implies(
                     And(0 <= q, q < PARTS(t), 0 <= r, r < RING(P(q)), OFF(t, q) + r < total - 1), pt(OFF(t, q) + r, P(q), r)))))]
        goals += same(I, texts(I, v["column_names"]), texts(I, e.alloc(ListC(["z_1", "z_2"]))), "the columns' names")
        rows = lib_pd.series(I, I.lib_np.new(I, I.lib_np.arr(I, v["data"]).shape[:1], lambda k: SU(fmt("bnd_pnt_{}", INT)(k + 1)), "object"))
        goals += same(I, texts(I, v["row_names"]), texts(I, rows), "the rows' labels")
        goals.append(("it is written once", Not(e.get(I.wrote[kind]).mem(I.at))))
        for lab, g in goals:
            e.oblige(f"{name}: {lab}", g, nd, "call")
        old, at = e.get(I.wrote[kind]).mem, I.at
        e.heap[I.wrote[kind].loc] = SetC(("int",), lambda t: Or(old(t), t == at))

    # -------- the other tables
    def want(self, I):
        c = I.tc
        F, L, N = c["feat_labels"], c["algo_labels"], c["inst_labels"]
        one = lambda s: I.e.alloc(ListC([s]))
        Z = lambda: I.e.alloc(ListC(["z_1", "z_2"]))

        def raw(I, got):
            g, i, j = A(I, got), I.e.generic("i"), I.e.generic("j")
            x = A(I, c["x_raw"])
            return [("as many rows and columns", And(g.shape[0] == c["n"], g.shape[1] == c["f"])),
                    ("the raw values of the features selected, in their order", forall([i, j], Implies(
                        And(inr(i, c["n"]), inr(j, c["f"])), f_same(to_f(g(i, j)), to_f(x(i, int_t(c["idx"](j))))))))]
        out = {"coordinates.csv": (c["z"], Z(), N), "feature_raw.csv": (raw, F, N), "feature_process.csv": (c["x"], F, N),
               "algorithm_raw.csv": (c["y_raw"], L, N), "algorithm_process.csv": (c["y"], L, N), "algorithm_bin.csv": (c["y_bin"], L, N),
               "good_algos.csv": (c["num_good_algos"], one("NumGoodAlgos"), N), "beta_easy.csv": (c["beta"], one("IsBetaEasy"), N),
               "portfolio.csv": (c["p"], one("Best_Algorithm"), N), "algorithm_svm.csv": (c["y_hat"], L, N),
               "portfolio_svm.csv": (c["sel"], one("Best_Algorithm"), N)}
        if c["given"]:
            out.update({"bounds.csv": (c["zs"]["edge"], Z(), "points"), "bounds_prunned.csv": (c["zs"]["ecorr"], Z(), "points")})
        return out

    def tables(self, I):
        c = I.tc

        def summary(nm, key, pick=None):
            def goals(I, f, kw):
                _, x, r, cols, nms = c["sm"][nm]
                q = I.content(f).fields
                g, gn = A(I, q["cells"]), A(I, I.content(q["columns"]).fields["values"])
                i, j = I.e.generic("i"), I.e.generic("j")
                e = I.e
                enc = lambda s: I.enc(s, ("u", "Str", STR))
                src = (lambda j: j) if pick is None else (lambda j: z3.Sum(*[z3.If(j == p, v, 0) for p, v in enumerate(pick)]))
                m = cols if pick is None else z3.IntVal(len(pick))
                old = lambda j: enc(nms(src(j)))
                return [("as many rows and columns", And(g.shape[0] == r, g.shape[1] == m)),
                        ("every cell of the summary in its place", forall([i, j], Implies(And(inr(i, r), inr(j, m)), f_same(to_f(g(i, j)), to_f(x(i, src(j))))))),
                        ("columns keep their names but the first, which becomes Row", forall([j], Implies(inr(j, m), enc(gn(j)) == z3.If(
                            old(j) == e.lit(STR, key), e.lit(STR, "Row"), old(j))))),
                        ("no row labels", T(kw == {"index": False}))]
            return goals
        out = {"footprint_performance.csv": summary("trace", "Algorithm", [0, 2, 4, 5, 7, 9, 10]), "svm_table.csv": summary("pythia", "Algorithms")}
        if c["psum"]:
            out["projection_matrix.csv"] = summary("pilot", 0)
        return out

    def ensures(self, I, c, res):
        t = z3.Int("t!e")
        return self.complete(I, [*self.want(I), *self.tables(I)]) + [
            (f"the outline of every footprint with a polygon is written ({n})", forall([t], Implies(
                And(0 <= t, t < c["a"], c[n](t) != lib_geo.none(I)), I.e.get(I.wrote[n]).mem(t)))) for n in self.kinds] + [
            g for nm in ("trace", "pilot", "pythia") for g in self.kept(I, c, nm)]

    def kept(self, I, c, nm):
        """The model's own tables are not changed."""
        f, x, r, cols, nms = c["sm"][nm]
        q = I.content(f).fields
        g, gn = A(I, q["cells"]), A(I, I.content(q["columns"]).fields["values"])
        i, j = I.e.generic("i"), I.e.generic("j")
        enc = lambda s: I.enc(s, ("u", "Str", STR))
        return [(f"the {nm} summary of the model is kept", And(g.shape[0] == r, g.shape[1] == cols, forall([i, j], Implies(
            And(inr(i, r), inr(j, cols)), f_same(to_f(g(i, j)), to_f(x(i, j))))), forall([j], Implies(inr(j, cols), enc(gn(j)) == enc(nms(j))))))]


ALL = [Colour(), ColourG(), ColourG1(), WriteArray(), BindLabels(), Web(), Csv()]
