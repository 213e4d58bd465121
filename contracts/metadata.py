"""Contracts of reading metadata (C11)."""
import z3

from contracts.common import Stub, Wiring
from pyvc import lib_pd, sym
from pyvc.lib_pd import ITEM, LOWER, STARTS, STR, TEXT
from pyvc.sym import And, Implies, LibV, Not, Or, PyRaise, RecV, Ref, SU, T, Unsupported
from pyvc.verify import A, Contract, forall, inr, nat

M = "instancespace.data.metadata"
INT = z3.IntSort()


def table(I, pre="", d=None):
    """A table of any size with columns of any names; c["..."] describe it."""
    n, d = nat(I, pre + "n", 1), d if d is not None else nat(I, pre + "d", 1)
    name, cell = z3.Function(pre + "name", INT, STR), z3.Function(pre + "cell", INT, INT, ITEM)
    numeric = z3.Function(pre + "numeric", INT, z3.BoolSort())
    names = I.lib_np.new(I, (d,), lambda k: SU(name(k)), "object")
    cells = I.lib_np.new(I, (n, d), lambda i, j: SU(cell(i, j)), "object")
    f = lib_pd.frame(I, cells, names, lambda j: numeric(j))
    return f, dict(n=n, d=d, name=name, cell=cell, numeric=numeric, frame=f, names=names, cells=cells)


class FromFrame(Contract):
    """The columns are divided by their names, in any letter case; values are taken over."""
    qual = M + ":Metadata.from_data_frame"
    name = "from_data_frame"

    def setup(self, I):
        f, c = table(I)
        enc = lambda s: I.enc(s, ("u", "Str", STR))
        is_ = lambda k, s: LOWER(c["name"](k)) == enc(s)
        u, v = z3.Ints("the_instances the_source")
        k = z3.Int("k!m")
        d = c["d"]
        # exactly one column of instances, at most one of sources
        I.e.assume(And(inr(u, d), is_(u, "instances"), z3.ForAll([k], Implies(And(inr(k, d), is_(k, "instances")), k == u))))
        c["has_source"] = z3.Bool("has_source")
        I.e.assume(Implies(c["has_source"], And(inr(v, d), is_(v, "source"))))
        I.e.assume(z3.ForAll([k], Implies(And(inr(k, d), is_(k, "source")), And(c["has_source"], k == v))))
        c.update(u=u, v=v, starts=lambda k, p: STARTS(LOWER(c["name"](k)), enc(p)))
        return dict(data=f), c

    def column(self, I, c, s, k, text, what):
        if not lib_pd.is_a(I, s, "Series"):
            return [(f"{what} are a column", T(False))]
        a = A(I, lib_pd.vals(I, s))
        i = I.e.generic("i")
        want = c["cell"](i, k)
        if text:
            want = z3.If(c["numeric"](k), TEXT(want), want)
        return [(f"{what}: one per row", a.shape[0] == c["n"]),
                (f"{what}: those of their column, in row order", forall([i], Implies(inr(i, c["n"]), a(i).t == want)))]

    def ensures(self, I, c, res):
        out = self.column(I, c, I.getattr(res, "instance_labels"), c["u"], True, "instance labels")
        src = I.getattr(res, "instance_sources")
        if src is None:
            out.append(("no sources only if there is no such column", Not(c["has_source"])))
        else:
            out.append(("sources only if there is such a column", c["has_source"]))
            out += self.column(I, c, src, c["v"], False, "sources")
        for what, pre, fn, fa in (("feature", "feature_", "feature_names", "features"), ("algorithm", "algo_", "algorithm_names", "algorithms")):
            names, cells = I.seq_of(I.content(I.getattr(res, fn))), A(I, I.getattr(res, fa))
            mask = lambda k, pre=pre: sym.mkbool(c["starts"](k, pre))
            # the positions of the columns with this prefix, increasing
            m, pos = I.lib_np.mask_sel(I, c["d"], mask)
            m = sym.int_t(m) if not z3.is_expr(m) else m
            i, j = I.e.generic("i"), I.e.generic("j")
            nm = names.n if z3.is_expr(names.n) else z3.IntVal(names.n)
            out += [(f"{what} names: one for each column with the prefix", nm == m),
                    (f"{what} columns: one for each column with the prefix", And(cells.shape[0] == c["n"], cells.shape[1] == m)),
                    (f"{what} names: those of the columns with the prefix, in table order", forall([j], Implies(
                        inr(j, m), names.get(j).t == c["name"](pos(j))))),
                    (f"{what} values: those of the columns with the prefix, aligned with the names", forall([i, j], Implies(
                        And(inr(i, c["n"]), inr(j, m)), cells(i, j).t == c["cell"](i, pos(j)))))]
        i, j = I.e.generic("i"), I.e.generic("j")
        now = I.content(c["frame"]).fields
        return out + [("the table is not changed", T(now["cells"] == c["cells"])),
                      ("its values are not changed", forall([i, j], Implies(And(inr(i, c["n"]), inr(j, c["d"])), A(I, now["cells"])(i, j).t == c["cell"](i, j))))]


ERRORS = ("builtins.FileNotFoundError", "builtins.OSError", "builtins.UnicodeDecodeError", "pandas.errors.ParserError",
          "pandas.errors.EmptyDataError")


class FromCsv(Wiring):
    """A file which cannot be read gives nothing; otherwise the metadata of its table."""
    qual = M + ":from_csv_file"
    name = "from_csv_file"
    stubs = (Stub(M + ":Metadata.from_data_frame", lambda I, v: I.e.alloc(sym.ObjC(LibV("spec.Metadata"), {}))),)

    def configure(self, I):
        super().configure(I)
        I.lib["builtins.print"] = lambda I, a, kw, nd: None

        def read(I, a, kw, nd):
            I.e.trusted("pandas.read_csv: the table of the file, or one of its documented errors")
            if kw or len(a) != 1:
                raise Unsupported("read_csv with options")
            for ex in ERRORS:
                if I.e.branch(z3.Bool("raises_" + ex.split(".")[-1])):
                    I.failed = True
                    raise PyRaise(LibV(ex), None, nd)
            I.read.append(a[0])
            I.table = table(I)[0]
            return I.table
        I.lib["pandas.read_csv"] = read

    def setup(self, I):
        I.calls.clear()
        I.failed, I.read, I.table = False, [], None
        from contracts.space import path as a_path
        text = SU(z3.Const("path", STR))
        path = a_path(I, text)
        path = text if I.e.branch(z3.Bool("path_is_text")) else path
        return dict(file_path=path), dict(path=path)

    def ensures(self, I, c, res):
        if I.failed:
            return [("a file which cannot be read gives nothing", T(res is None))]
        calls, out = self.called(I, "from_data_frame")
        if len(I.read) != 1:
            raise Unsupported("the file is not read once")
        return out + [("the table which is read is parsed", T(calls[0][0]["data"] is I.table or calls[0][0]["data"] == I.table)),
                      ("the file given is read", T(path_text(I, I.read[0]).eq(path_text(I, c["path"])))),
                      ("the result is what is parsed", T(isinstance(res, Ref) and res == calls[0][1]))]


def path_text(I, p):
    if isinstance(p, Ref):
        (p,) = I.content(p).fields["parts"]
    return p.t


ALL = [FromFrame(), FromCsv()]
