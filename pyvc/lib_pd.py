"""Trusted contracts of the few pandas operations the code uses: a Series is a column of values."""
from __future__ import annotations

import z3

from .engine import usort
from .sym import (And, ArrC, FALSE, Implies, LibV, ListC, ObjC, Opaque, Ref, SInt, SU, Unsupported, ViewC,
                  mkbool)

SER = LibV("pandas.Series")


def series(I, values, index=None):
    return I.e.alloc(ObjC(SER, {"values": values, "index": index}))


def vals(I, v):
    return I.content(v).fields["values"]


def install(I):
    L = I.lib

    def getitem(I, v, args, kw, node):
        k = args[0]
        if isinstance(k, Ref) and isinstance(I.content(k), ObjC) and I.content(k).cls.name == "pandas.Series":
            k = vals(I, k)
        if isinstance(k, (Ref,)) and isinstance(I.content(k), (ArrC, ViewC)):
            a = I.lib_np.arr(I, k)
            if a.dtype == "bool":
                I.e.trusted("pandas.Series boolean-mask indexing selects rows in order")
                return series(I, I.lib_np.getitem(I, vals(I, v), k, node))
        raise Unsupported("label based Series indexing")
    L["method:pandas.Series.__getitem__"] = getitem
    L["len:pandas.Series"] = lambda I, v: I.lib_np.dimval(I.lib_np.arr(I, vals(I, v)).shape[0])
    L["iter:pandas.Series"] = lambda I, v: I.lib_py.iter_of(I, vals(I, v))
    for nm in ("to_numpy",):
        L[f"method:pandas.Series.{nm}"] = lambda I, v, a, kw, nd: vals(I, v)
    L["attr:pandas.Series.shape"] = lambda I, v: I.getattr(vals(I, v), "shape")
    L["attr:pandas.Series.values"] = lambda I, v: vals(I, v)
    L["method:pandas.Series.tolist"] = lambda I, v, a, kw, nd: L["ndarray.tolist"](I, [vals(I, v)], {}, nd)
    L["method:pandas.Series.copy"] = lambda I, v, a, kw, nd: series(I, L["ndarray.copy"](I, [vals(I, v)], {}, nd))
    L["method:pandas.Series.reset_index"] = lambda I, v, a, kw, nd: v

    def mk(I, a, kw, nd):
        src = a[0] if a else kw.get("data")
        arr = I.lib_np.arr(I, src)
        return series(I, I.lib_np.new(I, arr.shape, arr.elem, arr.dtype))
    L["pandas.Series"] = mk

    install_frames(I)


FRAME, INDEX, STRS, LOC = (LibV("pandas." + n) for n in ("DataFrame", "Index", "StringMethods", "_LocIndexer"))
STR = usort("Str")
LOWER = z3.Function("str_lower", STR, STR)
STARTS = z3.Function("str_startswith", STR, STR, z3.BoolSort())
ITEM = usort("Item")
TEXT = z3.Function("text_of", ITEM, ITEM)


def frame(I, cells, columns, numeric):
    """A table: cells (rows x columns), names of the columns, and which columns are numeric (of column numbers)."""
    return I.e.alloc(ObjC(FRAME, {"cells": cells, "columns": I.e.alloc(ObjC(INDEX, {"values": columns})), "numeric": numeric}))


def is_a(I, v, *names):
    return isinstance(v, Ref) and isinstance(I.content(v), ObjC) and isinstance(I.content(v).cls, LibV) and \
        I.content(v).cls.name in ["pandas." + n for n in names]


def install_frames(I):
    L, e = I.lib, I.e
    fld = lambda v, k: I.content(v).fields[k]
    enc = lambda x: I.enc(x, ("u", "Str", STR))
    lower = lambda x: x.lower() if isinstance(x, str) else SU(LOWER(x.t))

    def starts(x, p):
        if isinstance(x, str) and isinstance(p, str):
            return x.startswith(p)
        ps = p if isinstance(p, tuple) else (p,)
        from .sym import Or
        return mkbool(Or(*[STARTS(enc(x), enc(q)) for q in ps]))

    def index(values):
        return e.alloc(ObjC(INDEX, {"values": values}))
    L["attr:pandas.Index.str"] = lambda I, v: e.alloc(ObjC(STRS, {"of": v}))

    def strm(name, f, dtype):
        def h(I, v, a, kw, nd):
            of = fld(v, "of")
            e.trusted(f"pandas string method {name}: elementwise, as for str (no missing names)")
            r = I.lib_np.map1(I, fld(of, "values"), lambda x: f(x, *a), dtype=dtype)
            if dtype == "bool":
                return r
            return series(I, r) if is_a(I, of, "Series") else index(r)
        L[f"method:pandas.StringMethods.{name}"] = h
    strm("lower", lower, "object")
    strm("startswith", starts, "bool")
    L["attr:pandas.Series.str"] = lambda I, v: e.alloc(ObjC(STRS, {"of": v}))
    I.sort_method[("Str", "lower")] = lambda I, t, a, kw: SU(LOWER(t))
    I.sort_method[("Str", "casefold")] = lambda I, t, a, kw: SU(LOWER(t))
    I.sort_method[("Str", "startswith")] = lambda I, t, a, kw: starts(SU(t), a[0])

    def elementwise(name, neg):
        def h(I, v, a, kw, nd):
            from .sym import Not
            other = a[0]
            if not isinstance(other, (str, SU)):
                raise Unsupported("comparison of columns with " + repr(other))
            return I.lib_np.map1(I, fld(v, "values"), lambda x: mkbool(
                Not(I.tb(I.eq_t(x, other, nd))) if neg else I.tb(I.eq_t(x, other, nd))), dtype="bool")
        L[f"method:pandas.Index.{name}"] = h
    elementwise("__eq__", False)
    elementwise("__ne__", True)
    for nm in ("tolist", "to_list"):
        L[f"method:pandas.Index.{nm}"] = lambda I, v, a, kw, nd: L["ndarray.tolist"](I, [fld(v, "values")], {}, nd)
    L["attr:pandas.Index.values"] = lambda I, v: fld(v, "values")
    L["method:pandas.Index.to_numpy"] = lambda I, v, a, kw, nd: fld(v, "values")
    L["len:pandas.Index"] = lambda I, v: I.lib_np.dimval(I.lib_np.arr(I, fld(v, "values")).shape[0])
    L["iter:pandas.Index"] = lambda I, v: I.lib_py.iter_of(I, fld(v, "values"))
    L["attr:pandas.Index.size"] = lambda I, v: I.lib_np.dimval(I.lib_np.arr(I, fld(v, "values")).shape[0])

    L["attr:pandas.DataFrame.loc"] = lambda I, v: e.alloc(ObjC(LOC, {"of": v}))

    def columns_of(v, mask, nd):
        if not I.lib_np.is_mask(I, mask):
            raise Unsupported("label based selection of columns")
        e.trusted("DataFrame.loc with a boolean mask: the columns it marks, in order, with all rows")
        from .sym import Slice
        m = I.lib_np.arr(I, mask)
        n, pos = I.lib_np.mask_sel(I, m.shape[0], lambda j: m.elem(j), nd)
        num = fld(v, "numeric")
        names = I.lib_np.getitem(I, fld(fld(v, "columns"), "values"), mask, nd)
        cells = I.lib_np.getitem(I, fld(v, "cells"), (Slice(None, None, None), mask), nd)
        return frame(I, cells, names, lambda j: num(pos(j)))

    def loc(I, v, args, kw, node):
        from .sym import Slice
        k = args[0]
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Slice) and k[0].lo is None and k[0].hi is None):
            raise Unsupported("loc other than of whole columns")
        return columns_of(fld(v, "of"), k[1], node)
    L["method:pandas._LocIndexer.__getitem__"] = loc
    L["method:pandas.DataFrame.to_numpy"] = lambda I, v, a, kw, nd: fld(v, "cells") if not a and not kw else I.unsup(nd, "to_numpy with options")
    L["attr:pandas.DataFrame.values"] = lambda I, v: fld(v, "cells")
    L["attr:pandas.DataFrame.shape"] = lambda I, v: I.getattr(fld(v, "cells"), "shape")

    def column(v, j):
        a = I.lib_np.arr(I, fld(v, "cells"))
        s = series(I, I.lib_np.new(I, a.shape[:1], lambda i: a.elem(i, j), "object"))
        c = I.content(s)
        e.put(s, ObjC(c.cls, dict(c.fields, numeric=fld(v, "numeric")(j))))
        return s

    def squeeze(I, v, a, kw, nd):
        axis = a[0] if a else kw.get("axis")
        if axis not in (None, "columns", 1):
            raise Unsupported("squeeze of rows")
        s = I.lib_np.arr(I, fld(v, "cells")).shape
        t = [z3.IntVal(x) if isinstance(x, int) else x for x in s]
        e.trusted("DataFrame.squeeze: one column becomes a Series; without an axis one row of it becomes a value")
        if not e.branch(t[1] == 1):
            if axis is None and e.branch(t[0] == 1):
                raise Unsupported("squeeze of a single row")
            return v
        if axis is None and e.branch(t[0] == 1):
            return I.lib_np.arr(I, fld(v, "cells")).elem(z3.IntVal(0), z3.IntVal(0))
        return column(v, z3.IntVal(0))
    L["method:pandas.DataFrame.squeeze"] = squeeze

    def iloc_col(I, v, args, kw, nd):
        k = args[0]
        from .sym import Slice
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Slice) and k[0].lo is None and k[0].hi is None and isinstance(k[1], int):
            a = I.lib_np.arr(I, fld(fld(v, "of"), "cells"))
            return column(fld(v, "of"), I.norm_index(k[1], a.shape[1], nd))
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Slice) and k[0].lo is None and k[0].hi is None \
                and isinstance(k[1], Ref) and "columns" in I.content(fld(v, "of")).fields:
            of = fld(v, "of")
            e.trusted("DataFrame.iloc with a list of positions: those columns, in that order, as a table of its own")
            cells = I.lib_np.getitem(I, fld(of, "cells"), (k[0], k[1]), nd)
            names = I.lib_np.getitem(I, fld(fld(of, "columns"), "values"), k[1], nd)
            return frame(I, cells, names, lambda j: z3.BoolVal(True))
        raise Unsupported("iloc other than of one column")
    L["attr:pandas.DataFrame.iloc"] = lambda I, v: e.alloc(ObjC(LibV("pandas._iLocIndexer"), {"of": v}))
    L["method:pandas._iLocIndexer.__getitem__"] = iloc_col

    def numeric(I, a, kw, nd):
        x = a[0]
        if is_a(I, x, "Series"):
            return mkbool(I.content(x).fields["numeric"]) if "numeric" in I.content(x).fields else I.unsup(nd, "type of a computed column")
        if isinstance(x, SU):
            return False
        raise Unsupported("is_numeric_dtype of something else")
    L["pandas.api.types.is_numeric_dtype"] = numeric

    def astype(I, v, a, kw, nd):
        if not (isinstance(a[0], LibV) and a[0].name == "builtins.str"):
            raise Unsupported("astype other than to text")
        return series(I, I.lib_np.map1(I, vals(I, v), lambda x: SU(TEXT(x.t)), dtype="object"))
    L["method:pandas.Series.astype"] = astype

    def table(I, a, kw, nd):
        """A table made from named columns."""
        from .sym import DictC, SeqC
        src = a[0] if a else kw.get("data")
        if isinstance(src, Ref) and isinstance(I.content(src), (ArrC, ViewC, ListC, SeqC)) and not set(kw) - {"data", "columns", "index"} and len(a) == 1:
            x = I.lib_np.arr(I, src)
            if len(x.shape) == 1:
                x = ArrC((x.shape[0], 1), lambda i, j, x=x: x.elem(i), x.dtype)
            e.trusted("pandas.DataFrame of a table: its cells, with the names given or numbers for its columns and rows")
            cells = I.lib_np.new(I, x.shape, x.elem, x.dtype)
            names = kw.get("columns")
            if names is None:
                names = I.lib_np.new(I, (x.shape[1],), lambda j: SInt(j), "int")
            else:
                m = I.lib_np.arr(I, names)
                I.lib_np.check_dim(I, m.shape[0], x.shape[1], nd, "one name per column")
                names = I.lib_np.new(I, (x.shape[1],), m.elem, m.dtype)
            f = frame(I, cells, names, lambda j: z3.BoolVal(True))
            if kw.get("index") is not None:
                m = I.lib_np.arr(I, kw["index"])
                I.lib_np.check_dim(I, m.shape[0], x.shape[0], nd, "one label per row")
                c = I.content(f)
                e.put(f, ObjC(c.cls, dict(c.fields, index=I.lib_np.new(I, m.shape, m.elem, m.dtype))))
            return f
        if set(kw) - {"data"} or len(a) > 1:
            raise Unsupported("options of pandas.DataFrame")
        if not (isinstance(src, Ref) and isinstance(I.content(src), DictC)):
            raise Unsupported("table made from something else than named columns")
        cols = dict(I.content(src).items)
        arrs = {k: I.lib_np.arr(I, v) for k, v in cols.items()}
        first = None
        for k, x in arrs.items():
            if len(x.shape) != 1:
                raise Unsupported("a column which is a table")
            first = x.shape[0] if first is None else first
            I.lib_np.check_dim(I, x.shape[0], first, nd, "columns of one length")
        e.trusted("pandas.DataFrame of named columns: the columns, in order")
        return e.alloc(ObjC(FRAME, {"named": {k: I.lib_np.new(I, x.shape, x.elem, x.dtype) for k, x in arrs.items()}}))
    L["pandas.DataFrame"] = table

    def replace(I, v, a, kw, nd):
        from .sym import DictC
        c = I.content(v).fields
        m = I.content(a[0]) if len(a) == 1 and isinstance(a[0], Ref) else None
        if "named" not in c or kw or not isinstance(m, DictC) or len(m.items) != 1:
            raise Unsupported("replace other than of missing values in a table")
        (k, w), = m.items.items()
        if k != ("not a number",):
            raise Unsupported("replacement of other values in a table")
        e.trusted("DataFrame.replace({nan: w}): missing values become w, everything else stays")
        return e.alloc(ObjC(FRAME, {"named": c["named"], "missing": w}))
    L["method:pandas.DataFrame.replace"] = replace

    def rename(I, v, a, kw, nd):
        from .sym import DictC, MapC
        m = kw.get("columns")
        c = I.content(v).fields
        if a or set(kw) - {"columns", "inplace"} or not isinstance(m, Ref) or not isinstance(I.content(m), (MapC, DictC)) or "columns" not in c:
            raise Unsupported("rename other than of all columns")
        if isinstance(I.content(m), DictC):
            new = I.content(m).items
            old = I.lib_np.arr(I, fld(c["columns"], "values"))
            e.trusted("DataFrame.rename: the columns with these names get the new ones, everything else stays")

            def name(x):
                r = old.elem(x)
                for k, w in new.items():
                    # a name which is not a text is a literal different from every text
                    hit = I.tb(I.eq_t(old.elem(x), k, nd)) if isinstance(k, str) else enc(old.elem(x)) == e.lit(STR, k)
                    r = I.ite(hit, SU(enc(w)) if isinstance(w, str) else w, r)
                return r
            f = e.alloc(ObjC(FRAME, dict(c, columns=index(I.lib_np.new(I, old.shape, name, "object")))))
            if kw.get("inplace") is True:
                e.put(v, I.content(f))
                return None
            return f
        mc = I.content(m)
        old = I.lib_np.arr(I, fld(c["columns"], "values"))
        j = I.e.generic("j")
        key = lambda j: I.enc(old.elem(j), mc.kt)
        e.oblige("every column gets a name", z3.ForAll([j], Implies(And(0 <= j, j < I.lib_np.dim_t(old.shape[0])), mc.dom(key(j)))), nd, kind="pre")
        names = I.lib_np.new(I, old.shape, lambda j: mc.get(key(j)), "object")
        f = frame(I, c["cells"], names, c["numeric"])
        if kw.get("inplace") is True:
            e.put(v, I.content(f))
            return None
        return f
    L["method:pandas.DataFrame.rename"] = rename
    L["attr:pandas.DataFrame.columns"] = lambda I, v: fld(v, "columns")

    def at_index(I, v, args, kw, nd):
        k = args[0]
        x = I.lib_np.arr(I, fld(v, "values"))
        return x.elem(I.norm_index(k, x.shape[0], nd)) if isinstance(k, (int, SInt)) else I.unsup(nd, "selection from an index")
    L["method:pandas.Index.__getitem__"] = at_index

    def join(I, v, a, kw, nd):
        if kw or len(a) != 1 or not is_a(I, a[0], "DataFrame"):
            raise Unsupported("options of join")
        p, q = I.content(v).fields, I.content(a[0]).fields
        if "cells" not in p or "cells" not in q or "index" in p or "index" in q:
            raise Unsupported("join of other tables")
        x, y = (I.lib_np.arr(I, f["cells"]) for f in (p, q))
        I.lib_np.check_dim(I, x.shape[0], y.shape[0], nd, "as many rows in both tables")
        e.trusted("DataFrame.join of two tables with numbered rows: side by side")
        return e.alloc(ObjC(FRAME, {"joined": (v, a[0])}))
    L["method:pandas.DataFrame.join"] = join

    def concat(I, a, kw, nd):
        fs = I.concrete_iter(a[0]) if len(a) == 1 else []
        if set(kw) - {"axis"} or kw.get("axis") not in (1, "columns") or len(fs) != 2 or not all(is_a(I, f, "DataFrame") for f in fs):
            raise Unsupported("concat other than of two tables side by side")
        return join(I, fs[0], [fs[1]], {}, nd)
    L["pandas.concat"] = concat
