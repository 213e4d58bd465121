"""Contracts of Python built-ins, container methods and small library helpers."""
from __future__ import annotations

import ast

import z3

from . import sym
from .engine import usort
from .repo import class_kind
from .sym import (FALSE, TRUE, And, ArrC, ClassV, DictC, FuncV, If, Implies, LibV, ListC, MapC,
                  MethodV, Not, ObjC, Opaque, Or, PyFn, PyRaise, RecV, Ref, SBool, SeqC, SetC, SF,
                  SInt, SU, T, Unsupported, ViewC, bool_t, int_t, is_floaty, is_num, mkbool, mkint,
                  to_f)


# ------------------------------------------------------------------ iteration protocol
def iter_of(I, v, node=None):
    """('conc', [items]) | ('seq', SeqC) | ('set', SetC) | ('map', MapC)"""
    items = I.try_concrete(v)
    if items is not None:
        return "conc", items
    c = I.content(v)
    if isinstance(c, SeqC):
        if c.memset is not None and c.et is not None:
            return "set", SetC(c.et, c.memset)
        return "seq", c
    if isinstance(c, SetC):
        return "set", c
    if isinstance(c, MapC):
        if getattr(c, "order", None) is not None:
            return "seq", c.order
        return "set", SetC(c.kt, c.dom)
    if isinstance(c, (ArrC, ViewC)):
        a = I.lib_np.arr(I, v)
        if len(a.shape) == 1:
            return "seq", SeqC(I.lib_np.dim_t(a.shape[0]), a.elem)

        def row(k):
            r = I.lib_np.new(I, a.shape[1:], lambda *i: a.elem(k, *i), a.dtype)
            I.e.heap[r.loc].frozen = True     # writes through row variables are not tracked
            return r
        return "seq", SeqC(I.lib_np.dim_t(a.shape[0]), row)
    if isinstance(c, ObjC):
        f = I.lib.get(f"iter:{c.cls.name}")
        if f:
            return f(I, v)
    if isinstance(v, SU):
        f = I.sort_method.get((v.t.sort().name(), "__iter__"))
        if f:
            return f(I, v.t)
    I.unsup(node, f"iteration over {v!r}")


def as_seq(I, v, node=None):
    k, x = iter_of(I, v, node)
    if k == "conc":
        return I.seq_of(ListC(x))
    if k == "seq":
        return x
    I.unsup(node, "ordered iteration over a set")


def mk_set(I, v, node=None):
    k, x = iter_of(I, v, node)
    if k == "conc":
        return I.make_set(x)
    if k == "set":
        return I.e.alloc(SetC(x.et, x.mem))
    n = x.n
    q = I.e.generic("k")
    et = I.infer_et(x.get(q))

    def mem(t):
        q = I.e.generic("k")
        return z3.Exists([q], And(0 <= q, q < n, I.enc(x.get(q), et) == t))
    return I.e.alloc(SetC(et, mem))


class SCard(SInt):
    """len() of a set; comparisons with zero become (non-)emptiness."""
    __slots__ = ("I", "set", "_t")

    def __init__(self, I, c):
        self.I, self.set, self._t = I, c, None

    @property
    def t(self):
        if self._t is None:
            self._t = card_int(self.I, self.set).t
        return self._t


def card(I, c):
    if c.et is None:
        return 0
    x = I.e.generic("e", I.et_sort(c.et))
    if z3.is_false(c.mem(x)):
        return 0
    return SCard(I, c)


def card_zero(I, op, a, b):
    """Comparison of a set's size with a constant as a statement about emptiness, or None."""
    if isinstance(b, SCard) and not isinstance(a, SCard):
        flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
        a, b, op = b, a, flip.get(op, op)
    if not isinstance(a, SCard) or not isinstance(b, int) or isinstance(b, bool):
        return None
    if (op, b) in (("Gt", 0), ("NotEq", 0), ("GtE", 1)):
        return I.set_nonempty(a.set)
    if (op, b) in (("Eq", 0), ("LtE", 0), ("Lt", 1)):
        return Not(I.set_nonempty(a.set))
    return None


def card_int(I, c):
    """len() of a set: a non-negative integer, zero iff empty."""
    x = I.e.generic("e", I.et_sort(c.et))
    b = c.mem(x)
    if z3.is_false(b):
        return 0
    n = I.e.const("card", z3.IntSort())
    w = I.e.const("wit", I.et_sort(c.et))
    I.e.assume(And(n >= 0, Implies(n > 0, c.mem(w)), z3.ForAll([x], Implies(b, n > 0))))
    return SInt(n)


def py_len(I, args, kw, node):
    v = args[0]
    items = I.try_concrete(v)
    if items is not None and not isinstance(I.content(v), SetC):
        return len(items)
    c = I.content(v)
    if isinstance(c, SeqC):
        return mkint(c.n)
    if isinstance(c, SetC):
        return card(I, c)
    if isinstance(c, MapC):
        return card(I, SetC(c.kt, c.dom))
    if isinstance(c, (ArrC, ViewC)):
        return I.lib_np.dimval(c.shape[0])
    if isinstance(c, ObjC):
        f = I.lib.get(f"len:{c.cls.name}")
        if f:
            return f(I, v)
    if isinstance(v, SU):
        f = I.sort_method.get((v.t.sort().name(), "__len__"))
        if f:
            return f(I, v.t, [], {})
    I.unsup(node, f"len of {v!r}")


def py_range(I, args, kw, node):
    if all(isinstance(a, int) for a in args):
        r = range(*args)
        if len(r) <= 64:
            return tuple(r)
        return I.e.alloc(SeqC(z3.IntVal(len(r)), lambda k: mkint(z3.simplify(k * r.step + r.start))))
    lo, hi, step = 0, args[0], 1
    if len(args) >= 2:
        lo, hi = args[0], args[1]
    if len(args) == 3:
        step = args[2]
    if not isinstance(step, int) or step not in (1, -1):
        I.unsup(node, "range step")
    lt, ht = int_t(lo), int_t(hi)
    d = (ht - lt) if step == 1 else (lt - ht)
    n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
    if isinstance(lo, int) and lo == 0 and step == 1 and I.e.spec_mode == 0 and not I.e.feasible(ht < 0):
        n = ht
    return I.e.alloc(SeqC(n, lambda k: mkint(z3.simplify(lt + step * k))))


def py_enumerate(I, args, kw, node):
    k, x = iter_of(I, args[0], node)
    start = kw.get("start", args[1] if len(args) > 1 else 0)
    if k == "conc":
        return I.list_([(I.arith(ast.Add(), i, start), v) for i, v in enumerate(x)])
    if k == "seq":
        return I.e.alloc(SeqC(x.n, lambda j: (I.arith(ast.Add(), mkint(j), start), x.get(j))))
    I.unsup(node, "enumerate over a set")


def py_zip(I, args, kw, node):
    its = [iter_of(I, a, node) for a in args]
    if all(k == "conc" for k, _ in its):
        return I.list_(list(zip(*[x for _, x in its])))
    seqs = [I.seq_of(ListC(x)) if k == "conc" else x for k, x in its]
    if any(k == "set" for k, _ in its):
        I.unsup(node, "zip over a set")
    n = seqs[0].n
    for s in seqs[1:]:
        if not n.eq(s.n):
            n = z3.If(s.n < n, s.n, n)
    return I.e.alloc(SeqC(n, lambda j: tuple(s.get(j) for s in seqs)))


def isinstance_t(I, v, c, node):
    if isinstance(c, tuple):
        r = [isinstance_t(I, v, x, node) for x in c]
        return True if any(x is True for x in r) else (Or(*[I.tb(x) for x in r]) if any(z3.is_expr(x) for x in r) else False)
    if isinstance(c, Ref):
        return isinstance_t(I, v, tuple(I.content(c).items), node)
    cc = I.content(v)
    if isinstance(c, ClassV):
        cls = v.cls if isinstance(v, RecV) else cc.cls if isinstance(cc, ObjC) else None
        if isinstance(cls, ClassV):
            st = [cls]
            while st:
                x = st.pop()
                if x == c:
                    return True
                st += I.bases(x)
            return False
        if isinstance(v, SU):
            f = I.sort_method.get((v.t.sort().name(), "__isinstance__"))
            if f:
                return f(I, v.t, [c], {})
        if isinstance(v, Opaque):
            I.unsup(node, "isinstance of an untracked value")
        return False
    if isinstance(v, SU):
        f = I.sort_method.get((v.t.sort().name(), "__isinstance__"))
        if f:
            return f(I, v.t, [c], {})
    nm = c.name.split(".")[-1]
    if isinstance(v, Opaque):
        I.unsup(node, "isinstance of an untracked value")
    table = {
        "bool": lambda: isinstance(v, (bool, SBool)),
        "int": lambda: isinstance(v, (bool, int, SBool, SInt)),
        "float": lambda: isinstance(v, (float, SF)),
        "str": lambda: isinstance(v, str) or (isinstance(v, SU) and v.t.sort().name() == "Str"),
        "list": lambda: isinstance(cc, (ListC, SeqC)),
        "tuple": lambda: isinstance(v, tuple) or (isinstance(v, RecV) and class_kind(v.cls) == "namedtuple"),
        "dict": lambda: isinstance(cc, (DictC, MapC)),
        "set": lambda: isinstance(cc, SetC),
        "ndarray": lambda: isinstance(cc, (ArrC, ViewC)),
        "type": lambda: isinstance(v, (ClassV,)) or (isinstance(v, LibV) and v.name.startswith("builtins.")),
        "Series": lambda: isinstance(cc, ObjC) and cc.cls.name == "pandas.Series",
        "DataFrame": lambda: isinstance(cc, ObjC) and cc.cls.name == "pandas.DataFrame",
        "NoneType": lambda: v is None,
    }
    if nm in table:
        return table[nm]()
    if isinstance(v, (RecV, tuple, str, int, float, type(None))):
        return False
    I.unsup(node, f"isinstance of {c!r}")


def to_int(I, v, node):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        return int(v)
    if isinstance(v, (SInt, SBool)):
        return mkint(int_t(v))
    if isinstance(v, SF):
        return I.np_trunc(v)
    if isinstance(v, Ref):
        a = I.lib_np.arr(I, v)
        return to_int(I, a.elem(*[z3.IntVal(0)] * len(a.shape)), node)
    I.unsup(node, f"int({v!r})")


def fold_min(I, items, lt, node):
    best = items[0]
    for x in items[1:]:
        c = lt(x, best)
        best = I.ite(c, x, best) if not isinstance(c, bool) else (x if c else best)
    return best


def py_minmax(kind):
    def h(I, args, kw, node):
        if "key" in kw:
            I.unsup(node, f"{kind} with a key")
        if len(args) == 1:
            k, x = iter_of(I, args[0], node)
            if k == "conc":
                items = x
                if not items:
                    if "default" in kw:
                        return kw["default"]
                    I.raise_("ValueError", f"{kind} of empty", node)
            elif k == "seq":
                if I.e.spec_mode == 0:
                    I.e.oblige(f"{kind}() of a non-empty sequence", x.n > 0, node, kind="safety")
                    I.e.assume(x.n > 0)
                return I.lib_np.red_extreme(I, kind, x.n, x.get)
            else:
                I.unsup(node, f"{kind} of a set")
        else:
            items = args
        op = ast.Lt() if kind == "min" else ast.Gt()
        return fold_min(I, list(items), lambda a, b: I.tb(I.truth_t(I.compare(op, a, b, node))), node)
    return h


def py_sum(I, args, kw, node):
    k, x = iter_of(I, args[0], node)
    if k == "conc":
        tot = args[1] if len(args) > 1 else 0
        for v in x:
            tot = I.binop(ast.Add(), tot, v, node)
        return tot
    if k == "seq":
        r = I.lib_np.red_sum(I, I.lib_np.mkdim(x.n), lambda j: x.get(j))
        return I.binop(ast.Add(), r, args[1], node) if len(args) > 1 else r
    I.unsup(node, "sum of a set")


def py_anyall(is_all):
    def h(I, args, kw, node):
        k, x = iter_of(I, args[0], node)
        comb = And if is_all else Or
        if k == "conc":
            return mkbool(comb(*[I.tb(I.truth_t(v, node)) for v in x]))
        if k == "seq":
            q = I.e.generic("k")
            b = I.tb(I.truth_t(x.get(q), node))
            rng = And(0 <= q, q < x.n)
            return mkbool(z3.ForAll([q], Implies(rng, b)) if is_all else z3.Exists([q], And(rng, b)))
        q = I.e.generic("e", I.et_sort(x.et))
        b = I.tb(I.truth_t(I.dec(q, x.et), node))
        return mkbool(z3.ForAll([q], Implies(x.mem(q), b)) if is_all else z3.Exists([q], And(x.mem(q), b)))
    return h


def py_list(I, args, kw, node):
    if not args:
        return I.list_([])
    k, x = iter_of(I, args[0], node)
    if k == "conc":
        return I.list_(x)
    if k == "seq":
        return I.e.alloc(SeqC(x.n, x.get, x.et, memset=x.memset))
    return list_of_set(I, x)


def list_of_set(I, c):
    """list(set): some enumeration of the set without repetition."""
    n = I.e.const("card", z3.IntSort())
    s = I.et_sort(c.et)
    at = I.e.func("enum", [z3.IntSort()], s)
    pos = I.e.func("enumpos", [s], z3.IntSort())
    k, x = z3.Int("k!s"), z3.Const("x!s", s)
    I.e.assume(n >= 0)
    I.e.assume(z3.ForAll([k], Implies(And(0 <= k, k < n), And(c.mem(at(k)), pos(at(k)) == k)), patterns=[at(k)]))
    I.e.assume(z3.ForAll([x], Implies(c.mem(x), And(0 <= pos(x), pos(x) < n, at(pos(x)) == x))))
    return I.e.alloc(SeqC(n, lambda k: I.dec(at(k), c.et), c.et, memset=c.mem))


def deepcopy(I, v):
    I.e.trusted("copy.deepcopy: equal value, no sharing")
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            return I.e.alloc(ListC([deepcopy(I, x) for x in c.items]))
        if isinstance(c, DictC):
            return I.e.alloc(DictC({k: deepcopy(I, x) for k, x in c.items.items()}, c.default))
        if isinstance(c, ObjC):
            return I.e.alloc(ObjC(c.cls, {k: deepcopy(I, x) for k, x in c.fields.items()}))
        if isinstance(c, ViewC):
            return I.e.alloc(I.lib_np.force(I, c))
        return I.e.alloc(c)
    if isinstance(v, RecV):
        return RecV(v.cls, {k: deepcopy(I, x) for k, x in v.fields.items()})
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x) for x in v)
    if isinstance(v, SU):
        f = I.sort_method.get((v.t.sort().name(), "__deepcopy__"))
        if f:
            return f(I, v.t, [], {})
    return v


def py_sorted(I, args, kw, node):
    k, x = iter_of(I, args[0], node)
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if k == "conc" and not x:
        return I.list_([])
    if k == "conc" and all(isinstance(v, (int, float, str)) for v in x) and key is None:
        return I.list_(sorted(x, reverse=bool(rev)))
    if k == "set":
        I.unsup(node, "sorted over a set")
    s = I.seq_of(ListC(x)) if k == "conc" else x
    if not isinstance(rev, bool):
        I.unsup(node, "symbolic reverse")

    def kv(j):
        v = s.get(j)
        if key is not None:
            v = I.call_value(key, [v], {}, node)
        if not is_num(v):
            I.unsup(node, "sort key")
        return sym.f_neg(v) if rev else v
    pi, _ = I.lib_np.argsort_fn(I, I.lib_np.mkdim(s.n), kv, node)
    return I.e.alloc(SeqC(s.n, lambda j: s.get(pi(j)), s.et))


def type_of(I, v, node):
    c = I.content(v)
    if isinstance(v, RecV):
        return v.cls
    if isinstance(c, ObjC):
        return c.cls
    I.unsup(node, "type()")


def install(I):
    import sys
    I.lib_py = sys.modules[__name__]
    L = I.lib
    B = lambda n, f: L.__setitem__("builtins." + n, f)
    B("len", py_len)
    B("range", py_range)
    B("enumerate", py_enumerate)
    B("zip", py_zip)
    B("set", lambda I, a, kw, nd: mk_set(I, a[0], nd) if a else I.make_set([]))
    B("frozenset", lambda I, a, kw, nd: mk_set(I, a[0], nd) if a else I.make_set([]))
    B("list", py_list)
    B("sorted", py_sorted)
    B("iter", lambda I, a, kw, nd: a[0])

    def py_tuple(I, a, kw, nd):
        if not a:
            return ()
        it = I.try_concrete(a[0])
        if it is None:
            return py_list(I, a, kw, nd)
        return tuple(it)
    B("tuple", py_tuple)

    def py_dict(I, a, kw, nd):
        if not a:
            return I.e.alloc(DictC(kw))
        c = I.content(a[0])
        if isinstance(c, DictC):
            return I.e.alloc(DictC({**c.items, **kw}))
        if isinstance(c, MapC) and not kw:
            return I.e.alloc(MapC(c.kt, c.dom, c.get, c.default))
        it = I.concrete_iter(a[0], nd)
        d = {}
        for p in it:
            k, v = I.unpack(p, 2, nd)
            d[k] = v
        return I.e.alloc(DictC({**d, **kw}))
    B("dict", py_dict)
    B("isinstance", lambda I, a, kw, nd: (lambda r: r if isinstance(r, bool) else mkbool(r))(isinstance_t(I, a[0], a[1], nd)))

    def issubclass_(I, a, kw, nd):
        c, p = a
        if isinstance(c, SU):
            f = I.sort_method.get((c.t.sort().name(), "__issubclass__"))
            if f:
                return f(I, c.t, [p], {})
        if isinstance(c, ClassV):
            ps = p if isinstance(p, tuple) else (p,)
            st = [c]
            while st:
                x = st.pop()
                if any(x == q for q in ps):
                    return True
                st += I.bases(x)
            return False
        I.unsup(nd, "issubclass")
    B("issubclass", issubclass_)
    B("min", py_minmax("min"))
    B("max", py_minmax("max"))
    B("sum", py_sum)
    B("any", py_anyall(False))
    B("all", py_anyall(True))
    B("abs", lambda I, a, kw, nd: L["numpy.abs"](I, a, kw, nd))
    B("int", lambda I, a, kw, nd: to_int(I, a[0], nd) if a else 0)
    B("float", lambda I, a, kw, nd: to_f(a[0]) if a and not isinstance(a[0], str) else float(a[0]) if a else 0.0)
    B("bool", lambda I, a, kw, nd: (lambda t: t if isinstance(t, bool) else mkbool(t))(I.truth_t(a[0], nd)) if a else False)
    B("str", lambda I, a, kw, nd: a[0] if a and (isinstance(a[0], str) or (isinstance(a[0], SU) and a[0].t.sort().name() == "Str"))
      else str(a[0]) if a and isinstance(a[0], int) and not isinstance(a[0], bool) else Opaque("str()"))
    B("repr", lambda I, a, kw, nd: Opaque("repr()"))
    B("print", lambda I, a, kw, nd: None)
    B("round", lambda I, a, kw, nd: L["numpy.round"](I, a, kw, nd))
    B("type", lambda I, a, kw, nd: type_of(I, a[0], nd))
    B("id", lambda I, a, kw, nd: a[0].loc if isinstance(a[0], Ref) else I.unsup(nd, "id()"))
    B("callable", lambda I, a, kw, nd: isinstance(a[0], (FuncV, ClassV, LibV, MethodV, PyFn)))

    def py_map(I, a, kw, nd):
        k, x = iter_of(I, a[1], nd) if len(a) == 2 else ("zip", None)
        if k == "zip":
            z = py_zip(I, a[1:], {}, nd)
            k, x = iter_of(I, z, nd)
            call = lambda v: I.call_value(a[0], list(v), {}, nd)
        else:
            call = lambda v: I.call_value(a[0], [v], {}, nd)
        if isinstance(a[0], LibV) and a[0].name == "builtins.str":
            return Opaque("map(str)")
        if k == "conc":
            return I.list_([call(v) for v in x])
        if k == "seq":
            return I.e.alloc(SeqC(x.n, lambda j: call(x.get(j))))
        return Opaque("map over a set")
    B("map", py_map)

    def py_filter(I, a, kw, nd):
        k, x = iter_of(I, a[1], nd)
        if k == "conc":
            return I.list_([v for v in x if I.truth(I.call_value(a[0], [v], {}, nd), nd)])
        I.unsup(nd, "filter over a symbolic sequence")
    B("filter", py_filter)

    def py_reversed(I, a, kw, nd):
        k, x = iter_of(I, a[0], nd)
        if k == "conc":
            return I.list_(list(reversed(x)))
        return I.e.alloc(SeqC(x.n, lambda j: x.get(x.n - 1 - j)))
    B("reversed", py_reversed)

    def py_getattr(I, a, kw, nd):
        if not isinstance(a[1], str):
            I.unsup(nd, "getattr with a symbolic name")
        try:
            return I.getattr(a[0], a[1], nd)
        except PyRaise as ex:
            if len(a) > 2 and ex.name == "AttributeError":
                return a[2]
            raise
    B("getattr", py_getattr)

    def py_setattr(I, a, kw, nd):
        if not isinstance(a[1], str):
            I.unsup(nd, "setattr with a symbolic name")
        return I.setattr(a[0], a[1], a[2], nd)
    B("setattr", py_setattr)

    def py_hasattr(I, a, kw, nd):
        c = I.content(a[0])
        if isinstance(c, ObjC) or isinstance(a[0], RecV):
            f = c.fields if isinstance(c, ObjC) else a[0].fields
            cls = c.cls if isinstance(c, ObjC) else a[0].cls
            if a[1] in f:
                return True
            return isinstance(cls, ClassV) and I.class_attr(cls, a[1], None, nd) is not None
        if a[0] is None:
            return False
        I.unsup(nd, "hasattr")
    B("hasattr", py_hasattr)

    def next_(I, a, kw, nd):
        k, x = iter_of(I, a[0], nd)
        if k == "conc":
            if x:
                return x[0]
            if len(a) > 1:
                return a[1]
            I.raise_("StopIteration", None, nd)
        if k == "set":
            w = I.e.const("wit", I.et_sort(x.et))
            if I.e.branch(I.set_nonempty(x)):
                I.e.assume(x.mem(w))
                return I.dec(w, x.et)
        elif I.e.branch(x.n > 0):
            return x.get(z3.IntVal(0))
        if len(a) > 1:
            return a[1]
        I.raise_("StopIteration", None, nd)
    B("next", next_)
    L["copy.deepcopy"] = lambda I, a, kw, nd: deepcopy(I, a[0])

    def shallow(I, a, kw, nd):
        v = a[0]
        return I.e.alloc(I.content(v)) if isinstance(v, Ref) else v
    L["copy.copy"] = shallow

    def defaultdict(I, a, kw, nd):
        return I.e.alloc(DictC({}, a[0] if a else None))
    L["collections.defaultdict"] = defaultdict
    L["typing.cast"] = lambda I, a, kw, nd: a[1]
    for nm in ("time", "perf_counter", "monotonic", "process_time"):
        L["time." + nm] = lambda I, a, kw, nd: Opaque("time")

    def dc_fields(I, a, kw, nd):
        v = a[0]
        cls = v if isinstance(v, ClassV) else v.cls if isinstance(v, RecV) else I.content(v).cls
        ann = {}
        for st in cls.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ann[st.target.id] = st.annotation
        return I.list_([I.e.alloc(ObjC(LibV("dataclasses.Field"), {
            "name": n, "type": Opaque("annotation " + (ast.unparse(ann[n]) if n in ann else ""))}))
            for n, _ in I.all_fields(cls)])
    L["dataclasses.fields"] = dc_fields
    L["dataclasses.asdict"] = lambda I, a, kw, nd: I.e.alloc(DictC(dict(a[0].fields))) if isinstance(a[0], RecV) else I.unsup(nd, "asdict")

    def dc_replace(I, a, kw, nd):
        if isinstance(a[0], RecV):
            return RecV(a[0].cls, {**a[0].fields, **kw})
        I.unsup(nd, "replace")
    L["dataclasses.replace"] = dc_replace


# ------------------------------------------------------------------ methods of built-in values
def call_method(I, obj, name, args, kw, node):
    c = I.content(obj)
    if isinstance(c, (ArrC, ViewC)):
        h = I.lib.get("ndarray." + name)
        if h:
            return h(I, [obj, *args], kw, node)
        I.unsup(node, f"ndarray method {name}")
    if isinstance(c, (ListC, SeqC)):
        return list_method(I, obj, c, name, args, kw, node)
    if isinstance(c, (DictC, MapC)):
        return dict_method(I, obj, c, name, args, kw, node)
    if isinstance(c, SetC):
        return set_method(I, obj, c, name, args, kw, node)
    if isinstance(c, ObjC):
        h = I.lib.get(f"method:{c.cls.name}.{name}")
        if h:
            return h(I, obj, args, kw, node)
        I.unsup(node, f"method {name} of {c.cls.name}")
    if isinstance(obj, RecV):
        h = I.lib.get(f"rec:{obj.cls.name}.{name}") if isinstance(obj.cls, LibV) else None
        if h:
            return h(I, obj, args, dict(kw), node)
        if name == "_asdict":
            return I.e.alloc(DictC(dict(obj.fields)))
        if name == "_replace":
            return RecV(obj.cls, {**obj.fields, **kw})
    if isinstance(obj, ClassV) and name == "__new__":
        return I.instantiate(obj, args[1:], kw, node)
    if isinstance(obj, ClassV) and name == "_make":
        return I.instantiate(obj, I.concrete_iter(args[0]), {}, node)
    if isinstance(obj, SU):
        h = I.sort_method.get((obj.t.sort().name(), name))
        if h:
            return h(I, obj.t, args, kw)
        I.unsup(node, f"method {name} of a {obj.t.sort()} value")
    if isinstance(obj, str):
        if name == "join":
            return Opaque("joined string")
        if all(isinstance(a, (str, int, tuple)) for a in args) and not kw:
            r = getattr(obj, name)(*args)
            return I.list_(r) if isinstance(r, list) else r
        if name == "format":
            return Opaque("formatted string")
    if isinstance(obj, Opaque):
        return Opaque(f"{obj.why}.{name}()")
    if isinstance(obj, tuple):
        if name == "index":
            return list_method(I, obj, ListC(obj), name, args, kw, node)
        if name == "count":
            pass
    if is_num(obj):
        if name == "item":
            return obj
        if name == "copy":
            return obj
        if name in ("astype",):
            return I.lib_np.coerce(obj, I.lib_np.dtype_arg(args[0]))
        if name in ("any", "all"):
            return mkbool(bool_t(obj))
        if name in ("sum", "mean", "min", "max", "squeeze"):
            return obj
        if name == "is_integer":
            f = to_f(obj)
            return mkbool(And(sym.isfin(f), f.val == z3.ToReal(z3.ToInt(f.val))))
    if isinstance(obj, LibV):
        return I.call_value(LibV(f"{obj.name}.{name}"), args, kw, node)
    if isinstance(obj, MethodV):
        I.unsup(node, f"method {name} of a bound method")
    I.unsup(node, f"method {name} of {obj!r}")


def list_method(I, obj, c, name, args, kw, node):
    e = I.e
    if name == "append":
        v = args[0]
        if isinstance(c, ListC):
            e.put(obj, ListC(c.items + (v,)))
        else:
            n, g = c.n, c.get
            I.freeze(v, node)
            cell = I.snapshot(v)
            out = SeqC(z3.simplify(n + 1), lambda k: I.ite(k == n, cell(), g(k)), c.et)
            if getattr(c, "log", None) is not None:
                out.log, out.tag = c.log + (cell(),), c.tag
            e.put(obj, out)
        return None
    if name == "extend":
        k, x = iter_of(I, args[0], node)
        if isinstance(c, ListC) and k == "conc":
            e.put(obj, ListC(c.items + tuple(x)))
            return None
        other = I.seq_of(ListC(x)) if k == "conc" else x if k == "seq" else I.content(list_of_set(I, x))
        s = I.seq_of(c)
        e.put(obj, SeqC(z3.simplify(s.n + other.n), lambda j: I.ite(j < s.n, s.get(j), other.get(j - s.n)) if not
                        (z3.is_int_value(s.n) and s.n.as_long() == 0) else other.get(j), s.et or other.et))
        return None
    if name == "copy":
        return e.alloc(c)
    if name == "index":
        if isinstance(c, ListC):
            for i, x in enumerate(c.items):
                r = I.eq_t(x, args[0], node)
                if r is True or (r is not False and e.branch(r)):
                    return i
            I.raise_("ValueError", "not in list", node)
        # first position holding the value
        q = e.generic("k")
        eq = lambda k: I.tb(I.eq_t(c.get(k), args[0], node))
        if not e.branch(z3.Exists([q], And(0 <= q, q < c.n, eq(q)))):
            I.raise_("ValueError", "not in list", node)
        r, fresh, act = I.lib_np.reducer(I, "firstidx", c.n, lambda rx: (eq(rx),), [z3.IntSort()])
        if fresh:
            q = z3.Int("q!r")
            ix, b = r.fns[0](*r.params), r.terms[0]
            at = I.lib_np.at
            ex = z3.Exists([q], And(0 <= q, q < r.n, at(r, b, q)))
            e.axiom(I.lib_np.forall(r.params, Implies(ex, And(0 <= ix, ix < r.n, at(r, b, ix)))), r.defs)
            e.axiom(I.lib_np.forall([*r.params, q], Implies(And(0 <= q, q < ix), Not(at(r, b, q)))), r.defs)
        return mkint(r.fns[0](*act))
    if name == "pop" and isinstance(c, ListC) and all(isinstance(a, int) for a in args):
        items = list(c.items)
        if not items:
            I.raise_("IndexError", None, node)
        v = items.pop(*args)
        e.put(obj, ListC(items))
        return v
    if name == "pop" and isinstance(c, SeqC) and len(args) <= 1 and all(isinstance(a, int) and a in (0, -1) for a in args):
        n, g = c.n, c.get
        if not e.branch(n > 0):
            I.raise_("IndexError", "pop from empty list", node)
        if args and args[0] == 0:
            v = g(z3.IntVal(0))
            out = SeqC(z3.simplify(n - 1), lambda k: g(k + 1), c.et)
        else:
            v = g(n - 1)
            out = SeqC(z3.simplify(n - 1), g, c.et)
        e.put(obj, out)
        return v
    if name == "clear":
        e.put(obj, ListC([]))
        return None
    if name == "insert" and isinstance(c, ListC) and isinstance(args[0], int):
        items = list(c.items)
        items.insert(args[0], args[1])
        e.put(obj, ListC(items))
        return None
    if name == "remove" and isinstance(c, ListC):
        for i, x in enumerate(c.items):
            r = I.eq_t(x, args[0], node)
            if r is True or (r is not False and e.branch(r)):
                e.put(obj, ListC(c.items[:i] + c.items[i + 1:]))
                return None
        I.raise_("ValueError", None, node)
    if name == "count" and isinstance(c, ListC):
        return I.call_value(LibV("builtins.sum"), [I.list_([mkint(int_t(mkbool(I.tb(I.eq_t(x, args[0]))))) for x in c.items])], {}, node)
    if name == "sort":
        e.put(obj, I.content(py_sorted(I, [obj], kw, node)))
        return None
    if name == "reverse" and isinstance(c, ListC):
        e.put(obj, ListC(reversed(c.items)))
        return None
    I.unsup(node, f"list method {name}")


def items_iter(I, c):
    if getattr(c, "order", None) is not None:
        return I.e.alloc(SeqC(c.order.n, lambda k: (c.order.get(k), c.get(I.enc(c.order.get(k), c.kt)))))
    return I.e.alloc(ObjC(LibV("builtins.dict_items"), {"map": c}))


def dict_method(I, obj, c, name, args, kw, node):
    e = I.e
    if isinstance(c, DictC):
        if name == "items":
            return I.list_([(k, v) for k, v in c.items.items()])
        if name == "keys":
            return I.list_(list(c.items))
        if name == "values":
            return I.list_(list(c.items.values()))
        if name == "copy":
            return e.alloc(DictC(c.items, c.default))
        if name == "get":
            d = args[1] if len(args) > 1 else kw.get("default")
            if isinstance(args[0], (str, int, tuple, ClassV, LibV)) or args[0] is None:
                return c.items.get(args[0], d)
            for k, v in c.items.items():
                r = I.eq_t(k, args[0], node)
                if r is True or (r is not False and e.branch(r)):
                    return v
            return d
        if name == "update":
            o = I.content(args[0]) if args else None
            new = dict(c.items)
            if isinstance(o, DictC):
                new.update(o.items)
            elif args:
                I.unsup(node, "dict.update")
            new.update(kw)
            e.put(obj, DictC(new, c.default))
            return None
        if name == "setdefault":
            if args[0] in c.items:
                return c.items[args[0]]
            v = args[1] if len(args) > 1 else None
            e.put(obj, DictC({**c.items, args[0]: v}, c.default))
            return v
        if name == "pop":
            if args[0] in c.items:
                d = dict(c.items)
                v = d.pop(args[0])
                e.put(obj, DictC(d, c.default))
                return v
            if len(args) > 1:
                return args[1]
            I.raise_("KeyError", None, node)
        if name == "clear":
            e.put(obj, DictC({}, c.default))
            return None
    if isinstance(c, MapC):
        if name == "keys":
            return e.alloc(SetC(c.kt, c.dom))
        if name == "copy":
            return e.alloc(MapC(c.kt, c.dom, c.get, c.default))
        if name == "items":
            return items_iter(I, c)
        if name == "values":
            return e.alloc(ObjC(LibV("builtins.dict_values"), {"map": c}))
        if name == "clear":
            e.put(obj, MapC(c.kt, lambda x: FALSE, c.get, c.default))
            if c.default is not None:
                e.put(obj, MapC(c.kt, lambda x: FALSE, lambda x: I.call_value(c.default, [], {}, node), c.default))
            return None
        if name == "get":
            d = args[1] if len(args) > 1 else None
            if getattr(c, "lazy_get", None) is not None:
                return c.lazy_get(args[0], d)
            t = I.enc(args[0], c.kt)
            if e.branch(c.dom(t)):
                return c.get(t)
            return d
        if name == "update":
            o = I.content(args[0])
            if isinstance(o, DictC):
                for k, v in o.items.items():
                    I.setitem(obj, k, v, node)
                return None
            if isinstance(o, MapC):
                e.put(obj, MapC(c.kt, lambda x: Or(o.dom(x), c.dom(x)),
                                lambda x: I.ite(o.dom(x), o.get(x), c.get(x)), c.default))
                return None
    I.unsup(node, f"dict method {name}")


def set_method(I, obj, c, name, args, kw, node):
    e = I.e
    if name == "add":
        et = c.et or I.infer_et(args[0])
        t = I.enc(args[0], et)
        m = c.mem
        e.put(obj, SetC(et, lambda x: Or(m(x), x == t)))
        return None
    if name in ("discard", "remove"):
        if c.et is None:
            if name == "remove":
                I.raise_("KeyError", None, node)
            return None
        t = I.enc(args[0], c.et)
        m = c.mem
        if name == "remove" and not e.branch(m(t)):
            I.raise_("KeyError", None, node)
        e.put(obj, SetC(c.et, lambda x: And(m(x), Not(x == t))))
        return None
    if name == "copy":
        return e.alloc(SetC(c.et, c.mem))
    if name == "clear":
        e.put(obj, SetC(c.et, lambda x: FALSE))
        return None
    ops = {"union": ast.BitOr(), "intersection": ast.BitAnd(), "difference": ast.Sub(), "symmetric_difference": ast.BitXor()}
    if name in ops:
        r = obj
        if not args:
            return e.alloc(c)
        for a in args:
            r = I.binop(ops[name], r, mk_set(I, a, node), node)
        return r
    upd = {"update": ast.BitOr(), "intersection_update": ast.BitAnd(), "difference_update": ast.Sub()}
    if name in upd:
        for a in args:
            e.put(obj, I.content(I.binop(upd[name], obj, mk_set(I, a, node), node)))
        return None
    if name == "issubset":
        return I.compare(ast.LtE(), obj, mk_set(I, args[0], node), node)
    if name == "issuperset":
        return I.compare(ast.GtE(), obj, mk_set(I, args[0], node), node)
    if name == "isdisjoint":
        r = I.content(I.binop(ast.BitAnd(), obj, mk_set(I, args[0], node), node))
        return mkbool(Not(I.set_nonempty(r)))
    I.unsup(node, f"set method {name}")
