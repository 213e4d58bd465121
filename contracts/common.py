"""Helpers for contracts which say how values are handed on."""
import z3

from pyvc import lib_pd, sym
from pyvc.engine import usort
from pyvc.sym import And, ArrC, Implies, ListC, ObjC, RecV, Ref, SeqC, SF, SInt, SU, T, Unsupported, ViewC, mkbool
from pyvc.verify import A, Contract, arr1, arr2, forall, inr, nat, same_arr, seq_of_sort, term_eq

OBJ = usort("Obj")


def value(I, name, kind="mat"):
    """A fresh symbolic value of a kind, different from all others."""
    if kind.endswith("?"):
        return value(I, name, kind[:-1]) if I.e.branch(z3.Bool(name + "_given")) else None
    if kind in ("mat", "imat", "bmat"):
        dt = {"m": "float", "i": "int", "b": "bool"}[kind[0]]
        return arr2(I, name, nat(I, name + "_rows"), nat(I, name + "_cols"), dt)
    if kind in ("vec", "ivec", "bvec"):
        dt = {"v": "float", "i": "int", "b": "bool"}[kind[0]]
        return arr1(I, name, nat(I, name + "_len"), dt)
    if kind == "ser":
        from contracts.preprocessing import col
        return col(I, name, nat(I, name + "_len"), usort("Item"))[0]
    if kind == "strs":
        return seq_of_sort(I, name, nat(I, name + "_len"), usort("Str"))[0]
    if kind == "objs":
        return seq_of_sort(I, name, nat(I, name + "_len"), OBJ)[0]
    if kind == "float":
        return SF(z3.Real(name))
    if kind == "int":
        return SInt(z3.Int(name))
    if kind == "bool":
        return mkbool(z3.Bool(name))
    if kind == "str":
        return SU(z3.Const(name, usort("Str")))
    if kind == "obj":
        return SU(z3.Const(name, OBJ))
    raise Unsupported(kind)


def record(I, module, cls, kinds, prefix=""):
    """An instance of a NamedTuple or dataclass with fresh values."""
    c = I.repo.lookup(I.repo.module(module), cls, I)
    return RecV(c, {k: value(I, prefix + k, t) if isinstance(t, str) else t for k, t in kinds.items()})


def same(I, a, b, label):
    """Goals: the values are the same (equal data count as the same)."""
    if a is b:
        return [(label, T(True))]
    if a is None or b is None:
        return [(label, T(False))]
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return [(label, T(True))]
        ca, cb = I.content(a), I.content(b)
        if isinstance(ca, ObjC) and isinstance(cb, ObjC) and ca.cls.name == cb.cls.name == "pandas.Series":
            return same(I, ca.fields["values"], cb.fields["values"], label)
        if isinstance(ca, (ArrC, ViewC)) and isinstance(cb, (ArrC, ViewC)):
            return same_arr(I, A(I, a), A(I, b), label)
        if isinstance(ca, (ListC, SeqC)) and isinstance(cb, (ListC, SeqC)):
            p, q = I.seq_of(ca), I.seq_of(cb)
            k = I.e.generic("k")
            n, m = sym.int_t(p.n) if not z3.is_expr(p.n) else p.n, sym.int_t(q.n) if not z3.is_expr(q.n) else q.n
            return [(label, And(n == m, forall([k], Implies(inr(k, n), term_eq(I, p.get(k), q.get(k))))))]
        if isinstance(ca, ObjC) and isinstance(cb, ObjC) and ca.cls == cb.cls and set(ca.fields) == set(cb.fields):
            return [g for f in ca.fields for g in same(I, ca.fields[f], cb.fields[f], f"{label}: {f}")]
        return [(label, T(False))]
    if isinstance(a, RecV) and isinstance(b, RecV) and set(a.fields) == set(b.fields):
        return [g for f in a.fields for g in same(I, a.fields[f], b.fields[f], f"{label}: {f}")]
    if isinstance(a, (Ref, RecV)) or isinstance(b, (Ref, RecV)):
        return [(label, T(False))]
    r = term_eq(I, a, b)
    return [(label, r if z3.is_expr(r) else T(bool(r)))]


class Stub(Contract):
    """A function seen by a caller under contract: the call is recorded, the result is fresh."""

    def __init__(self, qual, result, name=None, pre=None):
        self.qual = qual
        self.name = name or qual.split(":")[1].split(".")[-1]
        self.result, self.pre = result, pre

    def apply(self, I, f, v, node):
        if self.pre is not None:
            for lab, g in self.pre(I, v):
                I.e.oblige(f"{self.name}: {lab}", g, node, kind="pre")
        out = self.result(I, v)
        I.calls.setdefault(self.name, []).append((v, out))
        return out


class Wiring(Contract):
    """Every input reaches the named argument, every result its named field."""
    stubs = ()

    def configure(self, I):
        I.calls = {}
        for s in self.stubs:
            I.contracts[s.qual] = s

    def called(self, I, name, n=1):
        c = I.calls.get(name, [])
        if len(c) != n:
            raise Unsupported(f"{name} is called {len(c)} times, not {n}")
        return c, []

    def passed(self, I, call, want, label):
        v = call[0]
        out = []
        for k, w in want.items():
            if k not in v:
                raise Unsupported(f"{label} no longer takes {k}")
            out += same(I, v[k], w, f"{label} gets {k}")
        return out

    def fields(self, I, res, want, label):
        return [g for k, w in want.items() for g in same(I, I.getattr(res, k), w, f"{label}: {k}")]
