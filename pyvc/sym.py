"""Symbolic values.

Concrete Python constants (None, bool, int, float, str, tuple) stand for themselves.  Symbolic
scalars wrap z3 terms.  Mutable objects live in the engine's heap behind `Ref`; heap contents are
immutable Python objects, replaced on every write, so that a state snapshot is a dict copy.
"""
from __future__ import annotations

import math
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a property violation)."""


# ---------------------------------------------------------------- scalars
class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class NInt(SInt):
    """A whole number of numpy: dividing by zero gives NaN or an infinity."""
    __slots__ = ()


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SF:
    """An extended real: kind 0 finite, 1 +inf, 2 -inf, 3 NaN (kind: Python int or z3 Int)."""

    __slots__ = ("kind", "val")

    def __init__(self, val, kind=0):
        self.val = val
        self.kind = kind

    def __repr__(self):
        return f"SF({self.val}, kind={self.kind})"


class SU:
    """A value of an uninterpreted (or datatype) z3 sort."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SU({self.t}:{self.t.sort()})"




class Opaque:
    """A value nothing is known about (formatted strings, library handles, plots...)."""

    def __init__(self, why="opaque", attrs=None):
        self.why = why
        self.attrs = attrs or {}

    def __repr__(self):
        return f"Opaque({self.why})"


class Poison:
    """A variable whose value after a loop is not tracked; reading it is Unsupported."""

    def __init__(self, why):
        self.why = why


def T(v):
    return z3.BoolVal(bool(v))


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def And(*a):
    out = []
    for x in a:
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            continue
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            continue
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return T(not x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if isinstance(a, bool):
        a = T(a)
    if isinstance(b, bool):
        b = T(b)
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def _ik(k):
    return z3.IntVal(k) if isinstance(k, int) else k


def _kif(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    a, b = _ik(a), _ik(b)
    yes, no = literals(c, True), literals(c, False)
    a, b = restrict(a, yes), restrict(b, no)
    if a.eq(b):
        return a.as_long() if z3.is_int_value(a) else a
    return z3.If(c, a, b)


def literals(c, val):
    """Facts {term id: (term, truth)} which follow from c being val."""
    out, st = {}, [(c, val)]
    while st:
        t, v = st.pop()
        out[t.get_id()] = (t, v)
        if z3.is_not(t):
            st.append((t.arg(0), not v))
        elif (z3.is_and(t) and v) or (z3.is_or(t) and not v):
            st.extend((x, v) for x in t.children())
    return out


def decide(c, facts):
    """True / False / None: the value of condition c under the facts."""
    h = facts.get(c.get_id())
    if h is not None:
        return h[1]
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if z3.is_not(c):
        d = decide(c.arg(0), facts)
        return None if d is None else not d
    if z3.is_and(c) or z3.is_or(c):
        ds = [decide(x, facts) for x in c.children()]
        bad = not z3.is_and(c)
        if any(d is bad for d in ds):
            return bad
        if all(d is not None for d in ds):
            return not bad
    return None


def restrict(k, facts, depth=6):
    """The conditional term k under the facts."""
    if depth == 0 or not _is_ite(k):
        return k
    d = decide(k.arg(0), facts)
    if d is not None:
        return restrict(k.arg(1) if d else k.arg(2), facts, depth - 1)
    a, b = restrict(k.arg(1), facts, depth - 1), restrict(k.arg(2), facts, depth - 1)
    if a.eq(k.arg(1)) and b.eq(k.arg(2)):
        return k
    return a if a.eq(b) else z3.If(k.arg(0), a, b)


def _is_ite(k):
    return z3.is_app(k) and k.decl().kind() == z3.Z3_OP_ITE


def kis(k, v, depth=8):
    """z3 Bool: kind k is v."""
    if isinstance(k, int):
        return T(k == v)
    if z3.is_int_value(k):
        return T(k.as_long() == v)
    if depth and _is_ite(k) and any(z3.is_int_value(k.arg(q)) or _is_ite(k.arg(q)) for q in (1, 2)):
        c, a, b = k.arg(0), kis(k.arg(1), v, depth - 1), kis(k.arg(2), v, depth - 1)
        if z3.is_true(a):
            return c if z3.is_false(b) else Or(c, b)
        if z3.is_false(a):
            return Not(c) if z3.is_true(b) else And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
        if z3.is_false(b):
            return And(c, a)
        return z3.If(c, a, b)
    return k == v


def isnan(f):
    return kis(f.kind, 3)


def isfin(f):
    return kis(f.kind, 0)


# ---------------------------------------------------------------- conversions
def int_t(v):
    """z3 Int of a concrete or symbolic integer (bools count as 0/1)."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an integer: {v!r}")


def is_num(v):
    return isinstance(v, (bool, int, float, SInt, SBool, SF))


def is_floaty(v):
    return isinstance(v, (float, SF))


def bool_t(v):
    if isinstance(v, bool):
        return T(v)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, (int, SInt)):
        return int_t(v) != 0
    if isinstance(v, (float, SF)):
        f = to_f(v)
        return Not(And(isfin(f), f.val == 0))
    raise Unsupported(f"no truth value for {v!r}")


def to_f(v):
    if isinstance(v, SF):
        return v
    if isinstance(v, bool):
        return SF(z3.RealVal(int(v)))
    if isinstance(v, int):
        return SF(z3.RealVal(v))
    if isinstance(v, float):
        if math.isnan(v):
            return SF(z3.RealVal(0), 3)
        if math.isinf(v):
            return SF(z3.RealVal(0), 1 if v > 0 else 2)
        fr = Fraction(repr(v))
        return SF(z3.RealVal(f"{fr.numerator}/{fr.denominator}"))
    if isinstance(v, SInt):
        return SF(z3.ToReal(v.t))
    if isinstance(v, SBool):
        return SF(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
    raise Unsupported(f"not a number: {v!r}")


def mkint(t):
    """Wrap a z3 Int, folding constants."""
    if isinstance(t, int):
        return t
    t = z3.simplify(t) if not z3.is_int_value(t) and _small(t) else t
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def _small(t, lim=60):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if n > lim:
            return False
        if z3.is_quantifier(x):
            return False
        st.extend(x.children())
    return True


# ---------------------------------------------------------------- float arithmetic
def f_add(a, b):
    a, b = to_f(a), to_f(b)
    v = a.val + b.val
    if a.kind == 0 and isinstance(a.kind, int) and isinstance(b.kind, int) and b.kind == 0:
        return SF(v)
    na, nb = isnan(a), isnan(b)
    fa, fb = isfin(a), isfin(b)
    same = And(kis_eq(a.kind, b.kind))
    k = _kif(Or(na, nb), 3, _kif(fa, b.kind, _kif(fb, a.kind, _kif(same, a.kind, 3))))
    return SF(v, k)


def kis_eq(k1, k2):
    if isinstance(k1, int) and isinstance(k2, int):
        return T(k1 == k2)
    return _ik(k1) == _ik(k2)


def f_neg(a):
    a = to_f(a)
    if isinstance(a.kind, int):
        return SF(-a.val, {0: 0, 1: 2, 2: 1, 3: 3}[a.kind])
    return SF(-a.val, _kif(kis(a.kind, 1), 2, _kif(kis(a.kind, 2), 1, a.kind)))


def f_sub(a, b):
    a, b = to_f(a), to_f(b)
    if isinstance(a.kind, int) and isinstance(b.kind, int) and a.kind == 0 and b.kind == 0:
        return SF(a.val - b.val)
    return f_add(a, f_neg(b))


def f_sign_t(f):
    """z3 Int: sign of a non-NaN extended real."""
    s = z3.If(f.val > 0, z3.IntVal(1), z3.If(f.val < 0, z3.IntVal(-1), z3.IntVal(0)))
    return If(kis(f.kind, 1), z3.IntVal(1), If(kis(f.kind, 2), z3.IntVal(-1), s))


def r_mul(a, b):
    return a * b


_shapes = {}


def shape_key(t, depth=6):
    """The form of a term up to the names of its constants."""
    k = (t.get_id(), depth)
    hit = _shapes.get(k)
    if hit is not None:
        return hit[1]
    if z3.is_app(t) and t.num_args():
        r = (t.decl().name(), *((shape_key(c, depth - 1) for c in t.children()) if depth else ()))
        r = "(" + " ".join(r) + ")"
    else:
        r = t.sexpr() if z3.is_app(t) and not z3.is_const(t) or z3.is_rational_value(t) or z3.is_int_value(t) else "?"
    if len(_shapes) > 200000:
        _shapes.clear()
    _shapes[k] = (t, r)
    return r


def f_mul(a, b):
    a, b = to_f(a), to_f(b)
    if not a.val.eq(b.val) and shape_key(z3.simplify(b.val)) < shape_key(z3.simplify(a.val)):
        a, b = b, a           # the product does not depend on the order: one form for both
    v = a.val * b.val
    if isinstance(a.kind, int) and isinstance(b.kind, int) and a.kind == 0 and b.kind == 0:
        return SF(v)
    if a.val.eq(b.val) and (a.kind is b.kind or not isinstance(a.kind, int) and not isinstance(b.kind, int) and a.kind.eq(b.kind)):
        return SF(v, _kif(isnan(a), 3, _kif(isfin(a), 0, 1)))        # a square
    both = And(isfin(a), isfin(b))
    sg = f_sign_t(a) * f_sign_t(b)
    k = _kif(Or(isnan(a), isnan(b)), 3,
             _kif(both, 0, _kif(sg == 0, 3, _kif(sg > 0, 1, 2))))
    return SF(v, k)


def f_div(a, b):
    a, b = to_f(a), to_f(b)
    bz = b.val == 0
    if z3.is_rational_value(b.val):
        bz = T(b.val.numerator_as_long() == 0)
    z = z3.RealVal(0)
    fin_k = _kif(bz, _kif(a.val == 0, 3, _kif(a.val > 0, 1, 2)), 0)
    if isinstance(a.kind, int) and isinstance(b.kind, int) and a.kind == 0 and b.kind == 0:
        return SF(a.val / b.val, fin_k)
    ia, ib = Or(kis(a.kind, 1), kis(a.kind, 2)), Or(kis(b.kind, 1), kis(b.kind, 2))
    sb = If(And(isfin(b), bz), z3.IntVal(1), f_sign_t(b))
    sg = f_sign_t(a) * sb
    k = _kif(Or(isnan(a), isnan(b)), 3,
             _kif(ia, _kif(ib, 3, _kif(sg > 0, 1, 2)), _kif(ib, 0, fin_k)))
    return SF(If(ib, z, a.val / b.val), k)


def f_lt(a, b):
    a, b = to_f(a), to_f(b)
    if isinstance(a.kind, int) and isinstance(b.kind, int) and a.kind == 0 and b.kind == 0:
        return a.val < b.val
    return And(Not(isnan(a)), Not(isnan(b)),
               Or(And(isfin(a), isfin(b), a.val < b.val),
                  And(kis(a.kind, 2), Not(kis(b.kind, 2))),
                  And(kis(b.kind, 1), Not(kis(a.kind, 1)))))


def f_eq(a, b):
    a, b = to_f(a), to_f(b)
    if isinstance(a.kind, int) and isinstance(b.kind, int) and a.kind == 0 and b.kind == 0:
        return a.val == b.val
    return And(Not(isnan(a)), Not(isnan(b)), kis_eq(a.kind, b.kind),
               Implies(isfin(a), a.val == b.val))


def f_le(a, b):
    a, b = to_f(a), to_f(b)
    if isinstance(a.kind, int) and isinstance(b.kind, int) and a.kind == 0 and b.kind == 0:
        return a.val <= b.val
    return Or(f_lt(a, b), f_eq(a, b))


def f_same(a, b):
    """Specification equality: identical extended reals, NaN equal to NaN."""
    a, b = to_f(a), to_f(b)
    return And(kis_eq(a.kind, b.kind), Implies(isfin(a), a.val == b.val))


def f_abs(a):
    a = to_f(a)
    v = z3.If(a.val < 0, -a.val, a.val)
    if isinstance(a.kind, int):
        return SF(v, 1 if a.kind == 2 else a.kind)
    return SF(v, _kif(kis(a.kind, 2), 1, a.kind))


# ---------------------------------------------------------------- heap values
class Ref:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"Ref({self.loc})"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(("Ref", self.loc))


class ListC:
    """A list with a concrete number of elements."""

    def __init__(self, items):
        self.items = tuple(items)


class SeqC:
    """A list of symbolic length n; get(k_term) -> value.  `et` element type if known."""

    def __init__(self, n, get, et=None, distinct=False, memset=None):
        self.n = n            # z3 Int
        self.get = get
        self.et = et
        self.memset = memset  # optional: membership predicate on encoded elements


class DictC:
    """A dict with concrete keys."""

    def __init__(self, items, default=None):
        self.items = dict(items)
        self.default = default


class MapC:
    """A dict over symbolic keys: dom(term)->Bool, get(term)->value, default or None."""

    def __init__(self, kt, dom, get, default=None, frozen=False):
        self.kt = kt
        self.dom = dom
        self.get = get
        self.default = default
        self.frozen = frozen


class SetC:
    """A set: element type et, membership predicate on encoded elements."""

    def __init__(self, et, mem):
        self.et = et
        self.mem = mem


class ArrC:
    """An ndarray: shape (ints or z3 Ints), elem(*index_terms) -> scalar, dtype."""

    def __init__(self, shape, elem, dtype, view=None):
        self.shape = tuple(shape)
        self.elem = elem
        self.dtype = dtype
        self.view = view


class ViewC:
    """A lazily evaluated view of another array (basic slicing)."""

    def __init__(self, base, shape, imap, inv, dtype):
        self.base = base      # Ref
        self.shape = tuple(shape)
        self.imap = imap      # view indices -> base indices
        self.inv = inv        # base indices -> (guard, view indices) or None
        self.dtype = dtype


class ObjC:
    """An instance of a repo class (or a synthetic library class)."""

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = dict(fields)


class RecV:
    """A NamedTuple / frozen dataclass instance (immutable)."""

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = dict(fields)

    def __repr__(self):
        return f"RecV({getattr(self.cls, 'name', self.cls)}, {self.fields})"


class FrameC:
    """A pandas DataFrame: ordered concrete column labels or symbolic columns."""

    def __init__(self, n, columns, index=None):
        self.n = n
        self.columns = columns  # dict label -> (elem(i), dtype)
        self.index = index


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


# ---------------------------------------------------------------- callables
class FuncV:
    """A repo function (def), possibly bound."""

    def __init__(self, mod, node, qual, cls=None, self_v=None, closure=None):
        self.mod, self.node, self.qual = mod, node, qual
        self.cls, self.self_v, self.closure = cls, self_v, closure

    def __repr__(self):
        return f"FuncV({self.qual})"


class ClassV:
    def __init__(self, mod, node, name):
        self.mod, self.node, self.name = mod, node, name
        self.qual = f"{mod.name}:{name}"

    def __repr__(self):
        return f"ClassV({self.qual})"

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.qual == self.qual

    def __hash__(self):
        return hash(self.qual)


class LibV:
    """A library name, e.g. numpy.median."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"LibV({self.name})"

    def __eq__(self, o):
        return isinstance(o, LibV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class MethodV:
    """A bound built-in method of a value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"MethodV({self.obj!r}.{self.name})"


class PyFn:
    """A callable implemented by the contract layer: fn(engine, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class PyRaise(Exception):
    """A Python exception propagating through the interpreted program."""

    def __init__(self, cls, value=None, node=None):
        super().__init__(str(cls))
        self.cls = cls      # ClassV or LibV('builtins.ValueError')
        self.value = value
        self.node = node

    @property
    def name(self):
        return self.cls.name.split(".")[-1].split(":")[-1]
