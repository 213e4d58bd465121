"""Trusted contracts of the NumPy operations the code uses, over arrays as index functions.

An array is a shape and an element function.  Reductions become function symbols keyed by their
(canonicalised) body, so equal reductions in code and contract are the same term; what is known
about them is stated as closed axioms (min is attained and a lower bound, a boolean count is zero
iff nothing holds, ...).  Floats are extended reals (finite, +-inf, NaN), not IEEE doubles.
"""
from __future__ import annotations

import ast
import builtins

import z3

from . import sym
from .engine import has_quantifier, usort
from .sym import (FALSE, TRUE, And, ArrC, If, Implies, LibV, ListC, MethodV, Not, ObjC, Opaque, Or,
                  RecV, Ref, SBool, SeqC, SF, SInt, Slice, SU, T, Unsupported, ViewC, bool_t, int_t,
                  is_floaty, is_num, mkbool, mkint, to_f)

RX = z3.Int("rx!0")
SMP = z3.Const("g!smp", z3.IntSort())
getattr_py = builtins.getattr


# ------------------------------------------------------------------ basics
def dim_t(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def mkdim(t):
    """Normalise a dimension: Python int when constant."""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else t


def dimval(d):
    return d if isinstance(d, int) else SInt(d)


def memo_elem(f):
    cache = {}

    def g(*idx):
        k = tuple(i.get_id() for i in idx)
        hit = cache.get(k)
        if hit is not None and all(a.eq(b) for a, b in zip(hit[0], idx)):
            return hit[1]
        v = f(*idx)
        cache[k] = (idx, v)
        return v
    return g


def guard(I, f):
    """Element functions are evaluated on arbitrary indices: no obligations, no path facts."""
    e = I.e

    def g(*idx):
        n = len(e.pc)
        e.spec_mode += 1
        try:
            return f(*idx)
        finally:
            e.spec_mode -= 1
            del e.pc[n:]
    return g


def new(I, shape, elem, dtype):
    return I.e.alloc(ArrC([mkdim(s) for s in shape], memo_elem(guard(I, elem)), dtype))


def force(I, c):
    if isinstance(c, ArrC):
        return c
    b = force(I, I.e.get(c.base))
    return ArrC(c.shape, lambda *i: b.elem(*c.imap(*i)), b.dtype)


def arr(I, v):
    """ArrC of any array-like value."""
    if isinstance(v, Ref):
        c = I.e.get(v)
        if isinstance(c, (ArrC, ViewC)):
            return force(I, c)
        if isinstance(c, (ListC, SeqC)):
            return from_seq(I, c)
        if isinstance(c, ObjC) and c.cls.name == "pandas.Series":
            return arr(I, c.fields["values"])
    if isinstance(v, tuple):
        return from_seq(I, ListC(v))
    if is_num(v):
        return ArrC((), lambda: v, dtype_of(v))
    if isinstance(v, RecV):
        return from_seq(I, ListC(tuple(v.fields.values())))
    raise Unsupported(f"not an array: {v!r}")


def dtype_of(v):
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (float, SF)):
        return "float"
    return "object"


def join_dtype(a, b):
    order = ["bool", "int", "float", "object"]
    return order[max(order.index(a), order.index(b))]


def from_seq(I, c):
    if isinstance(c, ListC) and c.items and (is_num(c.items[0]) or isinstance(c.items[0], (str, SU))):
        dt = "bool"
        for x in c.items:
            dt = join_dtype(dt, dtype_of(x))
        s = I.seq_of(c)
        return ArrC((len(c.items),), lambda k: coerce(s.get(k), dt), dt)
    if isinstance(c, ListC) and not c.items:
        return ArrC((0,), lambda k: SF(z3.RealVal(0)), "float")
    s = I.seq_of(c)
    n = mkdim(s.n)
    k = z3.Const("g!fs", z3.IntSort())
    first = s.get(z3.IntVal(0) if isinstance(n, int) else k)
    if is_num(first) or isinstance(first, (SU, str)):
        dt = dtype_of(first)
        return ArrC((n,), s.get, dt)
    rows = arr(I, first)
    return ArrC((n,) + rows.shape, lambda k, *i: arr(I, s.get(k)).elem(*i), rows.dtype)


def coerce(v, dt):
    if dt == "float":
        return to_f(v)
    if dt == "int" and isinstance(v, (bool, SBool)):
        return mkint(int_t(v))
    if dt == "bool":
        return mkbool(bool_t(v))
    return v


# ------------------------------------------------------------------ elementwise
def broadcast(I, arrs, node=None):
    nd = max(len(a.shape) for a in arrs)
    shape = []
    for p in range(nd):
        d = 1
        for a in arrs:
            q = p - (nd - len(a.shape))
            if q < 0:
                continue
            s = a.shape[q]
            if isinstance(s, int) and s == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = s
            elif isinstance(d, int) and isinstance(s, int):
                if d != s:
                    I.raise_("ValueError", "broadcast", node)
            elif not (z3.is_expr(d) and z3.is_expr(s) and d.eq(s)):
                if I.e.spec_mode == 0:
                    I.e.oblige("array shapes agree", dim_t(d) == dim_t(s), node, kind="safety")
                    I.e.assume(dim_t(d) == dim_t(s))
                if isinstance(s, int):
                    d = s
        shape.append(d)

    def proj(a):
        off = nd - len(a.shape)

        def f(*idx):
            sub = []
            for q, s in enumerate(a.shape):
                i = idx[q + off]
                big = shape[q + off]
                if isinstance(s, int) and s == 1 and not (isinstance(big, int) and big == 1):
                    i = z3.IntVal(0)
                sub.append(i)
            return a.elem(*sub)
        return f
    return tuple(shape), [proj(a) for a in arrs]


def map1(I, v, f, op=None, dtype=None):
    a = arr(I, v)
    k = dtype or a.dtype
    if op is not None and isinstance(op, ast.USub) and a.dtype == "bool":
        k = "int"
    if not a.shape:
        return f(a.elem())
    return new(I, a.shape, lambda *i: f(a.elem(*i)), k)


def mapn(I, vals, f, dtype, node=None):
    arrs = [arr(I, v) for v in vals]
    shape, ps = broadcast(I, arrs, node)
    if not shape and not any(isinstance(v, Ref) for v in vals):
        return f(*[p() for p in ps])
    return new(I, shape, lambda *i: f(*[p(*i) for p in ps]), dtype)


def np_arith(I, op, x, y, n):
    """NumPy scalar arithmetic: true division never raises."""
    if isinstance(op, ast.Div):
        return sym.f_div(x, y)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        return I.arith(op, x, y, n)
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        if isinstance(op, ast.Add):
            return mkbool(Or(bool_t(x), bool_t(y)))
        if isinstance(op, ast.Mult):
            return mkbool(And(bool_t(x), bool_t(y)))
        if isinstance(op, ast.Sub):
            I.raise_("TypeError", "boolean subtract", n)
    return I.arith(op, x, y, n)


def binop(I, op, a, b, n):
    if isinstance(op, ast.MatMult):
        return matmul(I, a, b, n)
    x, y = arr(I, a), arr(I, b)
    if isinstance(op, ast.Div):
        dt = "float"
    elif isinstance(op, ast.Pow):
        dt = join_dtype(x.dtype, y.dtype)
    else:
        dt = join_dtype(x.dtype, y.dtype)
    return mapn(I, [a, b], lambda p, q: np_arith(I, op, p, q, n), dt, n)


def compare(I, op, a, b, n):
    for v, w in ((a, b), (b, a)):
        if isinstance(v, (SU, str)) and isinstance(op, (ast.Eq, ast.NotEq)):
            x = arr(I, w)
            if x.dtype != "object":
                raise Unsupported("comparison of numbers with a text or an object")
            return new(I, x.shape, lambda *i: I.compare(op, x.elem(*i), v, n), "bool")
    return mapn(I, [a, b], lambda p, q: I.compare(op, p, q, n), "bool", n)


def overwrite(I, ref, newv, node=None):
    c = I.e.get(ref)
    a = arr(I, newv)
    if isinstance(c, ArrC):
        old = c
        shape, (p,) = (c.shape, [a])
        if len(a.shape) < len(c.shape) or a.shape != c.shape:
            bs, ps = broadcast(I, [ArrC(c.shape, c.elem, c.dtype), a], node)
            el = ps[1]
        else:
            el = a.elem
        I.e.put(ref, ArrC(c.shape, memo_elem(lambda *i: coerce(el(*i), old.dtype)), old.dtype))
    else:
        setitem(I, ref, tuple(Slice(None, None, None) for _ in c.shape) if len(c.shape) > 1
                else Slice(None, None, None), newv, node)


# ------------------------------------------------------------------ reductions
def params_of(t, out=None, seen=None):
    """Generic variables (names g!...) of a term, in order of first occurrence."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("g!"):
                out.append(x)
            else:
                st.extend(reversed(x.children()))
    return out


def fixed_args(t, out):
    """{id: (simplified term, [terms as written])} of the arguments beside the item RX of uninterpreted functions."""
    memo = {}

    def info(x):        # (mentions RX, has bound variables)
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_var(x):
            r = (False, True)
        elif z3.is_quantifier(x):
            r = (info(x.body())[0], True)
        else:
            r = (x.eq(RX), False)
            for c in x.children():
                q = info(c)
                r = (r[0] or q[0], r[1] or q[1])
        memo[i] = r
        return r
    done, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if not z3.is_app(x) or not x.num_args():
            continue
        ch = x.children()
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(info(c)[0] for c in ch):
            for c in ch:
                if info(c) == (False, False) and c.sort() == z3.IntSort():
                    k = z3.simplify(c)
                    if not z3.is_int_value(k):
                        have = out.setdefault(k.get_id(), (k, []))[1]
                        if not any(c.eq(o) for o in have):
                            have.append(c)
        st.extend(reversed(ch))
    return out


class Reducer:
    def __init__(self, kind, params, n, terms, fns, defs):
        self.kind, self.params, self.n, self.terms, self.fns = kind, params, n, terms, fns
        self.finite = None
        self.defs = defs      # names of the symbols defined; shared with its axioms


def canon_param(I, i, sort):
    """The i-th parameter name of reductions (kept, so that equal terms stay identical)."""
    c = I.e.canon.get((i, sort.name()))
    if c is None:
        c = I.e.canon[i, sort.name()] = z3.Const(f"px!{i}", sort)
    return c


COMMUTES = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT}


def shape_of(t, depth=6):
    """The operations of a term, without the names of its constants and functions and the order of operands."""
    if not z3.is_app(t):
        return "?"
    kind = t.decl().kind()
    nm = "" if kind == z3.Z3_OP_UNINTERPRETED else t.decl().name() if t.num_args() else str(t)
    if not depth or not t.num_args():
        return nm
    args = [shape_of(a, depth - 1) for a in t.children()]
    return nm + "(" + ",".join(sorted(args) if kind in COMMUTES else args) + ")"


def ordered(t, key):
    """The operands of a conjunction or disjunction in an order which does not depend on how they are written."""
    if z3.is_and(t) or z3.is_or(t):
        args = sorted((ordered(a, key) for a in t.children()), key=key)
        return z3.And(*args) if z3.is_and(t) else z3.Or(*args)
    if z3.is_not(t):
        return z3.Not(ordered(t.arg(0), key))
    return t


def reducer(I, kind, n, body, rsorts, extra=()):
    """A function symbol for a reduction.

    body(r) -> tuple of z3 terms describing the r-th item (r is the placeholder RX); rsorts: result
    sorts.  Returns (Reducer, fresh?, actual parameter terms): result_i = fns[i](*actuals).
    """
    e = I.e
    depth = getattr_py(I, "red_depth", 0)
    ph = z3.Const(f"g!r{depth}", z3.IntSort())
    I.red_depth = depth + 1
    try:
        raw = body(ph)
    finally:
        I.red_depth = depth
    rawt = [z3.substitute(t, (ph, RX)) for t in raw] + list(extra)
    rawn = dim_t(n)
    # arguments which do not depend on the item are parameters as a whole
    cand = {}
    for t in rawt:
        fixed_args(t, cand)
    tmp = [(t, z3.Const(f"g!tmp!{i}", t.sort()), c) for i, (t, c) in enumerate(cand.values())]
    if tmp:
        sub0 = [(o, v) for _, v, c in tmp for o in c]
        rawt = [z3.substitute(t, *sub0) for t in rawt]
    back = {v.get_id(): t for t, v, _ in tmp}
    used, seen = [], set()
    simple = [z3.simplify(t) for t in [*rawt, rawn]]
    for t in simple:
        params_of(t, used, seen)
    order, seen = [], set()
    for t, u in zip([*rawt, rawn], simple):
        if not (z3.is_int_value(u) or z3.is_rational_value(u)):
            params_of(ordered(t, lambda a: shape_of(z3.simplify(a))), order, seen)
    # names first, then simplification: the normal form must not depend on the names
    actual = [p for p in order if any(p.eq(u) for u in used)]
    actual += [u for u in used if not any(p.eq(u) for p in actual)]
    canon = [canon_param(I, i, a.sort()) for i, a in enumerate(actual)]
    sub = list(zip(actual, canon))
    actual = [back.get(a.get_id(), a) for a in actual]
    norm = lambda t: z3.simplify(z3.substitute(t, *sub) if sub else t, sort_sums=True)
    norm = lambda t, f=norm: ordered(f(t), lambda a: (shape_of(a), a.get_id()))
    cterms, cn = [norm(t) for t in rawt], norm(rawn)
    key = (kind, cn.get_id(), tuple(t.get_id() for t in cterms), tuple(str(s) for s in rsorts))
    hit = e.reducers.get(key)
    if hit is not None:
        return hit, False, actual
    e.keep += [cn, *cterms]
    nm = e.fresh_name(kind)
    fns = []
    for i, s in enumerate(rsorts):
        if canon:
            fns.append(z3.Function(f"{nm}.{i}", *[c.sort() for c in canon], s))
        else:
            c0 = z3.Const(f"{nm}.{i}", s)
            fns.append(lambda c0=c0: c0)
    r = Reducer(kind, canon, cn, cterms, fns, {f"{nm}.{i}" for i in range(len(rsorts))})
    e.reducers[key] = r
    return r, True, actual


def forall(vs, t, patterns=None):
    vs = [v for v in vs]
    if not vs:
        return t
    if z3.is_true(t):
        return t
    if patterns:
        return z3.ForAll(vs, t, patterns=patterns)
    return z3.ForAll(vs, t)


def at(r, term, idx):
    return z3.substitute(term, (RX, idx))


def all_finite(kinds):
    return all(isinstance(k, int) and k == 0 for k in kinds)


def f_terms(v):
    """(kind term, value term) of a scalar as floats."""
    f = to_f(v)
    return z3.IntVal(f.kind) if isinstance(f.kind, int) else f.kind, f.val


def always_finite(I, r):
    """Do the global preconditions make the reduction finite for all parameters? (not path dependent)"""
    if r.finite is None:
        r.finite = False
        k = r.fns[0](*r.params)
        s = I.e.solver(1500)
        s.set("rlimit", 300000)
        for a in I.e.relevant_axioms([k]):
            s.add(a)
        s.add(k != 0)
        r.finite = s.check() == z3.unsat
    return r.finite


def sf_of(k, v):
    if z3.is_int_value(k):
        return SF(v, k.as_long())
    return SF(v, k)


def red_extreme(I, kind, n, body, nan_ignore=False):
    """min / max (and nanmin / nanmax) of body(0..n-1) as a scalar; n > 0 is obliged by callers."""
    sample = body(SMP)
    isint = isinstance(sample, (int, SInt)) and not isinstance(sample, bool)
    r, fresh, act = reducer(I, kind, n, lambda rx: f_terms(body(rx)), [z3.IntSort(), z3.RealSort(), z3.IntSort()])
    kt, vt = r.terms[:2]
    F = lambda *a: sf_of(z3.IntVal(0) if z3.is_int_value(kt) and kt.as_long() == 0 else r.fns[0](*a), r.fns[1](*a))
    if fresh:
        ps = r.params
        q = z3.Int("q!r")
        item = lambda i: sf_of(at(r, kt, i), at(r, vt, i))
        le = (lambda a, b: sym.f_le(a, b)) if kind.endswith("min") else (lambda a, b: sym.f_le(b, a))
        f, w = F(*ps), r.fns[2](*ps)
        inr = And(0 <= q, q < r.n)
        if z3.is_int_value(kt) and kt.as_long() == 0:
            I.e.axiom(forall(ps, Implies(r.n > 0, And(0 <= w, w < r.n, f.val == at(r, vt, w)))), r.defs)
            I.e.axiom(forall([*ps, q], Implies(inr, le(f, item(q)))), r.defs)
        else:
            anynan = z3.Exists([q], And(inr, sym.isnan(item(q))))
            if nan_ignore:
                somenum = z3.Exists([q], And(inr, Not(sym.isnan(item(q)))))
                I.e.axiom(forall(ps, Implies(somenum, And(0 <= w, w < r.n, Not(sym.isnan(item(w))), sym.f_same(f, item(w))))), r.defs)
                I.e.axiom(forall([*ps, q], Implies(And(inr, Not(sym.isnan(item(q)))), le(f, item(q)))), r.defs)
                I.e.axiom(forall(ps, Implies(Not(somenum), sym.isnan(f))), r.defs)
            else:
                I.e.axiom(forall(ps, Implies(And(r.n > 0, Not(anynan)), And(0 <= w, w < r.n, sym.f_same(f, item(w))))), r.defs)
                I.e.axiom(forall([*ps, q], Implies(And(inr, Not(anynan)), le(f, item(q)))), r.defs)
                I.e.axiom(forall(ps, Implies(anynan, sym.isnan(f))), r.defs)
    out = F(*act)
    if not isinstance(out.kind, int) and always_finite(I, r):
        out = SF(out.val, 0)
    if isint:
        # integer data: the extreme is the integer itself
        return mkint(z3.ToInt(out.val))
    return out


def red_arg(I, kind, n, body):
    """argmin / argmax: first index attaining the extreme (first NaN if any)."""
    r, fresh, act = reducer(I, kind, n, lambda rx: f_terms(body(rx)), [z3.IntSort()])
    kt, vt = r.terms[:2]
    if fresh:
        ps = r.params
        q = z3.Int("q!r")
        item = lambda i: sf_of(at(r, kt, i), at(r, vt, i))
        le = (lambda a, b: sym.f_le(a, b)) if kind == "argmin" else (lambda a, b: sym.f_le(b, a))
        lt = (lambda a, b: sym.f_lt(a, b)) if kind == "argmin" else (lambda a, b: sym.f_lt(b, a))
        a = r.fns[0](*ps)
        inr = And(0 <= q, q < r.n)
        I.e.axiom(forall(ps, Implies(r.n > 0, And(0 <= a, a < r.n))), r.defs)
        if z3.is_int_value(kt) and kt.as_long() == 0:
            I.e.axiom(forall([*ps, q], Implies(inr, le(item(a), item(q)))), r.defs)
            I.e.axiom(forall([*ps, q], Implies(And(0 <= q, q < a), lt(item(a), item(q)))), r.defs)
        else:
            anynan = z3.Exists([q], And(inr, sym.isnan(item(q))))
            I.e.axiom(forall([*ps, q], Implies(And(inr, Not(anynan)), le(item(a), item(q)))), r.defs)
            I.e.axiom(forall([*ps, q], Implies(And(0 <= q, q < a, Not(anynan)), lt(item(a), item(q)))), r.defs)
            I.e.axiom(forall(ps, Implies(And(anynan, r.n > 0), sym.isnan(item(a)))), r.defs)
            I.e.axiom(forall([*ps, q], Implies(And(0 <= q, q < a), Not(sym.isnan(item(q))))), r.defs)
    return mkint(r.fns[0](*act))


def unselect(I, n, body):
    """A count over selected positions as the count over all positions which are selected (None: it is none)."""
    nt = dim_t(n)
    if not z3.is_app(nt) or nt.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return None
    hit = I.e.memo.get(("selname", nt.decl().name()))
    if hit is None:
        return None
    r, sg = hit
    k, i = z3.Int("g!sel"), z3.Int("g!all")
    s = sg(*nt.children(), k)
    t = z3.substitute(z3.simplify(bool_t(body(k))), (z3.simplify(s), i), (s, i))
    if any(x.eq(k) for x in params_of(t)):
        return None
    sub = list(zip(r.params, nt.children()))
    mask = z3.substitute(r.terms[0], *sub) if sub else r.terms[0]
    base = z3.substitute(r.n, *sub) if sub else r.n
    return mkdim(base), lambda q: mkbool(And(z3.substitute(mask, (RX, q)), z3.substitute(t, (i, q))))


def red_count(I, n, body):
    """Number of r in [0, n) with body(r): a z3 Int."""
    alt = unselect(I, n, body) if I.unselect else None
    if alt is not None:
        return red_count(I, *alt)
    r, fresh, act = reducer(I, "count", n, lambda rx: (bool_t(body(rx)),), [z3.IntSort(), z3.IntSort(), z3.IntSort()])
    if fresh:
        ps, b = r.params, r.terms[0]
        q = z3.Int("q!r")
        c, w, u = r.fns[0](*ps), r.fns[1](*ps), r.fns[2](*ps)
        inr = And(0 <= q, q < r.n)
        I.e.axiom(forall(ps, And(c >= 0, Implies(r.n >= 0, c <= r.n))), r.defs)
        I.e.axiom(forall([*ps, q], Implies(And(inr, at(r, b, q)), c >= 1)), r.defs)
        I.e.axiom(forall(ps, Implies(c > 0, And(0 <= w, w < r.n, at(r, b, w)))), r.defs)
        I.e.axiom(forall([*ps, q], Implies(And(inr, Not(at(r, b, q))), c < r.n)), r.defs)
        I.e.axiom(forall(ps, Implies(And(c < r.n), And(0 <= u, u < r.n, Not(at(r, b, u))))), r.defs)
    return r.fns[0](*act)


def count_of(I, n, cond):
    """Specification: the number of r in [0, n) with cond(r), as a term."""
    return red_count(I, n, lambda r: mkbool(cond(r)))


def extensional(I):
    """Reductions of the same kind over pointwise equal data are equal (emitted for every pair in use)."""
    rs = list(I.e.reducers.values())
    for i, a in enumerate(rs):
        for b in rs[i + 1:]:
            if a.kind != b.kind or a.kind in ("sel", "argsort") or len(a.terms) != len(b.terms) or len(a.fns) > 3 \
                    or [t.sort() for t in a.terms] != [t.sort() for t in b.terms]:
                continue
            pb = [z3.Const(f"py!{q}", p.sort()) for q, p in enumerate(b.params)]
            sub = list(zip(b.params, pb))
            q = z3.Int("q!x")
            tb = [z3.substitute(t, *sub) for t in b.terms]
            nb = z3.substitute(b.n, *sub)
            same = And(a.n == nb, z3.ForAll([q], Implies(And(0 <= q, q < a.n), And(*[
                at(a, s, q) == at(a, t, q) for s, t in zip(a.terms, tb)]))))
            fa, fb = a.fns[0](*a.params), b.fns[0](*pb)
            out = fa == fb
            if a.kind not in ("count",) and len(a.fns) == 2:
                out = And(out, a.fns[1](*a.params) == b.fns[1](*pb))
            if a.params and [p.sort() for p in a.params] == [p.sort() for p in pb]:
                ident = list(zip(pb, a.params))
                I.e.axiom(forall(a.params, z3.substitute(Implies(same, out), *ident),
                                 [fa, z3.substitute(fb, *ident)]), {fa.decl().name(), fb.decl().name()})
            vs = [*a.params, *pb]
            pats = [z3.MultiPattern(fa, fb)] if a.params and pb else [fa] if a.params else [fb] if pb else None
            I.e.axiom(forall(vs, Implies(same, out), pats), {fa.decl().name(), fb.decl().name()})


def red_sum(I, n, body):
    s = body(SMP)
    if isinstance(s, (bool, SBool)):
        return mkint(red_count(I, n, body))
    if isinstance(n, int) and n <= 8:
        tot = body(z3.IntVal(0)) if n else 0
        for i in range(1, n):
            tot = I.arith(ast.Add(), tot, body(z3.IntVal(i)))
        return tot
    if isinstance(s, (int, SInt)):
        r, fresh, act = reducer(I, "isum", n, lambda rx: (int_t(body(rx)),), [z3.IntSort()])
        return SInt(r.fns[0](*act))
    return red_opaque(I, "sum", n, body)


def red_opaque(I, kind, n, body, extra=(), nonneg=False, between=False, atleast=0):
    """An uninterpreted real statistic of a column: NaN iff some item is NaN (or nothing to reduce)."""
    r, fresh, act = reducer(I, kind, n, lambda rx: f_terms(body(rx)), [z3.IntSort(), z3.RealSort()], extra)
    kt, vt = r.terms[:2]
    fin = z3.is_int_value(kt) and kt.as_long() == 0 and not atleast
    F = lambda *a: sf_of(z3.IntVal(0) if fin else r.fns[0](*a), r.fns[1](*a))
    if fresh:
        ps = r.params
        q = z3.Int("q!r")
        f = F(*ps)
        inr = And(0 <= q, q < r.n)
        if nonneg:
            I.e.axiom(forall(ps, f.val >= 0), r.defs)
        if not fin:
            fins = z3.ForAll([q], Implies(inr, at(r, kt, q) == 0))
            anynan = z3.Exists([q], And(inr, at(r, kt, q) == 3))
            I.e.axiom(forall(ps, Implies(And(fins, r.n >= atleast), f.kind == 0)), r.defs)
            I.e.axiom(forall(ps, Implies(r.n < atleast, f.kind == 3)), r.defs)
            I.e.axiom(forall(ps, Implies(anynan, f.kind == 3)), r.defs)
            I.e.axiom(forall(ps, And(f.kind >= 0, f.kind <= 3)), r.defs)
    out = F(*act)
    return SF(out.val, 0) if not fin and always_finite(I, r) else out


def reduce_axis(I, v, axis, f, dtype, node=None, keepdims=False, nest=False, anyorder=False):
    """Apply f(n, body) along an axis (None: all elements; anyorder: in one of the two orders)."""
    a = arr(I, v)
    if anyorder and axis is None and len(a.shape) == 2:
        p, q = z3.Int("g!p"), z3.Int("g!q")
        one, two = (sym.shape_key(v.val) if (v := to_f(x)) is not None else None for x in (a.elem(p / q, p % q), a.elem(p % q, p / q)))
        if two < one:
            a = ArrC(a.shape[::-1], lambda i, j, a=a: a.elem(j, i), a.dtype)
    if isinstance(axis, int) and axis < 0:
        axis += len(a.shape)
    if axis is None:
        if len(a.shape) == 1:
            return f(a.shape[0], lambda r: a.elem(r))
        if len(a.shape) == 0:
            return f(1, lambda r: a.elem())
        if len(a.shape) == 2:
            n, d = a.shape
            if isinstance(d, int) and d == 1:
                return f(n, lambda r: a.elem(r, z3.IntVal(0)))
            if nest:      # the extreme of the columns' extremes
                return f(d, lambda c: f(n, lambda r: a.elem(r, c)))
            nt, dt = dim_t(n), dim_t(d)
            return f(mkdim(nt * dt), lambda r: a.elem(r / dt, r % dt))
        raise Unsupported("reduction of a 3-d array")
    if not isinstance(axis, int) or axis >= len(a.shape):
        raise Unsupported("reduction axis")
    n = a.shape[axis]
    rest = a.shape[:axis] + a.shape[axis + 1:]
    full = lambda idx, r: a.elem(*idx[:axis], r, *idx[axis:])
    if not rest:
        return f(n, lambda r: a.elem(r))
    if keepdims:
        shape = a.shape[:axis] + (1,) + a.shape[axis + 1:]
        return new(I, shape, lambda *idx: f(n, lambda r: full(idx[:axis] + idx[axis + 1:], r)), dtype)
    return new(I, rest, lambda *idx: f(n, lambda r: full(idx, r)), dtype)


def nonempty(I, v, axis, node, what):
    a = arr(I, v)
    dims = a.shape if axis is None else (a.shape[axis],)
    for d in dims:
        if isinstance(d, int):
            if d == 0:
                I.raise_("ValueError", f"{what} of an empty array", node)
        elif I.e.spec_mode == 0:
            I.e.oblige(f"{what} of a non-empty array", d > 0, node, kind="safety")
            I.e.assume(d > 0)


def r_all(I, v, axis=None, node=None, neg=False):
    q = "q!all"

    def f(n, body):
        if isinstance(n, int) and n <= 8:
            return mkbool(And(*[bool_t(body(z3.IntVal(i))) for i in range(n)]))
        x = I.e.generic("g!q")
        b = bool_t(body(x))
        return mkbool(TRUE if z3.is_true(b) else z3.ForAll([x], Implies(And(0 <= x, x < dim_t(n)), b)))
    return reduce_axis(I, v, axis, f, "bool", node)


def r_any(I, v, axis=None, node=None):
    def f(n, body):
        if isinstance(n, int) and n <= 8:
            return mkbool(Or(*[bool_t(body(z3.IntVal(i))) for i in range(n)]))
        x = I.e.generic("g!q")
        b = bool_t(body(x))
        return mkbool(FALSE if z3.is_false(b) else z3.Exists([x], And(0 <= x, x < dim_t(n), b)))
    return reduce_axis(I, v, axis, f, "bool", node)


def r_mean(I, v, axis=None, node=None, keepdims=False):
    I.e.trusted("numpy.mean")

    def f(n, body):
        if isinstance(body(SMP), (bool, SBool, int, SInt)):
            s = red_sum(I, n, body)
        else:
            s = red_opaque(I, "sum", n, body)
        return sym.f_div(s, dimval(n))
    return reduce_axis(I, v, axis, f, "float", node, keepdims, anyorder=True)


# ------------------------------------------------------------------ selections
def mask_sel(I, n, maskfn, node=None):
    """Positions selected by a boolean mask: (count, sigma(k)->index term)."""
    if isinstance(n, int) and n <= 12:
        ms = [z3.simplify(bool_t(maskfn(z3.IntVal(i)))) for i in range(n)]
        if all(z3.is_true(m) or z3.is_false(m) for m in ms):
            pos = [i for i in range(n) if z3.is_true(ms[i])]
            return len(pos), (lambda k: z3.IntVal(pos[k.as_long()]) if z3.is_int_value(k) and 0 <= k.as_long() < len(pos)
                              else I.seq_of(ListC(pos)).get(k) if not pos else _pick(pos, k))
    r, fresh, act = reducer(I, "sel", n, lambda rx: (bool_t(maskfn(rx)),), [z3.IntSort(), z3.IntSort()])
    nm = I.e.memo.get(("sel", id(r)))
    if nm is None:
        ps = r.params
        so = [c.sort() for c in ps]
        sg = z3.Function(I.e.fresh_name("sigma"), *so, z3.IntSort(), z3.IntSort())
        ta = z3.Function(I.e.fresh_name("rank"), *so, z3.IntSort(), z3.IntSort())
        r.defs |= {sg.name(), ta.name()}
        m = r.fns[0](*ps)
        b = r.terms[0]
        k, l, i = z3.Ints("k!s l!s i!s")
        if has_quantifier(b) or not sym._small(b, 12):       # a name for the mask, so that it is unfolded only where needed
            mp = z3.Function(I.e.fresh_name("mask"), *so, z3.IntSort(), z3.BoolSort())
            r.defs.add(mp.name())
            I.e.axiom(forall([*ps, i], mp(*ps, i) == at(r, b, i), [mp(*ps, i)]), {mp.name()})
            named = mp(*ps, RX)
        else:
            named = b
        s = sg(*ps, k)
        I.e.axiom(forall(ps, And(m >= 0, Implies(r.n >= 0, m <= r.n))), r.defs)
        I.e.axiom(forall([*ps, k], Implies(And(0 <= k, k < m), And(0 <= s, s < r.n, at(r, named, s), ta(*ps, s) == k)),
                         [sg(*ps, k)]), r.defs)
        I.e.axiom(forall([*ps, k, l], Implies(And(0 <= k, k < l, l < m), s < sg(*ps, l)),
                         [z3.MultiPattern(sg(*ps, k), sg(*ps, l))]), r.defs)
        ti = ta(*ps, i)
        bi = at(r, named, i)
        I.e.axiom(forall([*ps, i], Implies(And(0 <= i, i < r.n, bi), And(0 <= ti, ti < m, sg(*ps, ti) == i)),
                         [ta(*ps, i)]), r.defs)
        # the same, triggered by mention of the mask at i
        bi = at(r, b, i)
        I.e.axiom(forall([*ps, i], Implies(And(0 <= i, i < r.n, bi), And(m >= 1, 0 <= ti, ti < m, sg(*ps, ti) == i))), r.defs)
        bi = at(r, named, i)
        # nothing removed: the selection is the identity
        al = z3.ForAll([i], Implies(And(0 <= i, i < r.n), bi))
        I.e.axiom(forall(ps, Implies(And(r.n >= 0, al), m == r.n)), r.defs)
        I.e.axiom(forall([*ps, k], Implies(And(m == r.n, 0 <= k, k < m), s == k), [sg(*ps, k)]), r.defs)
        if not ps:
            I.e.inst_hooks.append(({sg.name(), ta.name(), m.decl().name()}, lambda t: Implies(
                And(0 <= t, t < r.n, at(r, named, t)), And(0 <= ta(t), ta(t) < m, sg(ta(t)) == t))))
        nm = (sg, ta)
        I.e.memo[("sel", id(r))] = nm
        I.e.memo["selname", m.decl().name()] = (r, sg)
        I.e.keep.append(r)
        I.e.trusted("numpy boolean-mask indexing")
    sg, ta = nm
    return mkdim(r.fns[0](*act)), (lambda k: sg(*act, k))


def _pick(pos, k):
    t = z3.IntVal(pos[-1])
    for i in range(len(pos) - 2, -1, -1):
        t = z3.If(k == i, z3.IntVal(pos[i]), t)
    return t


def is_mask(I, k):
    return isinstance(k, Ref) and isinstance(I.e.get(k), (ArrC, ViewC)) and arr(I, k).dtype == "bool"


def slice_bounds(I, s, n, node):
    """(length, index map) of a slice over a dimension n."""
    step = s.step if s.step is not None else 1
    if not isinstance(step, int) or step == 0:
        raise Unsupported("symbolic slice step")
    nt = dim_t(n)
    if all(x is None or isinstance(x, int) for x in (s.lo, s.hi)) and isinstance(n, int):
        r = range(n)[slice(s.lo, s.hi, step)]
        return len(r), (lambda k: z3.simplify(k * r.step + r.start) if len(r) else k)
    if step == 1:
        lo = I.clip_index(s.lo, nt, z3.IntVal(0))
        hi = I.clip_index(s.hi, nt, nt)
        ln = mkdim(z3.If(hi > lo, hi - lo, z3.IntVal(0)) if not (s.lo is None) else
                   (hi if s.hi is not None else nt))
        if s.lo is None and s.hi is not None:
            ln = mkdim(hi)
        return ln, (lambda k: z3.simplify(k + lo))
    if step == -1 and s.lo is None and s.hi is None:
        return n, (lambda k: z3.simplify(nt - 1 - k))
    if step > 1 and s.hi is None:
        lo = I.clip_index(s.lo, nt, z3.IntVal(0))
        ln = mkdim(z3.If(nt > lo, (nt - lo + step - 1) / step, z3.IntVal(0)))
        return ln, (lambda k: z3.simplify(k * step + lo))
    raise Unsupported("slice with this step")


def index_plan(I, a, key, node):
    """Describe a[key]: list per result dim, and a map from result indices to base indices."""
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis or (isinstance(k, Opaque)) for k in key):
        raise Unsupported("ellipsis index")
    # whole-array boolean mask
    if len(key) == 1 and is_mask(I, key[0]):
        m = arr(I, key[0])
        if len(m.shape) == len(a.shape) and len(m.shape) > 1:
            return ("fullmask", m)
    plan = []   # per base dim: ('int', t) ('slice', ln, f) ('adv', ln, f) ; 'new' entries for None
    bi = 0
    for k in key:
        if k is None:
            plan.append(("new",))
            continue
        if bi >= len(a.shape):
            I.raise_("IndexError", "too many indices", node)
        n = a.shape[bi]
        if isinstance(k, Slice):
            plan.append(("slice",) + slice_bounds(I, k, n, node))
        elif isinstance(k, (int, SInt)) and not isinstance(k, bool):
            plan.append(("int", I.norm_index(k, n, node)))
        elif is_mask(I, k):
            m = arr(I, k)
            if len(m.shape) != 1:
                raise Unsupported("2-d mask in a tuple index")
            check_dim(I, m.shape[0], n, node, "boolean mask has the indexed length")
            ln, f = mask_sel(I, n, m.elem, node)
            plan.append(("adv", ln, f))
        elif isinstance(k, (Ref, tuple)):
            m = arr(I, k)
            if len(m.shape) == 1 and m.dtype == "float" and isinstance(m.shape[0], int) and m.shape[0] == 0:
                plan.append(("adv", 0, lambda j: j))
                bi += 1
                continue
            if len(m.shape) != 1 or m.dtype != "int":
                raise Unsupported(f"index array of dtype {m.dtype}")
            nt = dim_t(n)
            if isinstance(m.shape[0], int) and m.shape[0] == 1:
                t = I.norm_index(m.elem(z3.IntVal(0)), n, node)
                plan.append(("adv", 1, lambda j, t=t: z3.IntVal(t) if isinstance(t, int) else t))
                bi += 1
                continue
            q = I.e.generic("g!q")
            t = int_t(m.elem(q))
            ok = z3.ForAll([q], Implies(And(0 <= q, q < dim_t(m.shape[0])), And(t >= -nt, t < nt)))
            if I.e.spec_mode == 0:
                I.e.oblige("index array within bounds", ok, node, kind="safety")
                I.e.assume(ok)
            pos = z3.ForAll([q], Implies(And(0 <= q, q < dim_t(m.shape[0])), t >= 0))

            def f(j, m=m, nt=nt):
                x = int_t(m.elem(j))
                x = z3.simplify(x)
                return x if natural(x) else z3.If(x < 0, x + nt, x)
            plan.append(("adv", m.shape[0], f))
        else:
            raise Unsupported(f"index {k!r}")
        bi += 1
    while bi < len(a.shape):
        plan.append(("slice", a.shape[bi], lambda k: k))
        bi += 1
    return ("plan", plan)


def check_dim(I, d1, d2, node, label):
    if isinstance(d1, int) and isinstance(d2, int):
        if d1 != d2:
            I.raise_("IndexError", label, node)
        return
    if not (z3.is_expr(d1) and z3.is_expr(d2) and d1.eq(d2)) and I.e.spec_mode == 0:
        I.e.oblige(label, dim_t(d1) == dim_t(d2), node, kind="safety")
        I.e.assume(dim_t(d1) == dim_t(d2))


def getitem(I, v, key, node=None):
    a = arr(I, v)
    kind, plan = index_plan(I, a, key, node)
    if kind == "fullmask":
        n, d = a.shape
        nt, dt = dim_t(n), dim_t(d)
        ln, f = mask_sel(I, mkdim(nt * dt), lambda r: plan.elem(r / dt, r % dt), node)
        return new(I, (ln,), lambda k: a.elem(f(k) / dt, f(k) % dt), a.dtype)
    advs = [p for p in plan if p[0] == "adv"]
    if len(advs) > 1:
        # paired (zipped) advanced indices
        ln = advs[0][1]
        for p in advs[1:]:
            check_dim(I, p[1], ln, node, "paired index arrays have equal lengths")
        first = next(i for i, p in enumerate(plan) if p[0] == "adv")
        last = max(i for i, p in enumerate(plan) if p[0] == "adv")
        if any(p[0] == "slice" for p in plan[first:last + 1]):
            raise Unsupported("separated advanced indices")
    shape, out = [], []
    done_adv = None
    for p in plan:
        if p[0] == "int":
            out.append(("c", p[1]))
        elif p[0] == "new":
            shape.append(1)
        elif p[0] == "slice":
            out.append(("m", len(shape), p[2]))
            shape.append(p[1])
        else:
            if done_adv is None:
                done_adv = len(shape)
                shape.append(p[1])
            out.append(("m", done_adv, p[2]))

    def imap(*idx):
        return [o[1] if o[0] == "c" else o[2](idx[o[1]]) for o in out]
    if not shape:
        return a.elem(*imap())
    if advs:
        res = new(I, shape, lambda *i: a.elem(*imap(*i)), a.dtype)
        keys = [k for k in (key if isinstance(key, tuple) else (key,)) if k is not None]
        masks = [(q, arr(I, k)) for q, k in enumerate(keys) if is_mask(I, k)]
        if len(shape) == 1 and len(advs) == 1 and len(masks) == 1 and a.dtype == "int":
            q, m = masks[0]       # its values: those of a where the mask holds
            p = I.e.generic("g!p")
            at_p = int_t(a.elem(*[p if b == q else o[1] for b, o in enumerate(out)]))
            values_of(I, res, lambda v: z3.Exists([p], And(0 <= p, p < dim_t(a.shape[q]), bool_t(m.elem(p)), at_p == v)), natural(at_p))
        return res
    base = v if isinstance(v, Ref) and isinstance(I.e.get(v), (ArrC, ViewC)) else I.e.alloc(a)
    return I.e.alloc(ViewC(base, shape, imap, plan, a.dtype))


def natural(t):
    """A position produced by argsort or a mask selection is never negative (within its range, where alone it is used)."""
    return z3.is_app(t) and t.decl().name().split("!")[0] in ("perm", "sigma")


def values_of(I, ref, member, nat):
    """Record which values the 1-d integer array holds."""
    I.e.get(ref).members = member, nat


def members(I, a):
    """Which values a 1-d integer array holds (a predicate over integer terms), and whether none is negative."""
    f = getattr(a, "members", None)
    if f is None:
        p = I.e.generic("g!p")
        at_p = int_t(a.elem(p))
        return (lambda v: z3.Exists([p], And(0 <= p, p < dim_t(a.shape[0]), at_p == v))), natural(at_p)
    return f


def setitem(I, v, key, val, node=None):
    c = I.e.get(v)
    if isinstance(c, ViewC):
        # write through a basic view: translate to the base
        b = force(I, I.e.get(c.base))
        plan = c.inv
        a = force(I, c)
        tmp = I.e.alloc(ArrC(a.shape, a.elem, a.dtype))
        setitem(I, tmp, key, val, node)
        na = I.e.get(tmp)
        conds = []
        if plan is None:
            raise Unsupported("write through this view")
        nb = {}

        def belem(*idx):
            g, sub, bi = [], [], 0
            for p in plan:
                if p[0] == "new":
                    sub.append(z3.IntVal(0))
                    continue
                i = idx[bi]
                bi += 1
                if p[0] == "int":
                    g.append(i == p[1])
                else:
                    lo = z3.simplify(p[2](z3.IntVal(0)))
                    stp = z3.simplify(p[2](z3.IntVal(1)) - lo)
                    if not (z3.is_int_value(stp) and stp.as_long() == 1):
                        raise Unsupported("write through a strided view")
                    sub.append(z3.simplify(i - lo))
                    g.append(And(i >= lo, i < lo + dim_t(p[1])))
            return I.ite(And(*g), coerce(na.elem(*sub), b.dtype), b.elem(*idx))
        I.e.put(c.base, ArrC(b.shape, memo_elem(belem), b.dtype)) if isinstance(I.e.get(c.base), ArrC) else \
            overwrite(I, c.base, I.e.alloc(ArrC(b.shape, belem, b.dtype)), node)
        return
    a = c
    kind, plan = index_plan(I, a, key, node)
    va = arr(I, val)
    if a.dtype == "int" and va.dtype == "float":
        # assignment truncates; only integral values keep their meaning
        raise Unsupported("float stored into an integer array")
    if kind == "fullmask":
        if va.shape:
            raise Unsupported("array stored through a 2-d mask")
        I.e.put(v, ArrC(a.shape, memo_elem(lambda *i: I.ite(bool_t(plan.elem(*i)), coerce(va.elem(), a.dtype), a.elem(*i))), a.dtype))
        return
    advs = [p for p in plan if p[0] == "adv"]
    # result dims and, per base dim, membership and position of a base index
    shape, dims = [], []
    done_adv = None
    for p in plan:
        if p[0] == "int":
            dims.append(("c", p[1]))
        elif p[0] == "new":
            shape.append(1)
        elif p[0] == "slice":
            dims.append(("s", len(shape), p))
            shape.append(p[1])
        else:
            if done_adv is None:
                done_adv = len(shape)
                shape.append(p[1])
            dims.append(("a", done_adv, p))
    if len(advs) > 1:
        raise Unsupported("store through several index arrays")
    # broadcast the value to the selection shape
    if va.shape:
        off = len(shape) - len(va.shape)
        if off < 0:
            if all(isinstance(x, int) and x == 1 for x in va.shape[: -off]):
                lead = -off
                va0 = va
                va = ArrC(va.shape[lead:], lambda *i: va0.elem(*([z3.IntVal(0)] * lead), *i), va.dtype)
                off = 0
            else:
                I.raise_("ValueError", "broadcast", node)
        for q, s in enumerate(va.shape):
            if isinstance(s, int) and s == 1:
                continue
            check_dim(I, s, shape[q + off], node, "stored shape agrees")

        def vat(idx):
            sub = []
            for q, s in enumerate(va.shape):
                sub.append(z3.IntVal(0) if isinstance(s, int) and s == 1 else idx[q + off])
            return va.elem(*sub)
    else:
        def vat(idx):
            return va.elem()
    key_t = key if isinstance(key, tuple) else (key,)
    rank = {}
    for bi, d in enumerate(dims):
        if d[0] == "a":
            # inverse of the selection: mask rank, or a Skolem position for index arrays
            f = d[2][2]
            ln = d[2][1]
            inv = z3.Function(I.e.fresh_name("pos"), *[g.sort() for g in I.e.generics], z3.IntSort(), z3.IntSort())
            g = list(I.e.generics)
            i, j = z3.Ints("i!s j!s")
            k = [x for x in key_t if x is not None][bi] if bi < len(key_t) else None
            if isinstance(ln, int) and ln == 1:
                rank[bi] = (lambda i, f=f: i == f(z3.IntVal(0)), lambda i: z3.IntVal(0))
                continue
            if k is not None and is_mask(I, k):
                m = arr(I, k)
                inside = lambda i, m=m: bool_t(m.elem(i))
                if va.shape:
                    n_t = dim_t(a.shape[bi])
                    I.e.assume(z3.ForAll([i], Implies(And(0 <= i, i < n_t, inside(i)), And(0 <= inv(*g, i), inv(*g, i) < dim_t(ln), f(inv(*g, i)) == i))))
            else:
                def inside(i, f=f, ln=ln, k=k, nt=dim_t(a.shape[bi])):
                    if k is not None and not va.shape and isinstance(k, Ref):
                        has, nat = members(I, arr(I, k))
                        return has(i) if nat else Or(has(i), has(i - nt))
                    j = I.e.generic("g!j")
                    return z3.Exists([j], And(0 <= j, j < dim_t(ln), f(j) == i))
                if va.shape:
                    # last write wins
                    I.e.assume(z3.ForAll([j], Implies(And(0 <= j, j < dim_t(ln)), And(
                        inv(*g, f(j)) >= j, inv(*g, f(j)) < dim_t(ln), f(inv(*g, f(j))) == f(j)))))
            rank[bi] = (inside, lambda i, inv=inv, g=g: inv(*g, i))

    def elem(*idx):
        g, sel = [], [None] * len(shape)
        for bi, d in enumerate(dims):
            i = idx[bi]
            if d[0] == "c":
                g.append(i == d[1])
            elif d[0] == "s":
                ln, f = d[2][1], d[2][2]
                lo = z3.simplify(f(z3.IntVal(0)))
                stp = z3.simplify(f(z3.IntVal(1)) - lo)
                full = z3.is_int_value(lo) and lo.as_long() == 0 and I.same_dim(mkdim(dim_t(ln)), mkdim(dim_t(a.shape[bi])))
                if not (z3.is_int_value(stp) and stp.as_long() == 1):
                    if z3.is_int_value(stp) and stp.as_long() > 1:
                        s = stp.as_long()
                        sel[d[1]] = z3.simplify((i - lo) / s)
                        g.append(And(i >= lo, (i - lo) % s == 0, (i - lo) / s < dim_t(ln)))
                        continue
                    raise Unsupported("strided store")
                sel[d[1]] = z3.simplify(i - lo)
                if not full:
                    g.append(And(i >= lo, i < lo + dim_t(ln)))
            else:
                ins, pos = rank[bi]
                g.append(ins(i))
                sel[d[1]] = pos(i) if va.shape else None
        for q in range(len(sel)):
            if sel[q] is None:
                sel[q] = z3.IntVal(0)
        return I.ite(And(*g), coerce(vat(sel), a.dtype), a.elem(*idx))
    I.e.put(v, ArrC(a.shape, memo_elem(elem), a.dtype))
    hook = getattr_py(I, "on_store", None)
    if hook:
        hook(v, dims)


# ------------------------------------------------------------------ attributes and methods
def getattr_(I, v, name, node):
    a = arr(I, v)
    if name == "shape":
        return tuple(dimval(d) for d in a.shape)
    if name == "ndim":
        return len(a.shape)
    if name == "size":
        t = z3.IntVal(1)
        for d in a.shape:
            t = t * dim_t(d)
        return mkint(z3.simplify(t))
    if name == "T":
        if len(a.shape) != 2:
            return v
        return I.e.alloc(ViewC(v, (a.shape[1], a.shape[0]), lambda i, j: [j, i], None, a.dtype))
    if name == "dtype":
        return Opaque("dtype", {"kind": {"float": "f", "bool": "b", "int": "i"}.get(a.dtype, "O")})
    return MethodV(v, name)


def contains(I, c, v, n):
    a = arr(I, c)
    if len(a.shape) != 1:
        raise Unsupported("'in' on a 2-d array")
    if isinstance(a.shape[0], int):
        return Or(*[I.tb(I.eq_t(a.elem(z3.IntVal(i)), v, n)) for i in range(a.shape[0])])
    k = I.e.generic("g!k")
    return z3.Exists([k], And(0 <= k, k < dim_t(a.shape[0]), I.tb(I.eq_t(a.elem(k), v, n))))


def matmul(I, a, b, n=None):
    x, y = arr(I, a), arr(I, b)
    I.e.trusted("numpy.matmul / dot: sums of products")

    def dot(m, f, g):
        return red_sum(I, m, lambda r: sym.f_mul(f(r), g(r)))
    if len(x.shape) == 2 and len(y.shape) == 2:
        check_dim(I, x.shape[1], y.shape[0], n, "matrix shapes agree")
        m = x.shape[1]
        return new(I, (x.shape[0], y.shape[1]), lambda i, j: dot(m, lambda r: x.elem(i, r), lambda r: y.elem(r, j)), "float")
    if len(x.shape) == 2 and len(y.shape) == 1:
        check_dim(I, x.shape[1], y.shape[0], n, "matrix shapes agree")
        m = x.shape[1]
        return new(I, (x.shape[0],), lambda i: dot(m, lambda r: x.elem(i, r), lambda r: y.elem(r)), "float")
    if len(x.shape) == 1 and len(y.shape) == 2:
        m = x.shape[0]
        return new(I, (y.shape[1],), lambda j: dot(m, lambda r: x.elem(r), lambda r: y.elem(r, j)), "float")
    if len(x.shape) == 1 and len(y.shape) == 1:
        return dot(x.shape[0], x.elem, y.elem)
    raise Unsupported("matmul of these ranks")


# ------------------------------------------------------------------ installation
def shape_arg(I, s):
    if isinstance(s, (int, SInt)):
        return (mkdim(int_t(s)),)
    if isinstance(s, Ref):
        s = tuple(I.concrete_iter(s))
    return tuple(mkdim(int_t(x)) for x in s)


DT = {"builtins.bool": "bool", "builtins.int": "int", "builtins.float": "float", "numpy.bool_": "bool",
      "numpy.double": "float", "numpy.float64": "float", "numpy.intc": "int", "numpy.int64": "int",
      "numpy.int_": "int", "numpy.int32": "int", "numpy.float32": "float", "builtins.object": "object"}


def dtype_arg(d, default="float"):
    if d is None:
        return default
    if isinstance(d, LibV) and d.name in DT:
        return DT[d.name]
    if isinstance(d, str):
        return {"int": "int", "float": "float", "bool": "bool"}.get(d, "object")
    raise Unsupported(f"dtype {d!r}")


def fill(I, shape, v, dt):
    sh = shape_arg(I, shape)
    return new(I, sh, lambda *i: coerce(v, dt), dt)


def ufun(I, name, nonneg=False):
    f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())

    def g(x):
        x = to_f(x)
        if name == "sqrt":          # negative numbers and minus infinity have no root
            r = z3.Real("r!sqrt")
            I.e.axiom(z3.ForAll([r], Implies(r >= 0, And(f(r) >= 0, f(r) * f(r) == r)), patterns=[f(r)]), {"uf_sqrt"})
            neg = z3.simplify(Or(And(sym.kis(x.kind, 0), x.val < 0), sym.kis(x.kind, 2)))
            return SF(f(x.val), sym._kif(neg, 3, x.kind))
        if name.startswith("log"):  # finite above the limit; otherwise some kind of number
            k = z3.Function(f"uf_{name}_kind", z3.RealSort(), z3.IntSort(), z3.IntSort())
            r, q = z3.Real("r!log"), z3.Int("q!log")
            I.e.axiom(z3.ForAll([r, q], And(0 <= k(r, q), k(r, q) <= 3), patterns=[k(r, q)]), {k.name()})
            fine = z3.simplify(And(sym.kis(x.kind, 0), x.val > (-1 if name == "log1p" else 0)))
            return SF(f(x.val), z3.If(fine, z3.IntVal(0), k(x.val, x.kind if z3.is_expr(x.kind) else z3.IntVal(x.kind))))
        return SF(f(x.val), x.kind)
    return g


def np_where(I, args, kw, node):
    if len(args) == 1:
        a = arr(I, args[0])
        if len(a.shape) != 1:
            raise Unsupported("np.where with one 2-d argument")
        ln, f = mask_sel(I, a.shape[0], lambda r: mkbool(bool_t(a.elem(r))), node)
        return (new(I, (ln,), lambda k: mkint(f(k)), "int"),)
    x, y = arr(I, args[1]), arr(I, args[2])
    dt = join_dtype(x.dtype, y.dtype)
    return mapn(I, args, lambda c, p, q: I.ite(bool_t(c), coerce(p, dt), coerce(q, dt)), dt, node)


def minmax2(kind):
    def f(I, args, kw, node):
        def g(p, q):
            if is_floaty(p) or is_floaty(q):
                fp, fq = to_f(p), to_f(q)
                nan = Or(sym.isnan(fp), sym.isnan(fq))
                c = sym.f_le(fp, fq) if kind == "min" else sym.f_le(fq, fp)
                r = I.ite(c, fp, fq)
                return r if z3.is_false(nan) else I.ite(nan, SF(z3.RealVal(0), 3), r)
            c = int_t(p) <= int_t(q)
            return I.ite(c if kind == "min" else Not(c), p, q)
        x, y = arr(I, args[0]), arr(I, args[1])
        return mapn(I, args[:2], g, join_dtype(x.dtype, y.dtype), node)
    return f


def stack_cols(I, arrs, node):
    cols = []
    for a in arrs:
        if len(a.shape) == 1:
            cols.append(ArrC((a.shape[0], 1), lambda i, j, a=a: a.elem(i), a.dtype))
        else:
            cols.append(a)
    return cols


def concat(I, arrs, axis, node):
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = join_dtype(dt, a.dtype)
        for q in range(len(a.shape)):
            if q != axis:
                check_dim(I, a.shape[q], arrs[0].shape[q], node, "concatenated shapes agree")
    offs, tot = [], z3.IntVal(0)
    for a in arrs:
        offs.append(tot)
        tot = z3.simplify(tot + dim_t(a.shape[axis]))
    shape = list(arrs[0].shape)
    shape[axis] = mkdim(tot)

    def elem(*idx):
        i = idx[axis]
        v = None
        for a, o in reversed(list(zip(arrs, offs))):
            x = coerce(a.elem(*idx[:axis], z3.simplify(i - o), *idx[axis + 1:]), dt)
            v = x if v is None else I.ite(i < o + dim_t(a.shape[axis]), x, v)
        return v
    return new(I, shape, elem, dt)


def seq_arrs(I, v):
    return [arr(I, x) for x in I.concrete_iter(v)]


def argsort_fn(I, n, body, node=None):
    """A permutation pi sorting body ascending: (pi, inv)."""
    r, fresh, act = reducer(I, "argsort", n, lambda rx: f_terms(body(rx)), [z3.IntSort()])
    nm = I.e.memo.get(("argsort", id(r)))
    if nm is None:
        ps = r.params
        so = [c.sort() for c in ps]
        pi = z3.Function(I.e.fresh_name("perm"), *so, z3.IntSort(), z3.IntSort())
        iv = z3.Function(I.e.fresh_name("iperm"), *so, z3.IntSort(), z3.IntSort())
        r.defs |= {pi.name(), iv.name()}
        k, l = z3.Ints("k!s l!s")
        kt, vt = r.terms[:2]
        item = lambda i: sf_of(at(r, kt, i), at(r, vt, i))
        inr = lambda q: And(0 <= q, q < r.n)
        I.e.axiom(forall([*ps, k], Implies(inr(k), And(inr(pi(*ps, k)), iv(*ps, pi(*ps, k)) == k)), [pi(*ps, k)]), r.defs)
        I.e.axiom(forall([*ps, k], Implies(inr(k), And(inr(iv(*ps, k)), pi(*ps, iv(*ps, k)) == k)), [iv(*ps, k)]), r.defs)
        I.e.axiom(forall([*ps, k, l], Implies(And(0 <= k, k <= l, l < r.n),
                                              Or(sym.isnan(item(pi(*ps, l))), sym.f_le(item(pi(*ps, k)), item(pi(*ps, l))))),
                         [z3.MultiPattern(pi(*ps, k), pi(*ps, l))]), r.defs)
        nm = (pi, iv)
        I.e.memo[("argsort", id(r))] = nm
        I.e.keep.append(r)
        I.e.trusted("numpy.argsort")
    pi, iv = nm
    return (lambda k: pi(*act, k)), (lambda k: iv(*act, k))


def install(I):
    import sys
    I.lib_np = sys.modules[__name__]
    L = I.lib
    L["const:numpy.nan"] = float("nan")
    L["const:numpy.inf"] = float("inf")
    L["const:math.inf"] = float("inf")
    L["const:math.nan"] = float("nan")
    L["const:numpy.newaxis"] = lambda I: None
    L["const:numpy.pi"] = 3.141592653589793
    L["const:math.pi"] = 3.141592653589793

    def red(name, f, check=None):
        def h(I, args, kw, node):
            I.e.trusted("numpy." + name)
            axis = kw.get("axis", args[1] if len(args) > 1 else None)
            if check:
                nonempty(I, args[0], axis, node, name)
            return f(I, args[0], axis, node, kw)
        L["numpy." + name] = h
        L["ndarray." + name] = h
    red("all", lambda I, v, ax, nd, kw: r_all(I, v, ax, nd))
    red("any", lambda I, v, ax, nd, kw: r_any(I, v, ax, nd))
    red("mean", lambda I, v, ax, nd, kw: r_mean(I, v, ax, nd, kw.get("keepdims", False)))
    kd = lambda kw: kw.get("keepdims", False)

    def dt_sum(I, v):
        d = arr(I, v).dtype
        return "int" if d in ("bool", "int") else "float"
    npint = lambda v: sym.NInt(v.t) if type(v) is SInt else v
    red("sum", lambda I, v, ax, nd, kw: npint(reduce_axis(I, v, ax, lambda n, b: red_sum(I, n, b), dt_sum(I, v), nd, kd(kw), anyorder=True)))
    for nm in ("min", "max", "nanmin", "nanmax"):
        red(nm, lambda I, v, ax, nd, kw, nm=nm: reduce_axis(
            I, v, ax, lambda n, b: red_extreme(I, nm, n, b, nm.startswith("nan")), arr(I, v).dtype, nd, kd(kw), True), True)
    L["numpy.amin"], L["numpy.amax"] = L["numpy.min"], L["numpy.max"]
    for nm in ("argmin", "argmax"):
        red(nm, lambda I, v, ax, nd, kw, nm=nm: reduce_axis(I, v, ax, lambda n, b: red_arg(I, nm, n, b), "int", nd), True)
    for nm, key in (("median", "median"), ("prod", "prod")):
        red(nm, lambda I, v, ax, nd, kw, key=key: reduce_axis(I, v, ax, lambda n, b: red_opaque(I, key, n, b), "float", nd, kd(kw)))

    def ddof(kw):
        d = kw.get("ddof", 0)
        if not isinstance(d, int):
            raise Unsupported("symbolic ddof")
        return d
    for nm in ("std", "var"):
        red(nm, lambda I, v, ax, nd, kw, nm=nm: reduce_axis(
            I, v, ax, lambda n, b: red_opaque(I, f"{nm}{ddof(kw)}", n, b, nonneg=True, atleast=ddof(kw) + 1), "float", nd, kd(kw)))
    L["numpy.count_nonzero"] = lambda I, a, kw, nd: reduce_axis(
        I, a[0], kw.get("axis"), lambda n, b: mkint(red_count(I, n, lambda r: mkbool(bool_t(b(r))))), "int", nd)

    def quant(scale):
        def h(I, args, kw, node):
            I.e.trusted("numpy.quantile/percentile")
            q = args[1]
            axis = kw.get("axis", args[2] if len(args) > 2 else None)
            qs = I.concrete_iter(q) if isinstance(q, (Ref, tuple)) else [q]
            outs = []
            for x in qs:
                if not isinstance(x, (int, float)):
                    raise Unsupported("symbolic quantile")
                x = x / scale
                outs.append(reduce_axis(I, args[0], axis, lambda n, b, x=x: red_opaque(I, f"quantile{x}", n, b), "float", node))
            if isinstance(q, (Ref, tuple)):
                rows = [arr(I, o) if isinstance(o, Ref) else ArrC((), lambda o=o: o, "float") for o in outs]
                return new(I, (len(rows),) + rows[0].shape,
                           lambda k, *i: I.seq_of(ListC([r.elem(*i) for r in rows])).get(k), "float")
            return outs[0]
        return h
    L["numpy.quantile"] = quant(1)
    L["numpy.percentile"] = quant(100)

    def ew(name, f, dtype=None):
        def h(I, args, kw, node):
            return map1(I, args[0], f, dtype=dtype) if isinstance(args[0], (Ref, tuple)) else f(args[0])
        L["numpy." + name] = h
    ew("isnan", lambda x: mkbool(sym.isnan(to_f(x))), "bool")
    ew("isfinite", lambda x: mkbool(sym.isfin(to_f(x))), "bool")
    ew("isinf", lambda x: mkbool(Or(sym.kis(to_f(x).kind, 1), sym.kis(to_f(x).kind, 2))), "bool")
    ew("logical_not", lambda x: mkbool(Not(bool_t(x))), "bool")

    def f_absn(x):
        if isinstance(x, (SF, float)):
            return sym.f_abs(x)
        if isinstance(x, (int, bool)):
            return abs(x)
        return SInt(z3.If(int_t(x) < 0, -int_t(x), int_t(x)))
    ew("abs", f_absn)
    ew("absolute", f_absn)
    for nm in ("sqrt", "exp", "log", "log10", "log1p", "log2", "cos", "sin", "tanh"):
        f0 = ufun(I, nm)
        ew(nm, f0, "float")
    L["scipy.special.gamma"] = lambda I, a, kw, nd: mapn(I, a[:1], ufun(I, "gamma"), "float", nd) if isinstance(a[0], Ref) else ufun(I, "gamma")(a[0])
    L["math.sqrt"] = lambda I, a, kw, nd: ufun(I, "sqrt")(a[0])

    def rounder(name):
        def f(x):
            if not is_floaty(x):
                return x
            x = to_f(x)
            v = z3.ToReal(z3.ToInt(x.val))
            if name == "ceil":
                v = -z3.ToReal(z3.ToInt(-x.val))
            if name == "round":
                g = z3.Function("round_half_even", z3.RealSort(), z3.IntSort())
                y = z3.Real("y!rnd")
                I.e.axiom(z3.ForAll([y], And(2 * z3.ToReal(g(y)) - 2 * y <= 1, 2 * y - 2 * z3.ToReal(g(y)) <= 1)))
                v = z3.ToReal(g(x.val))
            return SF(v, x.kind)
        return f
    def f_sign(x):
        if not is_floaty(x):
            t = int_t(x)
            return SInt(z3.If(t > 0, 1, z3.If(t < 0, -1, 0)))
        x = to_f(x)
        v = z3.If(x.val > 0, z3.RealVal(1), z3.If(x.val < 0, z3.RealVal(-1), z3.RealVal(0)))
        if isinstance(x.kind, int) and x.kind == 0:
            return SF(v, 0)
        k = x.kind
        v = z3.If(sym.kis(k, 1), z3.RealVal(1), z3.If(sym.kis(k, 2), z3.RealVal(-1), v))
        kt = z3.If(sym.kis(k, 3), z3.IntVal(3), z3.IntVal(0))
        return SF(v, kt)
    ew("sign", f_sign)
    ew("floor", rounder("floor"), "float")
    ew("ceil", rounder("ceil"), "float")

    def rnd(I, args, kw, node):
        dec = kw.get("decimals", args[1] if len(args) > 1 else 0)
        if dec == 0:
            f = rounder("round")
        else:
            g = z3.Function("round_dec", z3.RealSort(), z3.IntSort(), z3.RealSort())
            d = int_t(dec)
            f = lambda x: SF(g(to_f(x).val, d), to_f(x).kind)
        return map1(I, args[0], f) if isinstance(args[0], Ref) else f(args[0])
    L["numpy.round"] = L["numpy.around"] = L["ndarray.round"] = rnd

    def lg(name, f):
        def h(I, args, kw, node):
            return mapn(I, args[:2], lambda p, q: mkbool(f(bool_t(p), bool_t(q))), "bool", node)
        L["numpy." + name] = h
    lg("logical_and", lambda a, b: And(a, b))
    lg("logical_or", lambda a, b: Or(a, b))
    lg("logical_xor", lambda a, b: a != b)
    L["numpy.maximum"], L["numpy.minimum"] = minmax2("max"), minmax2("min")

    def clip(I, args, kw, node):
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
        v = args[0]
        if lo is not None:
            v = L["numpy.maximum"](I, [v, lo], {}, node)
        if hi is not None:
            v = L["numpy.minimum"](I, [v, hi], {}, node)
        return v
    L["numpy.clip"] = L["ndarray.clip"] = clip
    for nm, k in (("add", ast.Add()), ("subtract", ast.Sub()), ("multiply", ast.Mult()), ("divide", ast.Div()),
                  ("true_divide", ast.Div())):
        def h(I, args, kw, node, k=k):
            if kw:
                raise Unsupported("ufunc keyword")
            return I.binop(k, args[0], args[1], node)
        L["numpy." + nm] = h
    L["numpy.power"] = lambda I, a, kw, nd: I.binop(ast.Pow(), a[0], a[1], nd)
    for nm, k in (("less", ast.Lt()), ("less_equal", ast.LtE()), ("greater", ast.Gt()),
                  ("greater_equal", ast.GtE()), ("equal", ast.Eq()), ("not_equal", ast.NotEq())):
        L["numpy." + nm] = lambda I, a, kw, nd, k=k: I.compare(k, a[0], a[1], nd)
    L["numpy.where"] = np_where

    def creator(val):
        def h(I, args, kw, node):
            dt = dtype_arg(kw.get("dtype", args[1] if len(args) > 1 else None))
            v = val
            if v is None:
                f = I.e.func("uninit", [z3.IntSort()] * len(shape_arg(I, args[0])),
                             z3.BoolSort() if dt == "bool" else z3.IntSort() if dt == "int" else z3.RealSort())
                w = {"bool": SBool, "int": SInt, "float": SF}[dt]
                return new(I, shape_arg(I, args[0]), lambda *i: w(f(*i)), dt)
            return fill(I, args[0], v, dt)
        return h
    L["numpy.zeros"], L["numpy.ones"], L["numpy.empty"] = creator(0), creator(1), creator(None)

    def full(I, args, kw, node):
        v = args[1] if len(args) > 1 else kw["fill_value"]
        return fill(I, args[0], v, dtype_arg(kw.get("dtype", args[2] if len(args) > 2 else None), dtype_of(v)))
    L["numpy.full"] = full

    def like(val):
        def h(I, args, kw, node):
            a = arr(I, args[0])
            dt = dtype_arg(kw.get("dtype"), a.dtype)
            v = val if val is not None else 0
            return new(I, a.shape, lambda *i: coerce(v, dt), dt)
        return h
    L["numpy.zeros_like"], L["numpy.ones_like"] = like(0), like(1)

    def arange(I, args, kw, node):
        if any(is_floaty(x) for x in args):
            raise Unsupported("float arange")
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        if len(args) > 2 and args[2] != 1:
            raise Unsupported("arange step")
        lt, ht = int_t(lo), int_t(hi)
        n = mkdim(ht) if lo == 0 and not (isinstance(hi, int) and hi < 0) else mkdim(z3.If(ht > lt, ht - lt, z3.IntVal(0)))
        return new(I, (n,), lambda k: mkint(z3.simplify(k + lt)), "int")
    L["numpy.arange"] = arange

    def array(I, args, kw, node):
        a = arr(I, args[0])
        dt = dtype_arg(kw.get("dtype", args[1] if len(args) > 1 else None), a.dtype)
        return astype(I, a, dt)
    L["numpy.array"] = L["numpy.copy"] = array

    def asarray(I, args, kw, node):
        if isinstance(args[0], Ref) and isinstance(I.e.get(args[0]), (ArrC, ViewC)):
            a = arr(I, args[0])
            if dtype_arg(kw.get("dtype"), a.dtype) == a.dtype:
                return args[0]
        return array(I, args, kw, node)
    L["numpy.asarray"] = asarray
    L["numpy.transpose"] = lambda I, a, kw, nd: getattr_(I, a[0], "T", nd)

    def astype(I, a, dt):
        if dt == a.dtype or dt == "object":
            return new(I, a.shape, a.elem, a.dtype)
        if dt == "int" and a.dtype == "float":
            return new(I, a.shape, lambda *i: trunc(I, a.elem(*i)), "int")
        if dt == "float" and a.dtype == "object":
            raise Unsupported("object to float")
        return new(I, a.shape, lambda *i: coerce(a.elem(*i), dt), dt)

    def trunc(I, x):
        x = to_f(x)
        t = z3.ToInt(x.val)
        v = z3.If(x.val >= 0, t, -z3.ToInt(-x.val))
        if isinstance(x.kind, int) and x.kind == 0:
            return mkint(v)
        odd = z3.Function("int_of_nonfinite", z3.IntSort(), z3.IntSort())         # nothing is known about it
        return mkint(z3.If(sym.isfin(x), v, odd(z3.IntVal(x.kind) if isinstance(x.kind, int) else x.kind)))
    I.np_trunc = lambda x: trunc(I, x)
    HALF = z3.Function("half_precision", z3.RealSort(), z3.RealSort())
    I.half = lambda x: SF(HALF(to_f(x).val), to_f(x).kind)

    def half(I, a):
        I.e.trusted("conversion to float16 rounds each number (uninterpreted; no overflow)")
        return new(I, a.shape, lambda *i: I.half(a.elem(*i)), "float")
    L["ndarray.astype"] = lambda I, a, kw, nd: half(I, arr(I, a[0])) if (
        a[1] if len(a) > 1 else kw.get("dtype")) == LibV("numpy.float16") else astype(I, arr(I, a[0]), dtype_arg(a[1] if len(a) > 1 else kw.get("dtype")))
    L["ndarray.copy"] = lambda I, a, kw, nd: new(I, arr(I, a[0]).shape, arr(I, a[0]).elem, arr(I, a[0]).dtype)

    def ravel(I, a, kw, nd):
        x = arr(I, a[0])
        if len(x.shape) == 1:
            return new(I, x.shape, x.elem, x.dtype)
        if len(x.shape) == 2:
            n, d = x.shape
            if isinstance(d, int) and d == 1:
                return new(I, (n,), lambda k: x.elem(k, z3.IntVal(0)), x.dtype)
            if isinstance(n, int) and n == 1:
                return new(I, (d,), lambda k: x.elem(z3.IntVal(0), k), x.dtype)
            dt = dim_t(d)
            return new(I, (mkdim(dim_t(n) * dt),), lambda k: x.elem(k / dt, k % dt), x.dtype)
        raise Unsupported("ravel")
    L["ndarray.ravel"] = L["ndarray.flatten"] = L["numpy.ravel"] = ravel

    def reshape(I, a, kw, nd):
        x = arr(I, a[0])
        sh = a[1:] if len(a) > 2 else (tuple(a[1]) if isinstance(a[1], tuple) else (a[1],))
        if len(x.shape) == 1 and len(sh) == 2:
            if sh[1] == 1:
                return new(I, (x.shape[0], 1), lambda i, j: x.elem(i), x.dtype)
            if sh[0] == 1:
                return new(I, (1, x.shape[0]), lambda i, j: x.elem(j), x.dtype)
            # C order; sizes must agree
            r, c = sh
            n = dim_t(x.shape[0])
            if isinstance(r, int) and r == -1:
                c_t = int_t(c)
                r_t = n / c_t
            elif isinstance(c, int) and c == -1:
                r_t = int_t(r)
                c_t = n / r_t
            else:
                r_t, c_t = int_t(r), int_t(c)
            if I.e.spec_mode == 0:
                I.e.oblige("reshape keeps the number of elements", r_t * c_t == n, nd, kind="safety")
                I.e.assume(r_t * c_t == n)
            return new(I, (mkdim(r_t), mkdim(c_t)), lambda i, j: x.elem(z3.simplify(i * c_t + j)), x.dtype)
        if len(sh) == 1 and (sh[0] == -1 or len(x.shape) == 1):
            return ravel(I, [a[0]], {}, nd)
        raise Unsupported("reshape")
    L["ndarray.reshape"] = L["numpy.reshape"] = reshape
    L["ndarray.transpose"] = lambda I, a, kw, nd: getattr_(I, a[0], "T", nd)
    L["ndarray.dot"] = L["numpy.dot"] = L["numpy.matmul"] = lambda I, a, kw, nd: matmul(I, a[0], a[1], nd)

    def tolist(I, a, kw, nd):
        x = arr(I, a[0])
        if len(x.shape) != 1:
            raise Unsupported("tolist of a 2-d array")
        if isinstance(x.shape[0], int):
            return I.list_([x.elem(z3.IntVal(i)) for i in range(x.shape[0])])
        return I.e.alloc(SeqC(dim_t(x.shape[0]), x.elem))
    L["ndarray.tolist"] = tolist
    L["ndarray.item"] = lambda I, a, kw, nd: arr(I, a[0]).elem(*[z3.IntVal(0)] * len(arr(I, a[0]).shape))

    L["numpy.hstack"] = lambda I, a, kw, nd: (lambda xs: concat(I, xs, 0 if len(xs[0].shape) == 1 else 1, nd))(seq_arrs(I, a[0]))
    L["numpy.column_stack"] = lambda I, a, kw, nd: concat(I, stack_cols(I, seq_arrs(I, a[0]), nd), 1, nd)

    def vstack(I, a, kw, nd):
        xs = [x if len(x.shape) == 2 else ArrC((1,) + x.shape, lambda i, j, x=x: x.elem(j), x.dtype) for x in seq_arrs(I, a[0])]
        return concat(I, xs, 0, nd)
    L["numpy.vstack"] = vstack

    def concatenate(I, a, kw, nd):
        ax = kw.get("axis", a[1] if len(a) > 1 else 0)
        xs = seq_arrs(I, a[0])
        if ax is None:
            raise Unsupported("concatenate axis=None")
        return concat(I, xs, ax if ax >= 0 else ax + len(xs[0].shape), nd)
    L["numpy.concatenate"] = concatenate

    def append(I, a, kw, nd):
        if kw or len(a) != 2:
            raise Unsupported("numpy.append along an axis")
        parts = []
        for x in a:
            v = arr(I, x)
            if len(v.shape) == 0:
                v = ArrC((1,), lambda i, v=v: v.elem(), v.dtype)
            if len(v.shape) != 1:
                v = arr(I, ravel(I, [x], {}, nd))
            parts.append(v)
        return concat(I, parts, 0, nd)
    L["numpy.append"] = append

    def nonzero1(I, a, kw, nd):
        x = arr(I, a[0])
        if len(x.shape) != 1:
            raise Unsupported("nonzero of a 2-d array")
        ln, f = mask_sel(I, x.shape[0], lambda r: mkbool(bool_t(x.elem(r))), nd)
        return new(I, (ln,), lambda k: mkint(f(k)), "int")
    L["numpy.flatnonzero"] = nonzero1
    L["numpy.nonzero"] = L["ndarray.nonzero"] = lambda I, a, kw, nd: (nonzero1(I, a, kw, nd),)

    def argsort(I, a, kw, nd):
        x = arr(I, a[0])
        ax = kw.get("axis", a[1] if len(a) > 1 else -1)
        if len(x.shape) == 1:
            pi, _ = argsort_fn(I, x.shape[0], x.elem, nd)
            return new(I, x.shape, lambda k: mkint(pi(k)), "int")
        if len(x.shape) == 2 and ax in (0, 1, -1):
            if ax == 0:
                return new(I, x.shape, lambda i, j: mkint(argsort_fn(I, x.shape[0], lambda r: x.elem(r, j))[0](i)), "int")
            return new(I, x.shape, lambda i, j: mkint(argsort_fn(I, x.shape[1], lambda r: x.elem(i, r))[0](j)), "int")
        raise Unsupported("argsort")
    L["numpy.argsort"] = L["ndarray.argsort"] = argsort

    def take_along(I, a, kw, nd):
        x, ix = arr(I, a[0]), arr(I, a[1])
        ax = a[2] if len(a) > 2 else kw.get("axis")
        if len(x.shape) != 2 or len(ix.shape) != 2 or ax not in (0, 1):
            raise Unsupported("take_along_axis of this")
        check_dim(I, ix.shape[1 - ax], x.shape[1 - ax], nd, "as many rows or columns to take along")
        n = dim_t(x.shape[ax])
        if I.e.spec_mode == 0:
            i, j = I.e.generic("i"), I.e.generic("j")
            v = int_t(ix.elem(i, j))
            I.e.oblige("positions to take exist", forall([i, j], Implies(And(0 <= i, i < dim_t(ix.shape[0]), 0 <= j, j < dim_t(ix.shape[1])), And(
                -n <= v, v < n))), nd, kind="safety")
        at = lambda i, j: (lambda v: v if natural(v) else z3.If(v >= 0, v, v + n))(int_t(ix.elem(i, j)))
        return new(I, ix.shape, (lambda i, j: x.elem(at(i, j), j)) if ax == 0 else (lambda i, j: x.elem(i, at(i, j))), x.dtype)
    L["numpy.take_along_axis"] = take_along

    def npsort(I, a, kw, nd):
        x = arr(I, a[0])
        if len(x.shape) == 1:
            pi, _ = argsort_fn(I, x.shape[0], x.elem, nd)
            return new(I, x.shape, lambda k: x.elem(pi(k)), x.dtype)
        if len(x.shape) == 2 and kw.get("axis", a[1] if len(a) > 1 else -1) == 0:
            return new(I, x.shape, lambda i, j: x.elem(argsort_fn(I, x.shape[0], lambda r: x.elem(r, j))[0](i), j), x.dtype)
        raise Unsupported("sort")
    L["numpy.sort"] = npsort

    def unique(I, a, kw, nd):
        x = arr(I, a[0])
        I.e.trusted("numpy.unique")
        extra = [k for k in ("return_index", "return_inverse", "return_counts") if kw.get(k)]
        if kw.get("axis") == 0 and not extra:
            m = I.e.const("nuniq", z3.IntSort())
            I.e.assume(And(m >= 0, m <= dim_t(x.shape[0]), Implies(dim_t(x.shape[0]) > 0, m >= 1)))
            f = I.e.func("uniqrow", [z3.IntSort()], z3.IntSort())
            k = z3.Int("k!s")
            I.e.assume(z3.ForAll([k], Implies(And(0 <= k, k < m), And(0 <= f(k), f(k) < dim_t(x.shape[0])))))
            return new(I, (m,) + x.shape[1:], lambda k, *i: x.elem(f(k), *i), x.dtype)
        if extra:
            raise Unsupported("np.unique with extra outputs")
        if len(x.shape) != 1:
            raise Unsupported("np.unique of a 2-d array")
        n = dim_t(x.shape[0])
        m = I.e.const("nuniq", z3.IntSort())
        f = I.e.func("uniqsrc", [z3.IntSort()], z3.IntSort())
        g = I.e.func("uniqpos", [z3.IntSort()], z3.IntSort())
        k, l = z3.Ints("k!s l!s")
        eq = lambda p, q: I.tb(I.eq_t(x.elem(p), x.elem(q)))
        I.e.assume(And(m >= 0, m <= n))
        I.e.assume(z3.ForAll([k], Implies(And(0 <= k, k < m), And(0 <= f(k), f(k) < n))))
        I.e.assume(z3.ForAll([k], Implies(And(0 <= k, k < n), And(0 <= g(k), g(k) < m, eq(f(g(k)), k)))))
        if x.dtype != "object":
            lt = lambda p, q: bool_t(I.compare(ast.Lt(), x.elem(p), x.elem(q)))
            I.e.assume(z3.ForAll([k, l], Implies(And(0 <= k, k < l, l < m), lt(f(k), f(l)))))
        else:
            I.e.assume(z3.ForAll([k, l], Implies(And(0 <= k, k < l, l < m), Not(eq(f(k), f(l))))))
        res = new(I, (m,), lambda k: x.elem(f(k)), x.dtype)
        if x.dtype == "int":
            values_of(I, res, *members(I, x))
        return res
    L["numpy.unique"] = unique

    def corr(I, a, kw, nd):
        if kw.get("rowvar", True) is not False or set(kw) - {"rowvar"} or len(a) != 2:
            raise Unsupported("options of corrcoef")
        x, y = arr(I, a[0]), arr(I, a[1])
        if len(x.shape) != 2 or len(y.shape) != 2:
            raise Unsupported("corrcoef of vectors")
        check_dim(I, x.shape[0], y.shape[0], nd, "as many rows in both tables")
        I.e.trusted("numpy.corrcoef(x, y, rowvar=False): the correlation of every two columns, those of x first")
        p, n = dim_t(x.shape[1]), x.shape[0]

        def of(f, g):
            r, fresh, act = reducer(I, "corr", n, lambda k: (*f_terms(f(k)), *f_terms(g(k))), [z3.IntSort(), z3.RealSort()])
            if fresh:
                w = sf_of(r.fns[0](*r.params), r.fns[1](*r.params))
                I.e.axiom(forall(r.params, Or(w.kind == 0, w.kind == 3)), r.defs)
            return sf_of(r.fns[0](*act), r.fns[1](*act))

        def c(i, j):
            X, Y = (lambda t: lambda k: x.elem(k, t)), (lambda t: lambda k: y.elem(k, t - p))
            return I.ite(i < p, I.ite(j < p, of(X(i), X(j)), of(X(i), Y(j))), I.ite(j < p, of(X(j), Y(i)), of(Y(i), Y(j))))
        m = mkdim(p + dim_t(y.shape[1]))
        return new(I, (m, m), c, "float")

    def diag(I, a, kw, nd):
        x = arr(I, a[0])
        if len(x.shape) != 2 or len(a) > 1 or kw:
            raise Unsupported("diag")
        if not I.same_dim(x.shape[0], x.shape[1]):
            I.e.oblige("diagonal of a square table", dim_t(x.shape[0]) == dim_t(x.shape[1]), nd, kind="pre")
        return new(I, (x.shape[0],), lambda i: x.elem(i, i), x.dtype)
    L["numpy.diag"] = diag
    L["numpy.corrcoef"] = corr

    def isin(I, args, kw, node):
        b = arr(I, args[1])

        def f(x):
            if isinstance(b.shape[0], int):
                return mkbool(Or(*[I.tb(I.eq_t(b.elem(z3.IntVal(i)), x)) for i in range(b.shape[0])]))
            k = I.e.generic("g!k")
            return mkbool(z3.Exists([k], And(0 <= k, k < dim_t(b.shape[0]), I.tb(I.eq_t(b.elem(k), x)))))
        return map1(I, args[0], f, dtype="bool")
    L["numpy.isin"] = isin

    def array_equal(I, args, kw, node):
        x, y = arr(I, args[0]), arr(I, args[1])
        if len(x.shape) != len(y.shape):
            return False
        vs = [I.e.generic("g!k") for _ in x.shape]
        inr = And(*[And(0 <= v, v < dim_t(d)) for v, d in zip(vs, x.shape)])
        return mkbool(And(*[dim_t(a) == dim_t(b) for a, b in zip(x.shape, y.shape)],
                          z3.ForAll(vs, Implies(inr, I.tb(I.eq_t(x.elem(*vs), y.elem(*vs)))))))
    L["numpy.array_equal"] = array_equal
    for nm in ("double", "float64"):
        L["numpy." + nm] = lambda I, a, kw, nd: to_f(a[0]) if a else to_f(0)
    L["numpy.finfo"] = lambda I, a, kw, nd: Opaque("finfo", {"eps": 2.220446049250313e-16})
    GEN = LibV("numpy.random.Generator")
    L["numpy.random.default_rng"] = lambda I, a, kw, nd: I.e.alloc(ObjC(GEN, {}))

    def gen_random(I, v, a, kw, nd):
        sh = shape_arg(I, a[0] if a else kw.get("size"))
        I.e.trusted("numpy.random.Generator.random: some numbers in [0, 1)")
        f = z3.Function(I.e.fresh_name("rand"), *[z3.IntSort()] * len(sh), z3.RealSort())
        vs = [z3.Int(f"i!rnd{q}") for q in range(len(sh))]
        I.e.axiom(z3.ForAll(vs, And(f(*vs) >= 0, f(*vs) < 1), patterns=[f(*vs)]), {f.name()})
        return new(I, sh, lambda *i: SF(f(*i)), "float")
    L["method:numpy.random.Generator.random"] = gen_random
    L["numpy.errstate"] = lambda I, a, kw, nd: Opaque("errstate")
    L["const:sys.float_info"] = lambda I: Opaque("float_info", {"epsilon": 2.220446049250313e-16})
    for nm in ("int64", "int32", "intc", "int_"):
        L["numpy." + nm] = lambda I, a, kw, nd: a[0] if not is_floaty(a[0]) else trunc(I, a[0])

    def broadcast_to(I, a, kw, nd):
        x, sh = arr(I, a[0]), shape_arg(I, a[1])
        off = len(sh) - len(x.shape)
        if off < 0:
            I.raise_("ValueError", "broadcast_to", nd)
        for q, s in enumerate(x.shape):
            if not (isinstance(s, int) and s == 1):
                check_dim(I, s, sh[q + off], nd, "broadcast_to: extents agree")
        one = [isinstance(s, int) and s == 1 for s in x.shape]
        return new(I, sh, lambda *i: x.elem(*[z3.IntVal(0) if o else i[q + off] for q, o in enumerate(one)]), x.dtype)
    L["numpy.broadcast_to"] = broadcast_to

    def meshless(name):
        def h(I, a, kw, nd):
            raise Unsupported(f"numpy.{name}")
        return h

    def delete(I, a, kw, nd):
        raise Unsupported("numpy.delete")
    L["numpy.delete"] = delete

    def np_any_nan(I, a, kw, nd):
        raise Unsupported("nan_to_num")
    L["numpy.nan_to_num"] = np_any_nan



