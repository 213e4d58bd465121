"""Loops.

A loop over concrete items is unrolled.  A loop over a symbolic sequence or set is executed once for
a generic element with every location the body may modify replaced by unknown ("havoc") contents;
from the effects on each path of the body an exact summary of the whole loop is built (set
comprehension, pointwise array store, map / filter of a list, sum, ...).  The shape of each summary
is justified by solver-checked or syntactic side conditions, never guessed; whatever cannot be
summarised becomes unreadable.  Loops whose iterations depend on one another need an invariant
(`Interp.loop_invs`), checked in the usual way: established, preserved by an arbitrary iteration,
used afterwards.
"""
from __future__ import annotations

import ast
import copy

import z3

from . import sym
from .engine import PathEnd, mentions
from .sym import (FALSE, TRUE, And, ArrC, DictC, If, Implies, ListC, MapC, Not, ObjC, Opaque, Or,
                  Poison, PyRaise, RecV, Ref, SBool, SeqC, SetC, SF, SInt, SU, Unsupported, ViewC,
                  bool_t, int_t, is_floaty, is_num, mkbool, mkint, to_f)


class Iter:
    def __init__(self, kind, n=None, et=None, mem=None, elem=None, sort=None):
        self.kind, self.n, self.et, self.mem, self.elem = kind, n, et, mem, elem
        self.sort = sort if sort is not None else z3.IntSort()

    def range(self, t):
        if self.kind == "seq":
            return And(0 <= t, t < self.n)
        return self.mem(t)


def make_iter(I, v, st, as_sequence=False):
    c = I.content(v)
    if isinstance(c, ObjC) and c.cls.name in ("builtins.dict_items", "builtins.dict_values"):
        m = c.fields["map"]
        items = c.cls.name.endswith("items")
        if isinstance(m, DictC):
            return "conc", [((k, x) if items else x) for k, x in m.items.items()]
        el = (lambda t: (I.dec(t, m.kt), m.get(t))) if items else (lambda t: m.get(t))
        it = Iter("set", et=m.kt, mem=m.dom, elem=el, sort=I.et_sort(m.kt))
    else:
        k, x = I.lib_py.iter_of(I, v, st)
        if k == "conc":
            return "conc", x
        if k == "seq":
            return "sym", Iter("seq", n=x.n, elem=x.get)
        it = Iter("set", et=x.et, mem=x.mem, elem=lambda t: I.dec(t, x.et), sort=I.et_sort(x.et))
    if as_sequence:
        from .sym import SetC as _S
        ref = I.lib_py.list_of_set(I, _S(it.et, it.mem))
        s = I.content(ref)
        el = it.elem
        return "sym", Iter("seq", n=s.n, elem=lambda k: el(I.enc(s.get(k), it.et)))
    return "sym", it


def loop_key(I, st):
    fn = I.frame.func
    if fn is None or getattr(st, "_comp", False):
        return None
    loops = [x for x in ast.walk(fn.node) if isinstance(x, (ast.For, ast.While))]
    loops.sort(key=lambda x: (x.lineno, x.col_offset))
    for i, x in enumerate(loops):
        if x is st:
            return (fn.qual, i)
    return None


def run_for(I, st):
    v = I.eval(st.iter)
    kind, it = make_iter(I, v, st)
    if kind == "conc":
        for x in it:
            I.assign(st.target, x)
            out = I.exec_block(st.body)
            if out is not None:
                if out[0] == "break":
                    return None
                if out[0] == "return":
                    return out
        return I.exec_block(st.orelse) if st.orelse else None
    inv = I.loop_invs.get(loop_key(I, st))
    if inv is not None and (inv.when is None or inv.when(I)):
        c = I.content(v)
        if isinstance(c, SeqC):
            it = Iter("seq", n=c.n, elem=c.get)      # in its own order
            it.of = getattr(c, "of", None)
        elif it.kind == "set":
            kind, it = make_iter(I, v, st, True)
        return run_inv(I, st, it, inv)
    try:
        return summarise(I, st, it)
    except NeedSequence:
        kind, it = make_iter(I, v, st, True)
        return summarise(I, st, it)


class NeedSequence(Exception):
    pass


def run_while(I, st):
    inv = I.loop_invs.get(loop_key(I, st))
    if inv is not None:
        return run_inv(I, st, None, inv)
    # a loop whose condition stays concrete is executed
    for _ in range(200):
        t = I.truth_t(I.eval(st.test), st)
        if not isinstance(t, bool):
            t = z3.simplify(t) if not z3.is_quantifier(t) else t
            if z3.is_true(t) or z3.is_false(t):
                t = z3.is_true(t)
            else:
                I.unsup(st, "while loop without an invariant")
        if not t:
            return I.exec_block(st.orelse) if st.orelse else None
        out = I.exec_block(st.body)
        if out is not None:
            if out[0] == "break":
                return None
            if out[0] == "return":
                return out
    I.unsup(st, "while loop without an invariant")


# ------------------------------------------------------------------ substitution into values
def sub_t(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


class Subst:
    """Copies values out of a nested heap, replacing the generic variable."""

    def __init__(self, I, heap, base_heap, generics):
        self.I, self.heap, self.base, self.generics = I, heap, base_heap, generics
        self.fix = lambda t: t          # extra term rewriting (reads of havoc contents)

    def in_ctx(self, f):
        """Evaluate a lazily stored function in the heap and generic context of the loop body."""
        e = self.I.e
        heap, gen, pc, rec = e.heap, e.generics, e.pc, e.record
        e.heap, e.generics, e.pc, e.record = dict(self.heap), list(self.generics), list(e.pc), False
        try:
            return f(), e.heap
        finally:
            e.heap, e.generics, e.pc, e.record = heap, gen, pc, rec

    def term(self, t, pairs):
        if not z3.is_expr(t):
            return t
        return sub_t(self.fix(t), pairs)

    def value(self, v, pairs, heap=None):
        heap = self.heap if heap is None else heap
        if isinstance(v, SInt):
            return mkint(self.term(v.t, pairs))
        if isinstance(v, SBool):
            return mkbool(self.term(v.t, pairs))
        if isinstance(v, SU):
            return SU(self.term(v.t, pairs))
        if isinstance(v, SF):
            k = v.kind if isinstance(v.kind, int) else self.term(v.kind, pairs)
            if z3.is_expr(k) and z3.is_int_value(k):
                k = k.as_long()
            return SF(self.term(v.val, pairs), k)
        if isinstance(v, tuple):
            return tuple(self.value(x, pairs, heap) for x in v)
        if isinstance(v, RecV):
            return RecV(v.cls, {k: self.value(x, pairs, heap) for k, x in v.fields.items()})
        if isinstance(v, Ref):
            c = heap.get(v.loc)
            if v.loc in self.base and same_content(self.base[v.loc], c):
                return v
            return self.I.e.alloc(self.cont(c, pairs, heap))
        return v

    def lazy(self, f, pairs, sorts, wrap):
        """The function f over placeholders, as a function with the substitution applied."""
        ph = [z3.Const(self.I.e.fresh_name("g!y"), s) for s in sorts]
        box = []

        def g(*args):
            if not box:
                box.append(self.in_ctx(lambda: f(*ph)))
            r, hp = box[0]
            return wrap(r, list(pairs) + list(zip(ph, args)), hp)
        return g

    def cont(self, c, pairs, heap):
        I = self.I
        if isinstance(c, ListC):
            return ListC([self.value(x, pairs, heap) for x in c.items])
        if isinstance(c, DictC):
            return DictC({k: self.value(x, pairs, heap) for k, x in c.items.items()}, c.default)
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: self.value(x, pairs, heap) for k, x in c.fields.items()})
        if isinstance(c, SeqC):
            out = SeqC(self.term(c.n, pairs), self.lazy(c.get, pairs, [z3.IntSort()],
                       lambda r, p, hp: self.value(r, p, hp)), c.et)
            if c.memset is not None:
                out.memset = self.lazy(c.memset, pairs, [I.et_sort(c.et)], lambda r, p, hp: self.term(r, p))
            return out
        if isinstance(c, SetC):
            if c.et is None:
                return c
            return SetC(c.et, self.lazy(c.mem, pairs, [I.et_sort(c.et)], lambda r, p, hp: self.term(r, p)))
        if isinstance(c, MapC):
            s = I.et_sort(c.kt)
            return MapC(c.kt, self.lazy(c.dom, pairs, [s], lambda r, p, hp: self.term(r, p)),
                        self.lazy(c.get, pairs, [s], lambda r, p, hp: self.value(r, p, hp)), c.default)
        if isinstance(c, ViewC):
            h2 = self.I.e.heap
            self.I.e.heap = heap
            try:
                c = I.lib_np.force(I, c)
            finally:
                self.I.e.heap = h2
        if isinstance(c, ArrC):
            shape = [I.lib_np.mkdim(self.term(I.lib_np.dim_t(d), pairs)) for d in c.shape]
            return ArrC(shape, I.lib_np.memo_elem(self.lazy(
                c.elem, pairs, [z3.IntSort()] * len(shape), lambda r, p, hp: self.value(r, p, hp))), c.dtype)
        raise Unsupported("value computed in a loop body")


def same_content(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (ListC,)):
        return same_vals(a.items, b.items)
    if isinstance(a, (DictC,)):
        return list(a.items) == list(b.items) and same_vals(a.items.values(), b.items.values())
    if isinstance(a, ObjC):
        return a.cls == b.cls and list(a.fields) == list(b.fields) and same_vals(a.fields.values(), b.fields.values())
    for k in set(a.__dict__) | set(b.__dict__):
        if k == "frozen":
            continue
        if a.__dict__.get(k) is not b.__dict__.get(k):
            return False
    return True


def same_vals(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(same_val(x, y) for x, y in zip(xs, ys))


def same_val(x, y):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, (bool, int, str, float)):
        return x == y
    if isinstance(x, Ref):
        return x == y
    if isinstance(x, (SInt, SBool, SU)):
        return x.t.eq(y.t)
    if isinstance(x, SF):
        return x.val.eq(y.val) and (x.kind == y.kind if isinstance(x.kind, int) or isinstance(y.kind, int)
                                    else x.kind.eq(y.kind))
    if isinstance(x, tuple):
        return same_vals(x, y)
    return False


# ------------------------------------------------------------------ havoc
def assigned_names(body):
    out = set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


class Havoc:
    """Replaces modified variables and heap contents by unknowns with a private name prefix."""

    def __init__(self, I):
        self.I = I
        self.pre = I.e.fresh_name("hv!") + "!"
        self.n = 0

    def name(self):
        self.n += 1
        return f"{self.pre}{self.n}"

    def scalar(self, v):
        if isinstance(v, bool) or isinstance(v, SBool):
            return SBool(z3.Bool(self.name()))
        if isinstance(v, (int, SInt)):
            return SInt(z3.Int(self.name()))
        if isinstance(v, SF) or isinstance(v, float):
            f = to_f(v)
            k = 0 if isinstance(f.kind, int) and f.kind == 0 else z3.Int(self.name())
            return SF(z3.Real(self.name()), k)
        if isinstance(v, SU):
            return SU(z3.Const(self.name(), v.t.sort()))
        if isinstance(v, Opaque):
            return Opaque("value built in a loop")
        return Poison("is carried from one loop iteration to the next")

    def fscalar(self, sample, sorts):
        """A function over `sorts` giving unknown scalars like sample, or None."""
        if isinstance(sample, (bool, SBool)):
            f = z3.Function(self.name(), *sorts, z3.BoolSort())
            return lambda *a: SBool(f(*a))
        if isinstance(sample, (int, SInt)):
            f = z3.Function(self.name(), *sorts, z3.IntSort())
            return lambda *a: SInt(f(*a))
        if isinstance(sample, (float, SF)):
            f = z3.Function(self.name(), *sorts, z3.RealSort())
            k = to_f(sample).kind
            if isinstance(k, int) and k == 0:
                return lambda *a: SF(f(*a))
            g = z3.Function(self.name(), *sorts, z3.IntSort())
            return lambda *a: SF(f(*a), g(*a))
        if isinstance(sample, SU):
            f = z3.Function(self.name(), *sorts, sample.t.sort())
            return lambda *a: SU(f(*a))
        return None

    def content(self, c):
        I = self.I
        if isinstance(c, SetC):
            if c.et is None:
                return None
            f = z3.Function(self.name(), I.et_sort(c.et), z3.BoolSort())
            out = SetC(c.et, lambda x: f(x))
            out.hvf = f
            return out
        if isinstance(c, (ListC, SeqC)):
            def bad(k):
                raise Unsupported("reads a list while the loop is building it")
            n = z3.Int(self.name())
            out = SeqC(n, bad, getattr(c, "et", None))
            out.log = ()
            out.tag = self.pre
            I.e.assume(n >= 0)
            return out
        if isinstance(c, MapC):
            s = I.et_sort(c.kt)
            f = z3.Function(self.name(), s, z3.BoolSort())
            y = z3.Const(I.e.fresh_name("g!y"), s)
            try:
                sample = c.get(y)
            except (Unsupported, PyRaise):
                sample = None
            g = self.fscalar(sample, [s])
            if g is None and isinstance(sample, Ref) and isinstance(I.e.get(sample), SetC) and I.e.get(sample).et:
                et = I.e.get(sample).et
                h = z3.Function(self.name(), s, I.et_sort(et), z3.BoolSort())
                g = lambda k: I.e.alloc(SetC(et, lambda x: h(k, x)))
            if g is None:
                def g(k):
                    raise Unsupported("reads a dict while the loop is building it")
            out = MapC(c.kt, lambda x: f(x), g, c.default)
            out.log = ()
            out.tag = self.pre
            return out
        if isinstance(c, ArrC):
            y = [z3.Const(I.e.fresh_name("g!y"), z3.IntSort()) for _ in c.shape]
            g = self.fscalar(c.elem(*y), [z3.IntSort()] * len(c.shape)) if c.shape else None
            if g is None:
                return None
            if c.dtype == "float":
                # array contents may hold any float once written
                f = z3.Function(self.name(), *[z3.IntSort()] * len(c.shape), z3.RealSort())
                kd = z3.Function(self.name(), *[z3.IntSort()] * len(c.shape), z3.IntSort())
                g = lambda *a: SF(f(*a), kd(*a))
            out = ArrC(c.shape, g, c.dtype)
            return out
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: (v if isinstance(v, Ref) else self.scalar(v)) for k, v in c.fields.items()})
        if isinstance(c, DictC):
            if not c.items:
                return None
            return DictC({k: (v if isinstance(v, Ref) else self.scalar(v)) for k, v in c.items.items()}, c.default)
        return None


# ------------------------------------------------------------------ generic body execution
class Body:
    """Result of running a loop body for a generic element."""


def bind_elem(I, st, it, k):
    I.assign(st.target, it.elem(k))


def run_generic(I, st, it, k, mod_vars, mod_locs, types, record, pre_assume=None, own=None):
    """One nested exploration with the given modified state havocked."""
    e = I.e
    hv = Havoc(I)
    frame = I.frame
    saved_vars, saved_heap, saved_pc = dict(frame.vars), dict(e.heap), list(e.pc)
    start_vars, start_cont = {}, {}
    for name in mod_vars:
        if name in saved_vars:
            v = types.get(("v", name), saved_vars[name])
            # joined type of the value before the loop and after an iteration
            nv = hv.scalar(v) if not isinstance(v, Ref) else Poison("is rebound to another object in the loop")
            frame.vars[name] = nv
            start_vars[name] = nv
    for loc in mod_locs:
        c = types.get(("l", loc), e.heap.get(loc))
        if isinstance(c, ViewC):
            c = I.lib_np.force(I, c)
        h = hv.content(c)
        if h is None:
            frame.vars, e.heap, e.pc = saved_vars, saved_heap, saved_pc
            raise Unsupported(f"{I.frame.mod.name}:{st.lineno}: loop modifies {type(c).__name__} in an unsupported way")
        if own and loc in own:
            h = own_cells(h, own[loc], k)
        e.heap[loc] = h
        start_cont[loc] = h
    rec = e.record
    e.record = rec and record
    e.generics.append(k)
    gens = list(e.generics)
    pc_extra = e.pc[len(saved_pc):]
    start_heap = dict(e.heap)

    def thunk():
        e.assume(it.range(k))
        if pre_assume is not None:
            pre_assume(k)
        try:
            bind_elem(I, st, it, k)
            out = I.exec_block(st.body)
        except PyRaise as ex:
            return "raise", ex
        if out is None or out[0] == "continue":
            return "next", None
        return out
    try:
        results = e.nested(thunk, frame)
    finally:
        e.generics.pop()
        e.record = rec
        frame.vars, e.heap, e.pc = saved_vars, saved_heap, saved_pc
    b = Body()
    b.results, b.hv, b.start_vars, b.start_cont, b.gens = results, hv, start_vars, start_cont, gens
    b.start_heap, b.k = start_heap, k
    return b


def own_cells(h, info, k):
    """The array h with the cells only iteration k writes as they were before the loop."""
    d, off, d0 = info["d"], info["off"], info["d0"]

    def elem(*idx):
        if z3.simplify(idx[d] - k - off).eq(z3.IntVal(0)):
            return to_f(d0.elem(*idx)) if h.dtype == "float" else d0.elem(*idx)
        return h.elem(*idx)
    return ArrC(h.shape, elem, h.dtype)


def find_modified(I, st, it, pre_assume=None):
    """Fixpoint of the variables and locations a generic iteration may modify."""
    e = I.e
    mod_vars, mod_locs, types = set(), set(), {}
    base_vars = dict(I.frame.vars)
    base_heap = dict(e.heap)
    for rnd in range(12):
        k = e.generic("k" if it is None or it.kind == "seq" else "e", it.sort if it else None)
        b = run_generic(I, st, it, k, mod_vars, mod_locs, types, False, pre_assume)
        changed = False
        for r in b.results:
            for name, v in r.vars.items():
                old = b.start_vars.get(name, base_vars.get(name, _MISSING))
                if old is _MISSING:
                    continue
                if not same_val(old, v):
                    if name not in mod_vars:
                        mod_vars.add(name)
                        changed = True
                    t = joined(I, types.get(("v", name), base_vars[name]), v)
                    if not same_type(types.get(("v", name), base_vars[name]), t):
                        types[("v", name)] = t
                        changed = True
            for name in base_vars:
                if name not in r.vars and name not in mod_vars:
                    mod_vars.add(name)
                    changed = True
            for loc, c in base_heap.items():
                old = b.start_cont.get(loc, c)
                new = r.heap.get(loc)
                if not same_content(old, new):
                    if loc not in mod_locs:
                        mod_locs.add(loc)
                        changed = True
                    cur = types.get(("l", loc), c)
                    t = joined_content(I, cur, new)
                    if t is not cur and type(t) is not type(cur) or (isinstance(t, SetC) and cur.et is None and t.et is not None):
                        types[("l", loc)] = t
                        changed = True
        if not changed:
            return mod_vars, mod_locs, types
    raise Unsupported("loop modifies an unbounded set of locations")


_MISSING = object()


def same_type(a, b):
    if type(a) is type(b) or (is_num(a) and is_num(b) and is_floaty(a) == is_floaty(b)
                              and isinstance(a, (bool, SBool)) == isinstance(b, (bool, SBool))):
        if isinstance(a, SF) or isinstance(a, float):
            ka, kb = to_f(a).kind, to_f(b).kind
            return (isinstance(ka, int) and ka == 0) == (isinstance(kb, int) and kb == 0)
        return True
    return False


def joined(I, a, b):
    """A sample value wide enough for both."""
    if is_num(a) and is_num(b):
        if is_floaty(a) or is_floaty(b):
            fa, fb = to_f(a), to_f(b)
            if isinstance(fa.kind, int) and fa.kind == 0 and isinstance(fb.kind, int) and fb.kind == 0:
                return SF(z3.RealVal(0))
            return SF(z3.RealVal(0), z3.Int("g!anykind"))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return SBool(TRUE)
        return SInt(z3.IntVal(0))
    if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, str):
        return Opaque("value built in a loop")
    if type(a) is type(b):
        return b
    return Poison("changes type in a loop")


def joined_content(I, a, b):
    if isinstance(a, SetC) and isinstance(b, SetC):
        return b if a.et is None else a
    if isinstance(a, DictC) and isinstance(b, MapC):
        return b
    if isinstance(a, ListC) and isinstance(b, SeqC):
        return b
    return a


# ------------------------------------------------------------------ summaries
def prove(e, facts, goal, ms=600):
    s = z3.Solver()
    s.set("timeout", ms)
    for a in facts:
        s.add(a)
    s.add(Not(goal))
    return s.check() == z3.unsat


def summarise(I, st, it):
    e = I.e
    mod_vars, mod_locs, types = find_modified(I, st, it)
    k = e.generic("k" if it.kind == "seq" else "e", it.sort)
    n_obl = len(e.obligations)
    b = run_generic(I, st, it, k, mod_vars, mod_locs, types, True)
    base_heap, frame = dict(e.heap), I.frame
    S = Summary(I, st, it, b, k, mod_vars, mod_locs, types)
    if S.rows and any(mentions(t, b.hv.pre) for r in e.reducers.values() for t in r.terms):
        # reductions over the own, not yet written cells: run again with those cells as before the loop
        del e.obligations[n_obl:]
        b = run_generic(I, st, it, k, mod_vars, mod_locs, types, True, own=S.rows)
        S = Summary(I, st, it, b, k, mod_vars, mod_locs, types)
    exits = [r for r in b.results if r.outcome != "next"]
    if not exits:
        S.apply(None)
        S.finish(k)
        if st.orelse:
            return I.exec_block(st.orelse)
        return None
    ex_cond = S.cond_any(exits)           # hv-free condition on k
    if ex_cond is None:
        raise Unsupported(f"{frame.mod.name}:{st.lineno}: loop exit depends on earlier iterations")
    at = lambda t: sub_t(ex_cond, [(k, t)])
    x = e.generic("k" if it.kind == "seq" else "e", it.sort)
    none = z3.ForAll([x], Implies(it.range(x), Not(at(x)))) if not z3.is_true(ex_cond) else z3.ForAll([x], Not(it.range(x)))
    if e.branch(none):
        S.apply(None)
        S.finish(k)
        if st.orelse:
            return I.exec_block(st.orelse)
        return None
    # some iteration exits: the first one (sequence) / some one (set, arbitrary visited part)
    k0 = e.const("exit", it.sort)
    e.assume(And(it.range(k0), at(k0)))
    if it.kind == "seq":
        e.assume(z3.ForAll([x], Implies(And(0 <= x, x < k0), Not(at(x)))))
        S.apply(lambda t: And(0 <= t, t < k0), n=k0)
    else:
        vis = e.func("visited", [it.sort], z3.BoolSort())
        e.assume(z3.ForAll([x], Implies(vis(x), And(it.mem(x), Not(at(x)), x != k0))))
        S.apply(lambda t: vis(t))
    for nm in mod_vars | (assigned_names(st.body)):
        pass
    rec = e.record
    e.record = False
    try:
        bind_elem(I, st, it, k0)
        out = I.exec_block(st.body)
    finally:
        e.record = rec
    if out is None or out[0] == "continue":
        raise PathEnd()
    if out[0] == "break":
        return None
    return out


class Summary:
    def __init__(self, I, st, it, b, k, mod_vars, mod_locs, types):
        self.I, self.st, self.it, self.b, self.k = I, st, it, b, k
        self.mod_vars, self.mod_locs, self.types = mod_vars, mod_locs, types
        self.e = I.e
        self.base_heap = dict(I.e.heap)
        self.base_vars = dict(I.frame.vars)
        self.rows = {}     # loc -> (dim, offset) of arrays written pointwise
        self.classify_arrays()
        self.classify_maps()

    # -------- reads of havoc contents in the element's own cell
    def hv_free(self, t):
        return not mentions(t, self.b.hv.pre)

    def fix(self, t):
        """Replace reads of an own, not yet written cell by the contents before the loop."""
        if self.hv_free(t):
            return t
        for _ in range(4):
            pairs = []
            for loc, info in self.rows.items():
                h = self.b.start_cont[loc]
                for app in find_apps(t, self.b.hv.pre):
                    r = info["read"](app)
                    if r is not None:
                        pairs.append((app, r))
            if not pairs:
                break
            t = z3.substitute(t, *pairs)
            if self.hv_free(t):
                break
        return t

    def classify_arrays(self):
        e, I, k = self.e, self.I, self.k
        for loc in self.mod_locs:
            h = self.b.start_cont[loc]
            if not isinstance(h, ArrC) or self.it.kind != "seq":
                continue
            d0 = self.base_heap[loc]
            if isinstance(d0, ViewC):
                d0 = I.lib_np.force(I, d0)
            ys = [z3.Const(e.fresh_name("g!y"), z3.IntSort()) for _ in h.shape]
            hval = h.elem(*ys)
            finals = []
            ok = True
            for r in self.b.results:
                c = r.heap[loc]
                if c is h:
                    finals.append((r, None))
                    continue
                sb = Subst(I, r.heap, self.b.start_heap, self.b.gens)
                try:
                    v, hp = sb.in_ctx(lambda: c.elem(*ys))
                except Unsupported:
                    ok = False
                    break
                finals.append((r, v))
            if not ok:
                continue
            for d in range(len(ys)):
                cands = [z3.IntVal(0)]
                for _, v in finals:
                    if v is not None:
                        for off in offsets_of(v, ys[d], k):
                            if not any(off.eq(x) for x in cands):
                                cands.append(off)
                for off in cands:
                    if not self.hv_free(off):
                        continue
                    good = True
                    for r, v in finals:
                        if v is None:
                            continue
                        same = same_scalar(v, hval)
                        facts = [*r.conds, ys[d] != k + off]
                        if not prove(e, facts, same):
                            good = False
                            break
                    if good:
                        self.set_row(loc, d, off, h, d0, ys, finals)
                        break
                if loc in self.rows:
                    break

    def set_row(self, loc, d, off, h, d0, ys, finals):
        k = self.k
        names = set()
        hv = h.elem(*ys)
        decls = {}
        for part, t in parts_of(hv):
            if z3.is_app(t) and t.num_args() == len(ys):
                decls[t.decl().name()] = part

        def read(app):
            nm = app.decl().name()
            if nm not in decls:
                return None
            if not z3.simplify(app.arg(d) - k - off).eq(z3.IntVal(0)):
                return None
            v = d0.elem(*[app.arg(i) for i in range(app.num_args())])
            v = self.I.lib_np.coerce(v, d0.dtype)
            return dict(parts_of(v, full=True))[decls[nm]]
        self.rows[loc] = {"d": d, "off": off, "read": read, "ys": ys, "finals": finals, "d0": d0}

    def classify_maps(self):
        """Maps over a set, written only at the iterated element."""
        e, I, k = self.e, self.I, self.k
        for loc in self.mod_locs:
            h = self.b.start_cont[loc]
            if not isinstance(h, MapC) or loc in self.rows:
                continue
            own = True
            for r in self.b.results:
                c = r.heap[loc]
                log = getattr(c, "log", None)
                if log is None:
                    own = False
                    break
                for key, _ in log:
                    if not key.eq(k):
                        own = False
            if not own or self.it.kind != "set":
                continue
            c0 = self.base_heap[loc]
            y = z3.Const(e.fresh_name("g!y"), I.et_sort(h.kt))
            hd = h.dom(y).decl().name()
            try:
                hg = h.get(y)
            except Unsupported:
                hg = None
            gd = {t.decl().name(): p for p, t in parts_of(hg)} if hg is not None and not isinstance(hg, Ref) else {}

            def read(app, c0=c0, hd=hd, gd=gd):
                if app.num_args() < 1 or not app.arg(0).eq(k):
                    return None
                nm = app.decl().name()
                c = c0 if isinstance(c0, MapC) else None
                if nm == hd:
                    return c.dom(app.arg(0)) if c is not None else FALSE
                if nm in gd and c is not None:
                    return dict(parts_of(c.get(app.arg(0)), full=True))[gd[nm]]
                return None
            self.rows[loc] = {"read": read, "map": True}

    # -------- conditions
    def cond(self, r):
        t = self.fix(And(*r.conds))
        return t if self.hv_free(t) else None

    def cond_any(self, rs):
        cs = [self.cond(r) for r in rs]
        if any(c is None for c in cs):
            return None
        return Or(*cs)

    # -------- apply
    def apply(self, rng, n=None):
        """Replace the modified state by its summary over the iterations in rng (None: all)."""
        I, e, it, k = self.I, self.e, self.it, self.k
        self.rng = rng if rng is not None else it.range
        self.n = n if n is not None else it.n
        nxt = [r for r in self.b.results if r.outcome == "next"]
        conds = [self.cond(r) for r in nxt]
        self.nxt, self.conds = nxt, conds
        frame = I.frame
        # facts established in the body hold at every visited element
        for r, c in zip(nxt, conds):
            if c is None:
                continue
            for f in r.facts:
                t = self.fix(f)
                if t.eq(it.range(k)):
                    continue
                if self.hv_free(t) and not z3.is_true(t) and mentions_t(t, k):
                    x = e.generic("f", it.sort)
                    e.assume(z3.ForAll([x], sub_t(Implies(And(self.rng(k), c), t), [(k, x)])))
                elif self.hv_free(t) and not mentions_t(t, k) and not mentions_t(c, k):
                    # independent of the element: known once anything was visited
                    x = e.generic("f", it.sort)
                    e.assume(Implies(And(c, z3.Exists([x], self.rng(x))), t))
        new_vars, new_cont = {}, {}
        for name in self.mod_vars:
            if name in self.base_vars:
                vals = [r.vars.get(name, Poison("is deleted in a loop")) for r in nxt]
                new_vars[name] = self.scalar(self.base_vars[name], self.b.start_vars[name], vals, name)
        for loc in self.mod_locs:
            new_cont[loc] = self.loc(loc)
        for name, v in new_vars.items():
            frame.vars[name] = v
        for loc, c in new_cont.items():
            if getattr(self.base_heap.get(loc), "frozen", False):
                e.put(Ref(loc), c)
            e.heap[loc] = c
        for r in nxt:
            for name in r.vars:
                if name not in self.base_vars:
                    frame.vars[name] = Poison("is only set inside a loop")

    def finish(self, k):
        for x in ast.walk(self.st.target):
            if isinstance(x, ast.Name):
                self.I.frame.vars[x.id] = Poison("is a loop variable")

    def any_path(self, terms):
        return Or(*[And(c, t) for c, t in terms])

    def scalar(self, old, start, vals, name):
        """Value of a variable / field after the loop."""
        I, e, it, k = self.I, self.e, self.it, self.k
        if all(same_val(v, start) for v in vals):
            return old
        if any(isinstance(v, Opaque) for v in vals) or isinstance(old, (Opaque,)) :
            return Opaque("value built in a loop")
        if any(isinstance(v, (Poison,)) for v in vals):
            return Poison("is not tracked through a loop")
        if isinstance(old, str) and any(not isinstance(v, str) for v in vals):
            return Poison("is not tracked through a loop")
        if any(c is None for c in self.conds):
            return Poison("depends on the order of loop iterations")
        try:
            return self.scalar2(old, start, vals)
        except Unsupported as ex:
            return Poison(f"is not tracked through a loop ({ex})")

    def scalar2(self, old, start, vals):
        I, e, it, k = self.I, self.e, self.it, self.k
        writes = [(r, c, v) for r, c, v in zip(self.nxt, self.conds, vals) if not same_val(v, start)]
        sb = lambda r: self.subst(r)
        # last-write constants
        hvf = all(self.val_free(v, r) for r, c, v in writes)
        if hvf:
            conc = [v for _, _, v in writes]
            if all(isinstance(v, (bool, int, str, float, type(None))) and type(v) is type(conc[0]) and v == conc[0] for v in conc):
                x = e.generic("f", it.sort)
                cw = Or(*[c for _, c, _ in writes])
                return I.ite(z3.Exists([x], sub_t(And(self.rng(k), cw), [(k, x)])), conc[0], old)
            if it.kind == "seq":
                cw = Or(*[c for _, c, _ in writes])
                x = e.generic("f", it.sort)
                some = z3.Exists([x], sub_t(And(self.rng(k), cw), [(k, x)]))
                w = e.const("last", z3.IntSort())
                e.assume(Implies(some, And(self.rng(w), sub_t(cw, [(k, w)]))))
                e.assume(Implies(some, z3.ForAll([x], Implies(And(x > w, self.rng(x)), Not(sub_t(cw, [(k, x)]))))))
                v = self.merge(writes, w)
                return I.ite(some, v, old)
            raise Unsupported("last write over a set")
        # counters
        if isinstance(start, SInt) and it.kind == "seq":
            deltas = []
            for r, c, v in zip(self.nxt, self.conds, vals):
                d = z3.simplify(self.fix(int_t(v) - start.t))
                if not self.hv_free(d):
                    raise Unsupported("not a sum")
                deltas.append((c, d))
            def body(t):
                tt = z3.IntVal(0)
                for c, d in deltas:
                    tt = If(sub_t(c, [(k, t)]), sub_t(d, [(k, t)]), tt)
                return tt
            vals01 = [d for _, d in deltas if not z3.is_int_value(d) or d.as_long() not in (0, 1)]
            if not vals01:
                return mkint(int_t(old) + I.lib_np.red_count(I, self.n, lambda t: mkbool(Or(*[sub_t(c, [(k, t)]) for c, d in deltas if d.as_long() == 1]))))
            return I.arith(ast.Add(), old, I.lib_np.red_sum(I, I.lib_np.mkdim(self.n), lambda t: SInt(body(t))))
        if isinstance(start, SF) and it.kind == "seq" and isinstance(start.kind, int) and start.kind == 0:
            deltas = []
            for r, c, v in zip(self.nxt, self.conds, vals):
                f = to_f(v)
                if not (isinstance(f.kind, int) and f.kind == 0):
                    raise Unsupported("sum of possibly non-finite values")
                d = z3.simplify(self.fix(f.val - start.val))
                if not self.hv_free(d):
                    raise Unsupported("not a sum")
                deltas.append((c, d))

            def body(t):
                tt = z3.RealVal(0)
                for c, d in deltas:
                    tt = If(sub_t(c, [(k, t)]), sub_t(d, [(k, t)]), tt)
                return SF(tt)
            return I.arith(ast.Add(), old, I.lib_np.red_sum(I, I.lib_np.mkdim(self.n), body))
        # boolean accumulation: flag = flag or c / flag and c
        if isinstance(start, SBool):
            at_f = [(c, z3.simplify(sub_t(bool_t(v), [(start.t, FALSE)]))) for c, v in zip(self.conds, vals)]
            at_t = [(c, z3.simplify(sub_t(bool_t(v), [(start.t, TRUE)]))) for c, v in zip(self.conds, vals)]
            x = e.generic("f", it.sort)
            if all(z3.is_true(t) for _, t in at_t) and all(self.hv_free(self.fix(t)) for _, t in at_f):
                return mkbool(Or(bool_t(old), z3.Exists([x], sub_t(And(self.rng(k), self.any_path([(c, self.fix(t)) for c, t in at_f])), [(k, x)]))))
            if all(z3.is_false(t) for _, t in at_f) and all(self.hv_free(self.fix(t)) for _, t in at_t):
                return mkbool(And(bool_t(old), z3.ForAll([x], sub_t(Implies(self.rng(k), self.any_path([(c, self.fix(t)) for c, t in at_t])), [(k, x)]))))
        raise Unsupported("loop-carried value")

    def subst(self, r):
        s = Subst(self.I, r.heap, self.b.start_heap, self.b.gens)
        s.fix = self.checked_fix
        return s

    def checked_fix(self, t):
        t = self.fix(t)
        if not self.hv_free(t):
            raise Unsupported("value depends on earlier loop iterations")
        return t

    def val_free(self, v, r):
        if isinstance(v, (SInt, SBool, SU)):
            return self.hv_free(self.fix(v.t))
        if isinstance(v, SF):
            return self.hv_free(self.fix(v.val)) and (isinstance(v.kind, int) or self.hv_free(self.fix(v.kind)))
        if isinstance(v, tuple):
            return all(self.val_free(x, r) for x in v)
        if isinstance(v, RecV):
            return all(self.val_free(x, r) for x in v.fields.values())
        return True

    def merge(self, writes, t):
        """Value at element t over the paths."""
        out = None
        for r, c, v in reversed(writes):
            x = self.subst(r).value(v, [(self.k, t)])
            out = x if out is None else self.I.ite(sub_t(c, [(self.k, t)]), x, out)
        return out

    def loc(self, loc):
        I, e, it, k = self.I, self.e, self.it, self.k
        c0 = self.base_heap[loc]
        h = self.b.start_cont[loc]
        try:
            if all(same_content(r.heap[loc], h) for r in self.nxt):
                return c0
            if isinstance(h, SetC):
                return self.set_loc(loc, c0, h)
            if isinstance(h, SeqC):
                return self.list_loc(loc, c0, h)
            if isinstance(h, MapC):
                return self.map_loc(loc, c0, h)
            if isinstance(h, ArrC):
                return self.arr_loc(loc, c0, h)
            if isinstance(h, ObjC):
                return ObjC(c0.cls, {f: self.scalar(c0.fields[f], h.fields[f], [r.heap[loc].fields.get(f, Poison("is deleted")) for r in self.nxt], f)
                                     if not isinstance(c0.fields[f], Ref) else self.same_ref(c0.fields[f], [r.heap[loc].fields.get(f) for r in self.nxt])
                                     for f in c0.fields})
            if isinstance(h, DictC):
                keys = list(h.items)
                for r in self.nxt:
                    if list(r.heap[loc].items) != keys:
                        raise Unsupported("loop adds keys to a dict")
                return DictC({f: self.scalar(c0.items[f], h.items[f], [r.heap[loc].items[f] for r in self.nxt], f)
                              if not isinstance(c0.items[f], Ref) else self.same_ref(c0.items[f], [r.heap[loc].items[f] for r in self.nxt])
                              for f in keys}, c0.default)
        except Unsupported as ex:
            raise Unsupported(f"{I.frame.mod.name}:{self.st.lineno}: {ex}") from None
        raise Unsupported("loop modifies an unsupported object")

    @staticmethod
    def same_ref(old, vals):
        return old if all(v == old for v in vals) else Poison("is rebound in a loop")

    def need_conds(self):
        if any(c is None for c in self.conds):
            raise Unsupported("a condition in the loop body depends on earlier iterations")

    def set_loc(self, loc, c0, h):
        I, e, it, k = self.I, self.e, self.it, self.k
        self.need_conds()
        s = I.et_sort(h.et)
        y = z3.Const(e.fresh_name("g!y"), s)
        adds, rems = [], []
        for r, c in zip(self.nxt, self.conds):
            m, _ = self.subst(r).in_ctx(lambda r=r: r.heap[loc].mem(y))
            hy = h.mem(y)
            off = z3.simplify(z3.substitute(m, (hy, FALSE)))
            on = z3.simplify(z3.substitute(m, (hy, TRUE)))
            off, on = self.fix(off), self.fix(on)
            if not self.hv_free(off) or not self.hv_free(on):
                raise Unsupported("set update depends on earlier iterations")
            adds.append((c, off))
            rems.append((c, z3.simplify(Not(on))))
        has_add = any(not z3.is_false(t) for _, t in adds)
        has_rem = any(not z3.is_false(t) for _, t in rems)
        if has_add and has_rem:
            raise Unsupported("loop both adds to and removes from a set")
        terms = adds if has_add else rems
        ex = lambda x: Or(*[self.exists(c, z3.substitute(t, (y, x)), x) for c, t in terms if not z3.is_false(t)])
        m0 = c0.mem
        if has_add:
            return SetC(h.et, lambda x: Or(m0(x), ex(x)))
        return SetC(h.et, lambda x: And(m0(x), Not(ex(x))))

    def exists(self, c, t, x):
        """exists k in range. c(k) and t(k), with the one-point rule when t fixes k to x."""
        k = self.k
        t = z3.simplify(t)
        conj = list(t.children()) if z3.is_and(t) else [t]
        for q in conj:
            if z3.is_eq(q):
                a, b2 = q.arg(0), q.arg(1)
                for u, v in ((a, b2), (b2, a)):
                    if u.eq(k) and not mentions_t(v, k):
                        rest = And(*[z for z in conj if z is not q])
                        return sub_t(And(self.rng(k), c, rest), [(k, v)])
        z = self.e.generic("f", self.it.sort)
        return z3.Exists([z], sub_t(And(self.rng(k), c, t), [(k, z)]))

    def list_loc(self, loc, c0, h):
        I, e, it, k = self.I, self.e, self.it, self.k
        self.need_conds()
        if it.kind == "set":
            raise NeedSequence()
        logs = []
        for r in self.nxt:
            c = r.heap[loc]
            log = getattr(c, "log", None)
            if log is None or getattr(c, "tag", None) != h.tag:
                raise Unsupported("list changed other than by append")
            logs.append(log)
        lens = {len(l) for l in logs}
        base = I.seq_of(c0) if not (isinstance(c0, ListC) and not c0.items) else None
        if lens == {1}:
            writes = [(r, c, l[0]) for r, c, l in zip(self.nxt, self.conds, logs)]
            n, get = self.n, (lambda j: self.merge(writes, j))
        elif lens <= {0, 1}:
            writes = [(r, c, l[0]) for r, c, l in zip(self.nxt, self.conds, logs) if l]
            cw = Or(*[c for _, c, _ in writes])
            cnt, sg = I.lib_np.mask_sel(I, I.lib_np.mkdim(self.n), lambda t: mkbool(sub_t(cw, [(k, t)])))
            n, get = I.lib_np.dim_t(cnt), (lambda j: self.merge(writes, sg(j)))
        elif len(lens) == 1:
            w = lens.pop()
            cols = [[(r, c, l[q]) for r, c, l in zip(self.nxt, self.conds, logs)] for q in range(w)]
            n = self.n * w

            def get(j):
                v = self.merge(cols[w - 1], j / w)
                for q in range(w - 2, -1, -1):
                    v = I.ite(j % w == q, self.merge(cols[q], j / w), v)
                return v
        else:
            raise Unsupported("varying number of appends per iteration")
        if base is None:
            return SeqC(z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n), memo1(get))
        return SeqC(z3.simplify(base.n + n), memo1(lambda j: I.ite(j < base.n, base.get(j), get(j - base.n))))

    def map_loc(self, loc, c0, h):
        I, e, it, k = self.I, self.e, self.it, self.k
        self.need_conds()
        c0m = c0 if isinstance(c0, MapC) else MapC(h.kt, lambda x: FALSE, None, getattr(c0, "default", None))
        if isinstance(c0, DictC) and c0.items:
            raise Unsupported("loop extends a concrete dict with symbolic keys")
        writes = []
        if any(getattr(r.heap[loc], "bulk", None) for r in self.nxt):
            return self.map_bulk(loc, c0, c0m, h)
        for r, c in zip(self.nxt, self.conds):
            c1 = r.heap[loc]
            log = getattr(c1, "log", None)
            if log is None or getattr(c1, "tag", None) != h.tag:
                raise Unsupported("dict changed other than by item assignment")
            if len(log) > 1:
                raise Unsupported("several dict writes per iteration")
            for key, v in log:
                writes.append((r, c, self.checked_fix(key), v))
        own = all(key.eq(k) for _, _, key, _ in writes)
        if own and it.kind == "set" or (own and h.kt == ("int",)):
            cw = Or(*[c for _, c, _, _ in writes])
            hit = lambda x: sub_t(And(self.rng(k), cw), [(k, x)])
            wr = [(r, c, v) for r, c, _, v in writes]
            return self.bulk(c0, hit, lambda x: self.merge(wr, x), MapC(h.kt, lambda x: Or(hit(x), c0m.dom(x)),
                        lambda x: I.ite(hit(x), self.merge(wr, x), c0m.get(x)) if c0m.get is not None else self.merge(wr, x),
                        c0m.default))
        # several iterations may write one key: the last one wins (sequence), some one (set)
        s = I.et_sort(h.kt)
        y, x = z3.Const(e.fresh_name("g!y"), s), e.generic("f", it.sort)
        wat = lambda key_t, t: Or(*[sub_t(And(c, kk == key_t), [(k, t)]) for _, c, kk, _ in writes])
        some = lambda y: z3.Exists([x], And(self.rng(x), wat(y, x)))
        w = e.func("writer", [s], it.sort)
        e.assume(z3.ForAll([y], Implies(some(y), And(self.rng(w(y)), wat(y, w(y))))))
        if it.kind == "seq":
            e.assume(z3.ForAll([y, x], Implies(And(some(y), self.rng(x), x > w(y)), Not(wat(y, x)))))
        wr = [(r, And(c, True), kk, v) for r, c, kk, v in writes]

        def get(y):
            out = None
            for r, c, kk, v in reversed(writes):
                val = self.subst(r).value(v, [(k, w(y))])
                out = val if out is None else I.ite(sub_t(And(c, kk == y), [(k, w(y))]), val, out)
            return out if c0m.get is None else I.ite(some(y), out, c0m.get(y))

        def written(y):
            out = None
            for r, c, kk, v in reversed(writes):
                val = self.subst(r).value(v, [(k, w(y))])
                out = val if out is None else I.ite(sub_t(And(c, kk == y), [(k, w(y))]), val, out)
            return out
        return self.bulk(c0, some, written, MapC(h.kt, lambda y: Or(some(y), c0m.dom(y)), get, c0m.default))

    def bulk(self, c0, hit, val, out):
        """Remember a whole loop's writes as one update, for the loop around this one."""
        if getattr(c0, "tag", None) is not None and getattr(c0, "log", None) == () and not getattr(c0, "bulk", None):
            out.tag, out.log, out.bulk = c0.tag, (), (hit, val)
        return out

    def map_bulk(self, loc, c0, c0m, h):
        """Each iteration writes a set of keys (an inner loop)."""
        I, e, it, k = self.I, self.e, self.it, self.k
        s = I.et_sort(h.kt)
        y, x = z3.Const(e.fresh_name("g!y"), s), e.generic("f", it.sort)
        rows = []
        for r, c in zip(self.nxt, self.conds):
            c1 = r.heap[loc]
            if getattr(c1, "log", None) != () or getattr(c1, "tag", None) != h.tag:
                raise Unsupported("dict changed other than by item assignment")
            b = getattr(c1, "bulk", None)
            if b is not None:
                rows.append((r, c, self.checked_fix(b[0](y)), b[1](y)))
        at = lambda key, t: Or(*[sub_t(And(c, p), [(k, t), (y, key)]) for _, c, p, _ in rows])
        some = lambda key: z3.Exists([x], And(self.rng(x), at(key, x)))
        w = e.func("writer", [s], it.sort)
        e.assume(z3.ForAll([y], Implies(some(y), And(self.rng(w(y)), at(y, w(y))))))
        if it.kind == "seq":
            e.assume(z3.ForAll([y, x], Implies(And(some(y), self.rng(x), x > w(y)), Not(at(y, x)))))

        def written(key):
            out = None
            for r, c, p, v in reversed(rows):
                val = self.subst(r).value(v, [(k, w(key)), (y, key)])
                out = val if out is None else I.ite(sub_t(And(c, p), [(k, w(key)), (y, key)]), val, out)
            return out
        get = lambda key: written(key) if c0m.get is None else I.ite(some(key), written(key), c0m.get(key))
        return self.bulk(c0, some, written, MapC(h.kt, lambda key: Or(some(key), c0m.dom(key)), get, c0m.default))

    def arr_loc(self, loc, c0, h):
        I, e, it, k = self.I, self.e, self.it, self.k
        info = self.rows.get(loc)
        if info is None:
            return self.arr_flags(loc, c0, h)
        self.need_conds()
        d, off, ys, d0 = info["d"], info["off"], info["ys"], info["d0"]
        fin = {id(r): v for r, v in info["finals"]}
        nxt, conds = self.nxt, self.conds
        # element read through the row: a per-path value over ys and k
        def elem(*idx):
            t = z3.simplify(idx[d] - off)
            prs = [(k, t)] + list(zip(ys, idx))
            old = I.lib_np.coerce(d0.elem(*idx), d0.dtype)
            out = None
            for r, c in zip(nxt, conds):
                v = fin[id(r)]
                x = old if v is None else self.subst(r).value(self.at_row(v, ys, d, off), prs)
                cc = sub_t(c, [(k, t)])
                out = x if out is None else I.ite(cc, x, out)
            return I.ite(self.rng(t), out, old)
        return ArrC(d0.shape, I.lib_np.memo_elem(elem), d0.dtype)

    def at_row(self, v, ys, d, off):
        """The written value at its own row: ys[d] = k + off."""
        k = self.k
        f = lambda t: z3.substitute(t, (ys[d], k + off))
        if isinstance(v, SInt):
            return SInt(z3.simplify(f(v.t)))
        if isinstance(v, SBool):
            return SBool(z3.simplify(f(v.t)))
        if isinstance(v, SU):
            return SU(z3.simplify(f(v.t)))
        if isinstance(v, SF):
            return SF(z3.simplify(f(v.val)), v.kind if isinstance(v.kind, int) else z3.simplify(f(v.kind)))
        return v

    def arr_flags(self, loc, c0, h):
        """Idempotent stores of one constant at arbitrary positions (a[f(k)] = True, ...)."""
        I, e, it, k = self.I, self.e, self.it, self.k
        self.need_conds()
        d0 = c0 if isinstance(c0, ArrC) else I.lib_np.force(I, c0)
        ys = [z3.Const(e.fresh_name("g!y"), z3.IntSort()) for _ in h.shape]
        if h.dtype == "bool":
            adds = rems = None
            ons, offs = [], []
            hy = bool_t(h.elem(*ys))
            for r, c in zip(self.nxt, self.conds):
                v, _ = self.subst(r).in_ctx(lambda r=r: r.heap[loc].elem(*ys))
                t = bool_t(v)
                off, on = self.fix(z3.simplify(z3.substitute(t, (hy, FALSE)))), self.fix(z3.simplify(z3.substitute(t, (hy, TRUE))))
                if not self.hv_free(off) or not self.hv_free(on):
                    raise Unsupported("array update depends on earlier iterations")
                ons.append((c, on))
                offs.append((c, off))
            x = e.generic("f", it.sort)
            if all(z3.is_true(t) or prove(e, [c], t) for c, t in ons):
                f = lambda *idx: z3.Exists([x], sub_t(And(self.rng(k), self.any_path([(c, z3.substitute(t, *zip(ys, idx))) for c, t in offs])), [(k, x)]))
                return ArrC(h.shape, I.lib_np.memo_elem(lambda *i: mkbool(Or(bool_t(d0.elem(*i)), f(*i)))), "bool")
            if all(z3.is_false(t) or prove(e, [c], Not(t)) for c, t in offs):
                f = lambda *idx: z3.Exists([x], sub_t(And(self.rng(k), self.any_path([(c, Not(z3.substitute(t, *zip(ys, idx)))) for c, t in ons])), [(k, x)]))
                return ArrC(h.shape, I.lib_np.memo_elem(lambda *i: mkbool(And(bool_t(d0.elem(*i)), Not(f(*i))))), "bool")
        raise Unsupported("array written at positions that depend on other iterations")


def memo1(f):
    cache = {}

    def g(j):
        i = j.get_id()
        if i in cache and cache[i][0].eq(j):
            return cache[i][1]
        v = f(j)
        cache[i] = (j, v)
        return v
    return g


def mentions_t(t, k):
    nm = k.decl().name()
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().name() == nm:
                return True
            st.extend(x.children())
    return False


def find_apps(t, prefix):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().name().startswith(prefix):
                out.append(x)
            st.extend(x.children())
    return out


def parts_of(v, full=False):
    """(part name, term) of a scalar value."""
    if isinstance(v, SF):
        out = [("val", v.val)]
        if not isinstance(v.kind, int):
            out.append(("kind", v.kind))
        elif full:
            out.append(("kind", z3.IntVal(v.kind)))
        return out
    if isinstance(v, (SInt, SBool, SU)):
        return [("t", v.t)]
    if isinstance(v, bool):
        return [("t", z3.BoolVal(v))]
    if isinstance(v, int):
        return [("t", z3.IntVal(v))]
    if isinstance(v, float):
        f = to_f(v)
        return [("val", f.val), ("kind", z3.IntVal(f.kind))]
    return []


def same_scalar(a, b):
    if is_floaty(a) or is_floaty(b):
        fa, fb = to_f(a), to_f(b)
        return And(sym.kis_eq(fa.kind, fb.kind), fa.val == fb.val)
    if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)):
        return bool_t(a) == bool_t(b)
    if isinstance(a, SU) and isinstance(b, SU):
        return a.t == b.t
    return int_t(a) == int_t(b)


def offsets_of(v, y, k):
    """Candidate c with a comparison y == k + c inside the value."""
    out = []
    seen = set()
    st = [t for _, t in parts_of(v)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            a, b = x.arg(0), x.arg(1)
            for p, q in ((a, b), (b, a)):
                d = z3.simplify(q - p + y - k)
                if mentions_t(x, y) and not mentions_t(d, y) and not mentions_t(d, k):
                    out.append(d)
        st.extend(x.children())
    return out


# ------------------------------------------------------------------ annotated invariants
class LoopInv:
    """inv(I, frame, k) -> [(label, z3 Bool)];  havoc(I, frame, k) optional state setter."""

    def __init__(self, inv, havoc=None, modifies=None, name="", when=None):
        self.inv, self.havoc, self.modifies, self.name, self.when = inv, havoc, modifies, name, when


def run_inv(I, st, it, inv):
    e = I.e
    frame = I.frame
    is_for = it is not None
    label = f"loop at line {st.lineno}"
    entry = Entry(dict(frame.vars), dict(e.heap))
    entry.elem = it.elem if is_for else None
    entry.of = getattr(it, "of", None)       # what the loop goes over, when the sequence says so
    zero = z3.IntVal(0)
    for nm, t in inv.inv(I, frame, zero, entry):
        e.oblige(f"{label}: invariant '{nm}' holds on entry", t, st, kind="loop")
    # arbitrary iteration
    k = e.const("iter", z3.IntSort())
    if inv.havoc is None:
        raise Unsupported("loop invariant without a havoc specification")
    inv.havoc(I, frame, k, entry)
    e.assume(k >= 0)
    if is_for:
        e.assume(k <= it.n)
    for nm, t in inv.inv(I, frame, k, entry):
        e.assume(t)
    if is_for:
        go = e.branch(k < it.n)
    else:
        go = I.truth(I.eval(st.test), st)
    if not go:
        if is_for:
            e.assume(k == it.n)
        return I.exec_block(st.orelse) if st.orelse else None
    locs = set(e.heap)
    snap_vars, snap_heap = dict(frame.vars), dict(e.heap)
    if is_for:
        I.assign(st.target, it.elem(k))
    out = I.exec_block(st.body)
    if out is not None and out[0] == "break":
        return None
    if out is not None and out[0] == "return":
        return out
    inv.frame_check(I, frame, snap_vars, snap_heap, entry, st) if hasattr(inv, "frame_check") else None
    check_frame(I, inv, st, snap_vars, snap_heap, entry)
    for nm, t in inv.inv(I, frame, k + 1, entry):
        e.oblige(f"{label}: invariant '{nm}' is preserved", t, st, kind="loop")
    raise PathEnd()


class Entry:
    def __init__(self, vars_, heap):
        self.vars, self.heap = vars_, heap


def check_frame(I, inv, st, vars0, heap0, entry):
    """Everything an iteration changes must be among what the havoc step made unknown."""
    e = I.e
    allowed_v, allowed_l = inv.modifies(I, entry, vars0)
    tgt = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} if isinstance(st, ast.For) else set()
    for n, v in I.frame.vars.items():
        if n in tgt or n in allowed_v:
            continue
        if n in entry.vars and not same_val(vars0.get(n, _MISSING), v):
            raise Unsupported(f"loop at line {st.lineno} also modifies {n!r}")
    for loc, c in heap0.items():
        if loc in allowed_l or loc not in entry.heap:
            continue
        if not same_content(c, e.heap.get(loc)):
            raise Unsupported(f"loop at line {st.lineno} also modifies another object")
