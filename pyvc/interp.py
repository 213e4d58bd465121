"""Symbolic interpreter of Python ASTs (direct style; forks through Engine.branch)."""
from __future__ import annotations

import ast

import z3

from . import sym
from .engine import Engine, recsort, usort
from .repo import Repo, base_names, class_fields, class_kind, class_members, decorators
from .sym import (FALSE, TRUE, And, ArrC, ClassV, DictC, FrameC, FuncV, If, Implies, LibV, ListC,
                  MapC, MethodV, Not, ObjC, Opaque, Or, Poison, PyFn, PyRaise, RecV, Ref, SBool,
                  SeqC, SetC, SF, SInt, Slice, SU, T, Unsupported, ViewC, bool_t, int_t, is_floaty,
                  is_num, mkbool, mkint, to_f)

BUILTIN_EXC = {"ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "Exception",
               "NotImplementedError", "RuntimeError", "ZeroDivisionError", "FileNotFoundError",
               "OSError", "IOError", "StopIteration", "AssertionError", "UnicodeDecodeError",
               "BaseException", "LookupError", "ArithmeticError", "ImportError", "PermissionError",
               "NameError", "UnboundLocalError", "IsADirectoryError"}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
              "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
              "FileNotFoundError": "OSError", "OSError": "Exception", "IOError": "Exception",
              "PermissionError": "OSError", "IsADirectoryError": "OSError",
              "UnicodeDecodeError": "ValueError", "ZeroDivisionError": "ArithmeticError",
              "ArithmeticError": "Exception", "NotImplementedError": "RuntimeError",
              "RuntimeError": "Exception", "AssertionError": "Exception",
              "UnboundLocalError": "NameError", "NameError": "Exception", "Exception": "BaseException",
              "StopIteration": "Exception", "ImportError": "Exception",
              "JSONDecodeError": "ValueError", "ParserError": "ValueError",
              "EmptyDataError": "ValueError"}


class Frame:
    def __init__(self, mod, func=None, closure=None):
        self.mod, self.func, self.closure = mod, func, closure
        self.vars: dict = {}
        self.loop_no = 0


DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.FloorDiv: "__floordiv__"}


class Interp:
    def __init__(self, eng: Engine, repo: Repo):
        self.e = eng
        self.repo = repo
        self.contracts: dict = {}
        self.target = None
        self.loop_invs: dict = {}
        self.lib: dict = {}            # library contracts: name -> fn(interp, args, kwargs, node)
        self.sort_attr: dict = {}      # (sort name, attr) -> fn(interp, term)
        self.sort_method: dict = {}    # (sort name, method) -> fn(interp, term, args, kwargs)
        self.sort_eqlit: dict = {}
        self.depth = 0
        self.once = 0                  # evaluating what Python evaluates once: module constants, default arguments
        self.frame: Frame | None = None
        self.unselect = False
        from . import lib_conc, lib_geo, lib_np, lib_pd, lib_py, lib_sp
        lib_py.install(self)
        lib_np.install(self)
        lib_pd.install(self)
        lib_sp.install(self)
        lib_geo.install(self)
        lib_conc.install(self)
        self.lib_pd = lib_pd

    # ================================================================ helpers
    def unsup(self, node, why):
        line = getattr(node, "lineno", "?")
        m = self.frame.mod.name if self.frame else "?"
        raise Unsupported(f"{m}:{line}: {why}")

    def raise_(self, name, msg=None, node=None):
        raise PyRaise(LibV("builtins." + name), msg, node)

    def list_(self, items):
        return self.e.alloc(ListC(items))

    def content(self, v):
        return self.e.get(v) if isinstance(v, Ref) else None

    # ---------------------------------------------------------------- encoding of set/dict elements
    def infer_et(self, v):
        if isinstance(v, SU):
            return ("u", v.t.sort().name(), v.t.sort())
        if isinstance(v, bool) or isinstance(v, SBool):
            return ("bool",)
        if isinstance(v, (int, SInt)):
            return ("int",)
        if isinstance(v, (float, SF)):
            return ("real",)
        if isinstance(v, str):
            return ("u", "Str", usort("Str"))
        if isinstance(v, (ClassV, LibV)) or v is None:
            return ("u", "PyObj", usort("PyObj"))
        if isinstance(v, RecV):
            return ("rec", v.cls, tuple((n, self.infer_et(x)) for n, x in v.fields.items()))
        if isinstance(v, tuple):
            return ("tup", tuple(self.infer_et(x) for x in v))
        raise Unsupported(f"cannot use {v!r} as a set/dict element")

    def et_sort(self, et):
        k = et[0]
        if k == "u":
            return et[2]
        if k == "int":
            return z3.IntSort()
        if k == "bool":
            return z3.BoolSort()
        if k == "real":
            return z3.RealSort()
        if k == "rec":
            return recsort(et[1].name, [(n, self.et_sort(x)) for n, x in et[2]])
        if k == "tup":
            return recsort("tup%d" % len(et[1]), [(f"f{i}", self.et_sort(x)) for i, x in enumerate(et[1])])
        raise Unsupported(f"element type {et}")

    def enc(self, v, et):
        k = et[0]
        if k == "u":
            if isinstance(v, SU):
                if v.t.sort() != et[2]:
                    raise Unsupported(f"element {v!r} is not of type {et[1]}")
                return v.t
            if isinstance(v, str):
                return self.e.lit(et[2], v)
            if isinstance(v, ClassV):
                return self.e.lit(et[2], v.qual)
            if isinstance(v, LibV):
                return self.e.lit(et[2], v.name)
            if v is None:
                return self.e.lit(et[2], None)
            raise Unsupported(f"element {v!r} is not of type {et[1]}")
        if k == "int":
            return int_t(v)
        if k == "bool":
            return bool_t(v)
        if k == "real":
            return to_f(v).val
        if k == "rec":
            if not isinstance(v, RecV):
                raise Unsupported(f"element {v!r} is not a {et[1].name}")
            s = self.et_sort(et)
            return self.collapse(s, [self.enc(v.fields[n], x) for n, x in et[2]])
        if k == "tup":
            s = self.et_sort(et)
            return self.collapse(s, [self.enc(a, x) for a, x in zip(v, et[1])])
        raise Unsupported(f"element type {et}")

    @staticmethod
    def collapse(s, parts):
        """mk(acc0(t), acc1(t), ...) is t."""
        t = None
        for i, p in enumerate(parts):
            if z3.is_app(p) and p.num_args() == 1 and p.decl().eq(s.accessor(0, i)):
                if t is None:
                    t = p.arg(0)
                if t.eq(p.arg(0)):
                    continue
            return s.mk(*parts)
        return t if t is not None else s.mk(*parts)

    def dec(self, t, et):
        k = et[0]
        if k == "u":
            return SU(t)
        if k == "int":
            return mkint(t)
        if k == "bool":
            return mkbool(t)
        if k == "real":
            return SF(t)
        if k == "rec":
            s = self.et_sort(et)
            out = {}
            for i, (n, x) in enumerate(et[2]):
                if z3.is_app(t) and t.decl().eq(s.constructor(0)):
                    out[n] = self.dec(t.arg(i), x)
                else:
                    out[n] = self.dec(s.accessor(0, i)(t), x)
            return RecV(et[1], out)
        if k == "tup":
            s = self.et_sort(et)
            return tuple(self.dec(t.arg(i) if (z3.is_app(t) and t.decl().eq(s.constructor(0)))
                                  else s.accessor(0, i)(t), x) for i, x in enumerate(et[1]))
        raise Unsupported(f"element type {et}")

    # ---------------------------------------------------------------- truth and equality
    def truth_t(self, v, node=None):
        """z3 Bool (or Python bool) for the truth value of v."""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, self.lib_py.SCard):
            return self.set_nonempty(v.set)
        if isinstance(v, (SBool, SInt, SF)):
            return bool_t(v)
        if isinstance(v, (FuncV, ClassV, LibV, MethodV, PyFn)):
            return True
        if isinstance(v, RecV):
            return bool(v.fields) or class_kind(v.cls) != "namedtuple"
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return len(c.items) > 0
            if isinstance(c, DictC):
                return len(c.items) > 0
            if isinstance(c, SeqC):
                return c.n > 0
            if isinstance(c, SetC):
                return self.set_nonempty(c)
            if isinstance(c, ObjC):
                return True
            if isinstance(c, (ArrC, ViewC)):
                a = self.lib_np.arr(self, v)
                if all(isinstance(d, int) and d == 1 for d in a.shape):
                    return bool_t(a.elem(*[z3.IntVal(0)] * len(a.shape)))
            if isinstance(c, MapC):
                return self.set_nonempty(SetC(c.kt, c.dom))
        if isinstance(v, SU):
            f = self.sort_attr.get((v.t.sort().name(), "__bool__"))
            if f:
                return f(self, v.t)
        self.unsup(node, f"truth value of {v!r}")

    def truth(self, v, node=None):
        t = self.truth_t(v, node)
        return t if isinstance(t, bool) else self.e.branch(t)

    def set_nonempty(self, c):
        if c.et is None:
            return FALSE
        x = self.e.generic("e", self.et_sort(c.et))
        b = c.mem(x)
        if z3.is_false(b):
            return FALSE
        return z3.Exists([x], b)

    def eq_t(self, a, b, node=None):
        """z3 Bool / bool for a == b (scalars, tuples, records)."""
        conc = (bool, int, float, str, type(None))
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            self.unsup(node, "comparison of an untracked value")
        if is_num(a) and is_num(b):
            if is_floaty(a) or is_floaty(b):
                return sym.f_eq(a, b)
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return bool_t(a) == bool_t(b)
            return int_t(a) == int_t(b)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, SU):
                f = self.sort_attr.get((o.t.sort().name(), "__isnone__"))
                return f(self, o.t) if f else False
            return False
        if isinstance(a, SU) or isinstance(b, SU):
            s, o = (a, b) if isinstance(a, SU) else (b, a)
            try:
                return s.t == self.enc(o, ("u", s.t.sort().name(), s.t.sort()))
            except Unsupported:
                if isinstance(o, (int, float, SInt, SF)):
                    f = self.sort_eqlit.get(s.t.sort().name())
                    if f:
                        return f(self, s.t, o)
                raise
        if isinstance(a, RecV) and isinstance(b, RecV):
            if a.cls != b.cls:
                return False
            return And(*[self.tb(self.eq_t(a.fields[k], b.fields[k], node)) for k in a.fields])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.tb(self.eq_t(x, y, node)) for x, y in zip(a, b)])
        if isinstance(a, (ClassV, LibV, FuncV)) and isinstance(b, (ClassV, LibV, FuncV)):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.eq_t(ca.items, cb.items, node)
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                et = ca.et or cb.et
                x = self.e.generic("e", self.et_sort(et))
                return z3.ForAll([x], ca.mem(x) == cb.mem(x))
        if isinstance(a, str) != isinstance(b, str):
            return False
        self.unsup(node, f"equality of {a!r} and {b!r}")

    @staticmethod
    def tb(x):
        return T(x) if isinstance(x, bool) else x

    def ite(self, c, a, b, node=None):
        """Merge two values under a z3 condition."""
        if isinstance(c, bool):
            return a if c else b
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        conc = (bool, int, float, str, type(None))
        if isinstance(a, conc) and isinstance(b, conc) and type(a) is type(b) and a == b:
            return a
        if is_num(a) and is_num(b):
            if is_floaty(a) or is_floaty(b):
                fa, fb = to_f(a), to_f(b)
                return SF(If(c, fa.val, fb.val), sym._kif(c, fa.kind, fb.kind))
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return mkbool(If(c, bool_t(a), bool_t(b)))
            return SInt(If(c, int_t(a), int_t(b)))
        if isinstance(a, SU) or isinstance(b, SU):
            et = self.infer_et(a if isinstance(a, SU) else b)
            return SU(If(c, self.enc(a, et), self.enc(b, et)))
        if isinstance(a, str) and isinstance(b, str):
            et = ("u", "Str", usort("Str"))
            return SU(If(c, self.enc(a, et), self.enc(b, et)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y, node) for x, y in zip(a, b))
        if isinstance(a, RecV) and isinstance(b, RecV) and a.cls == b.cls:
            return RecV(a.cls, {k: self.ite(c, a.fields[k], b.fields[k], node) for k in a.fields})
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            return self.e.alloc(self.ite_content(c, self.content(a), self.content(b), node))
        if isinstance(a, (ClassV, LibV, FuncV)) and a == b:
            return a
        raise Unsupported(f"cannot merge {a!r} and {b!r}")

    def ite_content(self, c, a, b, node=None):
        if a is b:
            return a
        if isinstance(a, SetC) and isinstance(b, SetC):
            return SetC(a.et or b.et, lambda x: If(c, a.mem(x), b.mem(x)))
        if isinstance(a, DictC) and not a.items and isinstance(b, MapC):
            a = MapC(b.kt, lambda x: FALSE, b.get, a.default)
        if isinstance(b, DictC) and not b.items and isinstance(a, MapC):
            b = MapC(a.kt, lambda x: FALSE, a.get, b.default)
        if isinstance(a, MapC) and isinstance(b, MapC):
            return MapC(a.kt, lambda x: If(c, a.dom(x), b.dom(x)),
                        lambda x: self.ite(c, a.get(x), b.get(x)), a.default)
        if isinstance(a, ViewC) or isinstance(b, ViewC):
            a = self.lib_np.force(self, a)
            b = self.lib_np.force(self, b)
        if isinstance(a, ArrC) and isinstance(b, ArrC) and len(a.shape) == len(b.shape):
            shp = []
            for x, y in zip(a.shape, b.shape):
                shp.append(x if self.same_dim(x, y) else If(c, int_t(mkint(x)), int_t(mkint(y))))
            dt = a.dtype if a.dtype == b.dtype else self.lib_np.join_dtype(a.dtype, b.dtype)
            return ArrC(shp, lambda *i: self.ite(c, a.elem(*i), b.elem(*i)), dt)
        if isinstance(a, ListC) and isinstance(b, ListC) and len(a.items) == len(b.items):
            return ListC([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (ListC, SeqC)) and isinstance(b, (ListC, SeqC)):
            a, b = self.seq_of(a), self.seq_of(b)
            ms = None
            if a.memset is not None and b.memset is not None:
                ms = lambda x: If(c, a.memset(x), b.memset(x))
            return SeqC(If(c, a.n, b.n), lambda k: self.ite(c, a.get(k), b.get(k)), a.et or b.et, memset=ms)
        raise Unsupported("cannot merge heap values")

    def same_dim(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        if isinstance(x, int) or isinstance(y, int):
            return False
        return x.eq(y)

    def seq_of(self, c):
        if isinstance(c, SeqC):
            return c
        items = c.items
        if not items:
            return SeqC(z3.IntVal(0), lambda k: None)

        def get(k, items=items):
            if z3.is_int_value(k) and 0 <= k.as_long() < len(items):
                return items[k.as_long()]
            v = items[-1]
            for i in range(len(items) - 2, -1, -1):
                v = self.ite(k == i, items[i], v)
            return v
        return SeqC(z3.IntVal(len(items)), get)

    # ================================================================ names
    def lookup(self, name, node=None):
        f = self.frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    self.unsup(node, f"value of {name!r} {v.why}")
                return v
            f = f.closure
        if name in self.frame.mod.defs:
            return self.repo.lookup(self.frame.mod, name, self)
        if self.is_local(name):
            self.raise_("UnboundLocalError", name, node)
        return LibV("builtins." + name)

    def is_local(self, name):
        fn = self.frame.func
        if fn is None or isinstance(fn.node, ast.Lambda):
            return False
        if not hasattr(fn.node, "_locals"):
            s = set()
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    s.add(x.id)
            fn.node._locals = s
        return name in fn.node._locals

    def module_expr(self, mod, node):
        saved = self.frame
        self.frame = Frame(mod)
        self.once += 1
        try:
            return self.eval(node)
        finally:
            self.frame = saved
            self.once -= 1

    # ================================================================ calls
    def call_value(self, f, args, kwargs, node=None):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, PyFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, LibV):
            return self.call_lib(f, args, kwargs, node)
        if isinstance(f, MethodV):
            return self.call_method(f.obj, f.name, args, kwargs, node)
        if isinstance(f, SU):
            m = self.sort_method.get((f.t.sort().name(), "__call__"))
            if m:
                return m(self, f.t, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque("call of " + f.why)
        self.unsup(node, f"call of {f!r}")

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        pos = list(a.posonlyargs) + list(a.args)
        vars_ = {}
        args = list(args)
        if f.self_v is not None:
            args = [f.self_v] + args
        names = [p.arg for p in pos]
        for n, v in zip(names, args):
            vars_[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError", "too many arguments", node)
            vars_[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        kw = dict(kwargs)
        star = kw.pop("**", None)
        for n in list(kw):
            if n in names or n in [k.arg for k in a.kwonlyargs]:
                if n in vars_:
                    self.raise_("TypeError", f"multiple values for {n}", node)
                vars_[n] = kw.pop(n)
        if a.kwarg is not None:
            if star is not None and not kw:
                vars_[a.kwarg.arg] = star
            else:
                vars_[a.kwarg.arg] = self.e.alloc(DictC(kw))
        elif kw:
            self.raise_("TypeError", f"unexpected keyword {list(kw)}", node)
        saved = self.frame
        self.frame = Frame(f.mod, None, f.closure)
        self.once += 1
        try:
            defs = a.defaults
            for p, d in zip(pos[len(pos) - len(defs):], defs):
                if p.arg not in vars_:
                    vars_[p.arg] = self.eval(d)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in vars_ and d is not None:
                    vars_[p.arg] = self.eval(d)
        finally:
            self.frame = saved
            self.once -= 1
        for p in pos + list(a.kwonlyargs):
            if p.arg not in vars_:
                self.raise_("TypeError", f"missing argument {p.arg}", node)
        return vars_

    def call_func(self, f, args, kwargs, node=None):
        c = self.contracts.get(f.qual)
        if c is not None and not (f.qual == self.target and self.depth == 0):
            self.e.used_contracts[f.qual] = self.e.used_contracts.get(f.qual, 0) + 1
            return c.apply(self, f, self.bind(f, args, kwargs, node), node)
        if self.depth > 40:
            self.unsup(node, f"recursion through {f.qual} without a contract")
        if f.qual != self.target:
            self.e.inlined[f.qual] = self.e.inlined.get(f.qual, 0) + 1
        return self.run_body(f, self.bind(f, args, kwargs, node))

    def run_body(self, f, vars_):
        saved = self.frame
        fr = Frame(f.mod, f, f.closure)
        fr.vars = vars_
        self.frame = fr
        self.depth += 1
        if isinstance(f.node, ast.FunctionDef) and self.is_generator(f.node):
            fr.vars["__yields__"] = self.list_([])
        self.e.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            out = self.exec_block(f.node.body)
            self.last_frame = fr
            if out is not None and out[0] == "return":
                return out[1]
            return None
        finally:
            self.e.frames.pop()
            self.depth -= 1
            self.frame = saved

    @staticmethod
    def is_generator(node):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))

    def instantiate(self, cls, args, kwargs, node=None):
        kind = class_kind(cls)
        hook = self.lib.get("class:" + cls.qual)
        if hook:
            return hook(self, cls, args, kwargs, node)
        if kind in ("namedtuple", "frozen", "dataclass"):
            mem = class_members(cls)
            if "__init__" not in mem:
                fl = self.all_fields(cls)
                out = {}
                if len(args) > len(fl):
                    self.raise_("TypeError", "too many arguments", node)
                for (n, _), v in zip(fl, args):
                    out[n] = v
                kw = dict(kwargs)
                star = kw.pop("**", None)
                if star is not None:
                    sc = self.content(star)
                    if not isinstance(sc, DictC):
                        self.unsup(node, "** of a symbolic dict")
                    kw.update(sc.items)
                names = [n for n, _ in fl]
                for n, v in kw.items():
                    if n not in names or n in out:
                        self.raise_("TypeError", f"bad argument {n}", node)
                    out[n] = v
                saved = self.frame
                self.frame = Frame(cls.mod)
                try:
                    for n, d in fl:
                        if n not in out:
                            if d is None:
                                self.raise_("TypeError", f"missing argument {n}", node)
                            out[n] = self.default_value(d)
                finally:
                    self.frame = saved
                out = {n: out[n] for n in names}
                if kind == "dataclass":
                    return self.e.alloc(ObjC(cls, out))
                return RecV(cls, out)
        if kind == "enum" and len(args) == 1 and not kwargs:
            for nm, d in class_members(cls).items():
                if not isinstance(d, (ast.AST,)) and d[0] in ("expr", "field"):
                    m = self.class_attr(cls, nm, None, node)
                    if isinstance(m, RecV) and self.eq_t(m.fields["value"], args[0]) is True:
                        return m
            if not isinstance(args[0], (str, int)):
                self.unsup(node, "an enumeration of a symbolic value")
            self.raise_("ValueError", "not a member", node)
        if self.is_exception(cls):
            return self.e.alloc(ObjC(cls, {"args": tuple(args)}))
        obj = self.e.alloc(ObjC(cls, {}))
        init = self.find_method(cls, "__init__")
        if init is not None:
            self.call_func(FuncV(init.mod, init.node, init.qual, init.cls, obj), args, kwargs, node)
        return obj

    def default_value(self, d):
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.eval(k.value)
                if k.arg == "default_factory":
                    return self.call_value(self.eval(k.value), [], {}, d)
        return self.eval(d)

    def all_fields(self, cls):
        out = []
        for b in self.bases(cls):
            if class_kind(b) == class_kind(cls) != "class":
                out += self.all_fields(b)
        names = {n for n, _ in class_fields(cls)}
        return [x for x in out if x[0] not in names] + class_fields(cls)

    def bases(self, cls):
        out = []
        for b in base_names(cls):
            if "." in b:
                continue
            if b in cls.mod.defs:
                v = self.repo.lookup(cls.mod, b, self)
                if isinstance(v, ClassV):
                    out.append(v)
        return out

    def is_exception(self, cls):
        for b in base_names(cls):
            if b in BUILTIN_EXC or b.endswith("Error") or b.endswith("Exception"):
                return True
        return any(self.is_exception(b) for b in self.bases(cls))

    def find_method(self, cls, name):
        for st in cls.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return FuncV(cls.mod, st, f"{cls.mod.name}:{cls.name}.{name}", cls)
        for b in self.bases(cls):
            m = self.find_method(b, name)
            if m is not None:
                return m
        return None

    def exc_matches(self, exc: PyRaise, handler):
        """Does the raised exception match the handler class value?"""
        if isinstance(handler, tuple):
            return any(self.exc_matches(exc, h) for h in handler)
        if isinstance(handler, Ref):
            return any(self.exc_matches(exc, h) for h in self.content(handler).items)
        want = handler.name.split(".")[-1]
        if isinstance(exc.cls, ClassV):
            seen = [exc.cls]
            while seen:
                c = seen.pop()
                if c.name == want:
                    return True
                seen += self.bases(c)
                for b in base_names(c):
                    n = b.split(".")[-1]
                    while n:
                        if n == want:
                            return True
                        n = EXC_PARENT.get(n)
            return False
        n = exc.name
        while n:
            if n == want or {n, want} == {"OSError", "IOError"}:
                return True
            n = EXC_PARENT.get(n)
        return False

    # ================================================================ statements
    def exec_block(self, stmts):
        for st in stmts:
            out = self.exec(st)
            if out is not None:
                return out
        return None

    def exec(self, st):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            self.unsup(st, f"statement {type(st).__name__}")
        return m(st)

    def x_Pass(self, st):
        return None

    def x_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value)
        return None

    def x_Import(self, st):
        for a in st.names:
            self.frame.vars[a.asname or a.name.split(".")[0]] = LibV(a.name if a.asname else a.name.split(".")[0])

    def x_ImportFrom(self, st):
        for a in st.names:
            base = st.module or ""
            if self.repo.is_repo(base):
                self.frame.vars[a.asname or a.name] = self.repo.lookup(self.repo.module(base), a.name, self)
            else:
                self.frame.vars[a.asname or a.name] = LibV(f"{base}.{a.name}")

    def x_FunctionDef(self, st):
        self.frame.vars[st.name] = FuncV(self.frame.mod, st, f"{self.frame.mod.name}:<local>.{st.name}",
                                         closure=self.frame)

    def x_Global(self, st):
        self.unsup(st, "global")

    x_Nonlocal = x_Global

    def x_Return(self, st):
        return ("return", self.eval(st.value) if st.value is not None else None)

    def x_Break(self, st):
        return ("break", None)

    def x_Continue(self, st):
        return ("continue", None)

    def x_Raise(self, st):
        if st.exc is None:
            cur = getattr(self, "current_exc", None)
            if cur is None:
                self.unsup(st, "bare raise")
            raise cur
        saved_record = None
        v = None
        e = st.exc
        if isinstance(e, ast.Call):
            cls = self.eval(e.func)
        else:
            cls = self.eval(e)
            if isinstance(cls, Ref) and isinstance(self.content(cls), ObjC):
                v = cls
                cls = self.content(cls).cls
        raise PyRaise(cls, v, st)

    def x_Assert(self, st):
        if not self.truth(self.eval(st.test), st):
            self.raise_("AssertionError", None, st)

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frame.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                c = self.eval(t.value)
                cc = self.content(c)
                k = self.eval(t.slice)
                if isinstance(cc, DictC) and k in cc.items:
                    d = dict(cc.items)
                    del d[k]
                    self.e.put(c, DictC(d, cc.default))
                elif isinstance(cc, MapC):
                    kk = self.enc(k, cc.kt)
                    self.e.put(c, MapC(cc.kt, lambda x, d=cc.dom: And(d(x), Not(x == kk)), cc.get, cc.default))
                else:
                    self.unsup(st, "del")
            else:
                self.unsup(st, "del")

    def x_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)
        return None

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))
        return None

    def x_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            old = self.getattr(obj, t.attr, t)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            key = self.eval_index(t.slice)
            old = self.getitem(obj, key, t)
        else:
            self.unsup(st, "augmented assignment")
        rhs = self.eval(st.value)
        new = self.inplace(st.op, old, rhs, st)
        if isinstance(t, ast.Name):
            self.frame.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, new, t)
        else:
            self.setitem(obj, key, new, t)
        return None

    def inplace(self, op, old, rhs, st):
        c = self.content(old)
        if isinstance(c, SetC):
            new = self.binop(op, old, rhs, st)
            self.e.put(old, self.content(new))
            return old
        if isinstance(c, (ListC, SeqC)) and isinstance(op, ast.Add):
            self.call_method(old, "extend", [rhs], {}, st)
            return old
        if isinstance(c, (ArrC, ViewC)):
            new = self.binop(op, old, rhs, st)
            self.lib_np.overwrite(self, old, new, st)
            return old
        return self.binop(op, old, rhs, st)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            self.setitem(obj, self.eval_index(t.slice), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                self.unsup(t, "starred assignment")
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        else:
            self.unsup(t, "assignment target")

    def unpack(self, v, n, node):
        if isinstance(v, tuple):
            items = v
        elif isinstance(v, RecV):
            items = tuple(v.fields.values())
        elif isinstance(v, Ref) and isinstance(self.content(v), ListC):
            items = self.content(v).items
        elif isinstance(v, Ref) and isinstance(self.content(v), (ArrC, ViewC)):
            a = self.lib_np.arr(self, v)
            if not isinstance(a.shape[0], int):
                self.unsup(node, "unpacking a symbolic array")
            items = [self.getitem(v, i, node) for i in range(a.shape[0])]
        elif isinstance(v, Opaque):
            return [Opaque("part of " + v.why) for _ in range(n)]
        else:
            self.unsup(node, f"unpacking {v!r}")
        if len(items) != n:
            self.raise_("ValueError", "unpack", node)
        return items

    def x_If(self, st):
        if self.only_prints(st.body) and self.only_prints(st.orelse):
            self.eval(st.test)
            return None
        if self.truth(self.eval(st.test), st):
            return self.exec_block(st.body)
        return self.exec_block(st.orelse)

    def x_For(self, st):
        from . import loops
        return loops.run_for(self, st)

    def x_While(self, st):
        from . import loops
        return loops.run_while(self, st)

    def x_Try(self, st):
        try:
            out = self.exec_block(st.body)
        except PyRaise as ex:
            for h in st.handlers:
                if h.type is None or self.exc_matches(ex, self.eval(h.type)):
                    saved = getattr(self, "current_exc", None)
                    self.current_exc = ex
                    if h.name:
                        self.frame.vars[h.name] = Opaque("exception")
                    try:
                        out = self.exec_block(h.body)
                    finally:
                        self.current_exc = saved
                    break
            else:
                if st.finalbody:
                    o2 = self.exec_block(st.finalbody)
                    if o2 is not None:
                        return o2
                raise
        else:
            if out is None and st.orelse:
                out = self.exec_block(st.orelse)
        if st.finalbody:
            o2 = self.exec_block(st.finalbody)
            if o2 is not None:
                return o2
        return out

    def x_With(self, st):
        for it in st.items:
            v = self.eval(it.context_expr)
            ent = v
            if isinstance(v, Ref) and isinstance(self.content(v), ObjC) and isinstance(self.content(v).cls, ClassV):
                m = self.find_method(self.content(v).cls, "__enter__")
                if m is not None:
                    self.unsup(st, "with over a repo context manager")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent)
        return self.exec_block(st.body)

    # ================================================================ expressions
    def eval(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsup(n, f"expression {type(n).__name__}")
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_JoinedStr(self, n):
        """Concrete parts are formatted; a contract may give a meaning to the others (self.fstring)."""
        vals, symbolic = [], False
        for p in n.values:
            if isinstance(p, ast.Constant):
                vals.append(str(p.value))
            else:
                try:
                    v = self.eval(p.value)
                except (Unsupported, PyRaise):
                    return Opaque("formatted string")
                if p.format_spec is not None or p.conversion != -1:
                    return Opaque("formatted string")
                if isinstance(v, (str, int)) and not isinstance(v, bool):
                    vals.append(str(v))
                elif self.fstring is not None:
                    vals.append(v)
                    symbolic = True
                else:
                    return Opaque("formatted string")
        return self.fstring(vals) if symbolic else "".join(vals)

    fstring = None

    def e_FormattedValue(self, n):
        return Opaque("formatted string")

    def e_Tuple(self, n):
        return tuple(self.eval_elts(n.elts))

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_iter(self.eval(x.value), x))
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, n):
        if not any(isinstance(x, ast.Starred) for x in n.elts):
            return self.list_(self.eval_elts(n.elts))
        # the parts between and from starred items, joined
        out = self.list_([])
        for x in n.elts:
            part = self.eval(x.value) if isinstance(x, ast.Starred) else self.list_([self.eval(x)])
            c = self.content(part) if isinstance(part, Ref) else None
            if not isinstance(c, (ListC, SeqC)):
                part = self.list_(self.concrete_iter(part, x))
            out = self.binop(ast.Add(), out, part, n)
        return out

    def e_Set(self, n):
        return self.make_set([self.eval(x) for x in n.elts])

    def make_set(self, items):
        if not items:
            return self.e.alloc(SetC(None, lambda x: FALSE))
        et = self.infer_et(items[0])
        encs = [self.enc(v, et) for v in items]
        return self.e.alloc(SetC(et, lambda x: Or(*[x == v for v in encs])))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.content(self.eval(v))
                if not isinstance(m, DictC):
                    self.unsup(n, "** of a symbolic dict")
                d.update(m.items)
                continue
            kk = self.eval(k)
            if isinstance(kk, float) and kk != kk:
                kk = ("not a number",)
            if not isinstance(kk, (str, int, ClassV, LibV, tuple)):
                self.unsup(n, "dict display with a symbolic key")
            d[kk] = self.eval(v)
        return self.e.alloc(DictC(d))

    def e_Lambda(self, n):
        return FuncV(self.frame.mod, n, f"{self.frame.mod.name}:<lambda>{n.lineno}", closure=self.frame)

    def e_IfExp(self, n):
        return self.eval(n.body) if self.truth(self.eval(n.test), n) else self.eval(n.orelse)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        acc = None          # accumulated z3 condition when everything is boolean and pure
        vals = n.values
        for i, x in enumerate(vals):
            v = self.eval(x)
            last = i == len(vals) - 1
            if acc is not None:
                if isinstance(v, (bool, SBool)):
                    acc = And(acc, bool_t(v)) if is_and else Or(acc, bool_t(v))
                    if last:
                        return mkbool(acc)
                    if self.pure(vals[i + 1]):
                        continue
                    r = self.e.branch(acc)
                    if r != is_and:
                        return r
                    acc = None
                    continue
                r = self.e.branch(acc)     # non-boolean operand: decide what came before
                if r != is_and:
                    return r
                acc = None
            if last:
                return v
            if isinstance(v, SBool) and self.pure(vals[i + 1]):
                acc = v.t
                continue
            if self.truth(v, n) != is_and:
                return v
        return v

    PURE_CALLS = {"len", "abs", "min", "max"}

    def pure(self, n):
        """Cheap operands which cannot fail: evaluated without a fork."""
        for x in ast.walk(n):
            if isinstance(x, (ast.Subscript, ast.Call, ast.NamedExpr, ast.IfExp, ast.Lambda, ast.ListComp,
                              ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                return False
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Div, ast.FloorDiv, ast.Mod)):
                return False
        return True

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth_t(v, n)
            return (not t) if isinstance(t, bool) else mkbool(Not(t))
        return self.unop(n.op, v, n)

    def unop(self, op, v, n):
        if isinstance(v, Ref) and isinstance(self.content(v), (ArrC, ViewC)):
            return self.lib_np.map1(self, v, lambda x: self.unop(op, x, n), op)
        if isinstance(op, ast.USub):
            if isinstance(v, (bool, int, float)):
                return -v
            if isinstance(v, (SInt, SBool)):
                return mkint(-int_t(v))
            if isinstance(v, SF):
                return sym.f_neg(v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, SBool) or isinstance(v, bool):
                # numpy booleans: logical not (Python bools do not reach ~ in this code base)
                return mkbool(Not(bool_t(v)))
            if isinstance(v, int):
                return ~v
        self.unsup(n, f"unary {type(op).__name__} on {v!r}")

    def e_BinOp(self, n):
        return self.binop(n.op, self.eval(n.left), self.eval(n.right), n)

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.content(v), (ArrC, ViewC))

    def binop(self, op, a, b, n=None):
        if self.is_arr(a) or self.is_arr(b):
            return self.lib_np.binop(self, op, a, b, n)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("arithmetic on an untracked value")
        ca, cb = self.content(a), self.content(b)
        if isinstance(a, SU) and (a.t.sort().name(), DUNDER.get(type(op))) in self.sort_method:
            return self.sort_method[(a.t.sort().name(), DUNDER[type(op)])](self, a.t, [b], {})
        if isinstance(ca, ObjC) and isinstance(ca.cls, LibV):
            h = self.lib.get(f"method:{ca.cls.name}.{DUNDER.get(type(op))}")
            if h is not None:
                return h(self, a, [b], {}, n)
        if isinstance(ca, SetC) and isinstance(cb, SetC):
            et = ca.et or cb.et
            ma, mb = ca.mem, cb.mem
            if isinstance(op, ast.BitAnd):
                return self.e.alloc(SetC(et, lambda x: And(ma(x), mb(x))))
            if isinstance(op, ast.BitOr):
                return self.e.alloc(SetC(et, lambda x: Or(ma(x), mb(x))))
            if isinstance(op, ast.Sub):
                return self.e.alloc(SetC(et, lambda x: And(ma(x), Not(mb(x)))))
            if isinstance(op, ast.BitXor):
                return self.e.alloc(SetC(et, lambda x: ma(x) != mb(x)))
        if isinstance(ca, (ListC, SeqC)) and isinstance(cb, (ListC, SeqC)) and isinstance(op, ast.Add):
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.list_(ca.items + cb.items)
            sa, sb = self.seq_of(ca), self.seq_of(cb)
            return self.e.alloc(SeqC(sa.n + sb.n,
                                     lambda k: self.ite(k < sa.n, sa.get(k), sb.get(k - sa.n))))
        if isinstance(ca, ListC) and isinstance(op, ast.Mult) and isinstance(b, int):
            return self.list_(ca.items * b)
        if isinstance(ca, ListC) and isinstance(op, ast.Mult) and isinstance(b, SInt) and len(ca.items) == 1:
            return self.e.alloc(SeqC(z3.If(b.t > 0, b.t, z3.IntVal(0)), lambda k: ca.items[0]))
        if isinstance(ca, (DictC,)) and isinstance(cb, DictC) and isinstance(op, ast.BitOr):
            return self.e.alloc(DictC({**ca.items, **cb.items}))
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return Opaque("formatted string")
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, (str, SU)) and isinstance(b, (str, SU)) and isinstance(op, ast.Add):
            s = usort("Str")
            f = z3.Function("str_concat", s, s, s)
            et = ("u", "Str", s)
            return SU(f(self.enc(a, et), self.enc(b, et)))
        if is_num(a) and is_num(b):
            return self.arith(op, a, b, n)
        if isinstance(a, LibV) and isinstance(b, (LibV, type(None))) and isinstance(op, ast.BitOr):
            return Opaque("type union")
        if isinstance(op, ast.Div) and (isinstance(a, SU) or isinstance(b, SU)):
            f = self.lib.get("path/")
            if f:
                return f(self, a, b)
        self.unsup(n, f"{type(op).__name__} on {a!r} and {b!r}")

    def arith(self, op, a, b, n=None):
        conc = (bool, int, float)
        if isinstance(a, conc) and isinstance(b, conc):
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.FloorDiv):
                    return a // b
                if isinstance(op, ast.Mod):
                    return a % b
                if isinstance(op, ast.Pow):
                    return a ** b
                if isinstance(op, ast.Div):
                    return sym.f_div(a, b) if not isinstance(a / b, int) and b != 0 else a / b
                if isinstance(op, ast.BitAnd):
                    return a & b
                if isinstance(op, ast.BitOr):
                    return a | b
                if isinstance(op, ast.BitXor):
                    return a ^ b
                if isinstance(op, ast.LShift):
                    return a << b
                if isinstance(op, ast.RShift):
                    return a >> b
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", None, n)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            x, y = bool_t(a), bool_t(b)
            return mkbool(And(x, y) if isinstance(op, ast.BitAnd) else Or(x, y) if isinstance(op, ast.BitOr) else x != y)
        fl = is_floaty(a) or is_floaty(b) or isinstance(op, ast.Div)
        if fl:
            if isinstance(op, ast.Add):
                return sym.f_add(a, b)
            if isinstance(op, ast.Sub):
                return sym.f_sub(a, b)
            if isinstance(op, ast.Mult):
                return sym.f_mul(a, b)
            if isinstance(op, ast.Div):
                if not is_floaty(a) and not is_floaty(b):
                    # Python int / int: division by zero raises
                    if isinstance(b, SInt) and not isinstance(a, sym.NInt) and not isinstance(b, sym.NInt):
                        if self.e.branch(int_t(b) == 0):
                            self.raise_("ZeroDivisionError", None, n)
                return sym.f_div(a, b)
            if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
                r = to_f(a) if b else to_f(1)
                for _ in range(b - 1):
                    r = sym.f_mul(r, a)
                return r
            if isinstance(op, ast.Pow):
                f = z3.Function("real_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
                self.e.trusted("** on reals (uninterpreted)")
                fa, fb = to_f(a), to_f(b)
                half = z3.simplify(fb.val).as_fraction() * 2 if z3.is_rational_value(z3.simplify(fb.val)) else None
                if half is not None and half.denominator == 1 and 0 < half <= 8:
                    r = self.lib["math.sqrt"](self, [fa], {}, n) if half % 2 else to_f(1)
                    for _ in range(int(half) // 2):
                        r = sym.f_mul(r, fa)
                    return r
                return SF(f(fa.val, fb.val))
            self.unsup(n, f"float {type(op).__name__}")
        x, y = int_t(a), int_t(b)
        if isinstance(op, ast.Add):
            return mkint(x + y)
        if isinstance(op, ast.Sub):
            return mkint(x - y)
        if isinstance(op, ast.Mult):
            return mkint(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if isinstance(b, int) and b > 0:
                return mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
        if isinstance(op, ast.Mod) and isinstance(a, (int, SInt)) and isinstance(b, SInt):
            if self.e.spec_mode == 0:
                self.e.oblige("modulus is positive", y > 0, n, kind="safety")
                self.e.assume(y > 0)
            f = z3.Function("modulo", z3.IntSort(), z3.IntSort(), z3.IntSort())
            u, w = z3.Ints("u!mod w!mod")
            self.e.axiom(z3.ForAll([u, w], z3.Implies(w > 0, z3.And(0 <= f(u, w), f(u, w) < w)), patterns=[f(u, w)]), {"modulo"})
            return mkint(f(x, y))
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return mkint(r)
        if isinstance(op, ast.Pow) and isinstance(a, int) and a == 2:
            f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
            self.e.axiom(f(z3.IntVal(0)) == 1)
            k = z3.Int("k!pow2")
            self.e.axiom(z3.ForAll([k], Implies(k >= 0, And(f(k + 1) == 2 * f(k), f(k) >= 1)), patterns=[f(k)]))
            return SInt(f(y))
        if isinstance(op, ast.RShift) and isinstance(b, int):
            return mkint(x / (2 ** b))
        self.unsup(n, f"integer {type(op).__name__}")

    def e_Compare(self, n):
        left = self.eval(n.left)
        acc = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn)
            r = self.compare(op, left, right, n)
            if len(n.ops) == 1:
                return r
            t = self.tb(self.truth_t(r, n))
            acc = t if acc is None else And(acc, t)
            left = right
        return mkbool(acc)

    def compare(self, op, a, b, n=None):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_t(a, b, n)
            r = r if isinstance(op, ast.Is) else (not r if isinstance(r, bool) else Not(r))
            return r if isinstance(r, bool) else mkbool(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains_t(b, a, n)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else Not(r)
            return r if isinstance(r, bool) else mkbool(r)
        if self.is_arr(a) or self.is_arr(b):
            return self.lib_np.compare(self, op, a, b, n)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for x, y in ((a, b), (b, a)):
                cx = self.content(x) if isinstance(x, Ref) else None
                if isinstance(cx, ObjC) and isinstance(cx.cls, LibV):
                    h = self.lib.get(f"method:{cx.cls.name}.{'__eq__' if isinstance(op, ast.Eq) else '__ne__'}")
                    if h is not None:
                        return h(self, x, [y], {}, n)
        cz = self.lib_py.card_zero(self, type(op).__name__, a, b)
        if cz is not None:
            return mkbool(cz)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq_t(a, b, n)
            if isinstance(op, ast.NotEq):
                if isinstance(r, bool):
                    return not r
                if is_num(a) and is_num(b) and (is_floaty(a) or is_floaty(b)):
                    return mkbool(Not(r))
                return mkbool(Not(r))
            return r if isinstance(r, bool) else mkbool(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[type(op).__name__]
        if is_num(a) and is_num(b):
            conc = (bool, int, float)
            if isinstance(a, conc) and isinstance(b, conc):
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[type(op).__name__]
            if is_floaty(a) or is_floaty(b):
                k = type(op).__name__
                return mkbool({"Lt": lambda: sym.f_lt(a, b), "LtE": lambda: sym.f_le(a, b),
                               "Gt": lambda: sym.f_lt(b, a), "GtE": lambda: sym.f_le(b, a)}[k]())
            x, y = int_t(a), int_t(b)
            return mkbool(z3.simplify({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[type(op).__name__]))
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, SetC) and isinstance(cb, SetC):
            et = ca.et or cb.et
            if et is None:
                return True
            x = self.e.generic("e", self.et_sort(et))
            if isinstance(op, ast.LtE):
                return mkbool(z3.ForAll([x], Implies(ca.mem(x), cb.mem(x))))
            if isinstance(op, ast.GtE):
                return mkbool(z3.ForAll([x], Implies(cb.mem(x), ca.mem(x))))
        self.unsup(n, f"comparison {type(op).__name__} of {a!r} and {b!r}")

    def is_t(self, a, b, n):
        if a is None and b is None:
            return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, SU):
                f = self.sort_attr.get((o.t.sort().name(), "__isnone__"))
                return f(self, o.t) if f else False
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.eq_t(a, b, n)
            return False
        if isinstance(a, (ClassV, LibV, FuncV)) and isinstance(b, (ClassV, LibV, FuncV)):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, SU) or isinstance(b, SU):
            return self.eq_t(a, b, n)
        self.unsup(n, "'is' on these values")

    def contains_t(self, c, v, n):
        cc = self.content(c)
        if isinstance(c, tuple) or isinstance(cc, ListC):
            items = c if isinstance(c, tuple) else cc.items
            return self.any_eq(items, v, n)
        if isinstance(cc, DictC):
            if isinstance(v, (str, int, ClassV, LibV, tuple)) or v is None:
                return v in cc.items
            return self.any_eq(list(cc.items), v, n)
        if isinstance(cc, SetC):
            if cc.et is None:
                return False
            return cc.mem(self.enc(v, cc.et))
        if isinstance(cc, MapC):
            return cc.dom(self.enc(v, cc.kt))
        if isinstance(cc, SeqC):
            if cc.memset is not None and cc.et is not None:
                return cc.memset(self.enc(v, cc.et))
            k = self.e.generic("k")
            return z3.Exists([k], And(0 <= k, k < cc.n, self.tb(self.eq_t(cc.get(k), v, n))))
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if self.is_arr(c):
            return self.lib_np.contains(self, c, v, n)
        if isinstance(c, SU):
            f = self.sort_method.get((c.t.sort().name(), "__contains__"))
            if f:
                return f(self, c.t, [v], {})
        self.unsup(n, f"'in' on {c!r}")

    def any_eq(self, items, v, n):
        out = []
        for x in items:
            r = self.eq_t(x, v, n)
            if r is True:
                return True
            if r is not False:
                out.append(r)
        return Or(*out) if out else False

    # ---------------------------------------------------------------- attributes
    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr, n)

    def getattr(self, v, name, n=None):
        if isinstance(v, RecV):
            if name in v.fields:
                return v.fields[name]
            if isinstance(v.cls, ClassV):
                m = self.class_attr(v.cls, name, v, n)
                if m is not None:
                    return m
                if name == "__dict__" and any("dataclass" in ast.unparse(d) for d in v.cls.node.decorator_list):
                    return self.e.alloc(DictC(dict(v.fields)))
            return MethodV(v, name)
        if isinstance(v, ClassV):
            m = self.class_attr(v, name, None, n)
            if m is not None:
                return m
            if name == "__name__":
                return v.name
            return MethodV(v, name)
        if isinstance(v, LibV):
            full = f"{v.name}.{name}"
            if self.repo.is_repo(v.name):
                m = self.repo.module(v.name)
                if name in m.defs:
                    return self.repo.lookup(m, name, self)
                if self.repo.is_repo(full):
                    return LibV(full)
            c = self.lib.get("const:" + full)
            if c is not None:
                return c(self) if callable(c) else c
            return LibV(full)
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                if name in c.fields:
                    x = c.fields[name]
                    if isinstance(x, Poison):
                        self.unsup(n, f"field {name} {x.why}")
                    return x
                if isinstance(c.cls, ClassV):
                    m = self.class_attr(c.cls, name, v, n)
                    if m is not None:
                        return m
                    self.raise_("AttributeError", name, n)
                f = self.lib.get(f"attr:{c.cls.name}.{name}")
                if f:
                    return f(self, v)
                return MethodV(v, name)
            if isinstance(c, (ArrC, ViewC)):
                return self.lib_np.getattr_(self, v, name, n)
            return MethodV(v, name)
        if isinstance(v, SU):
            f = self.sort_attr.get((v.t.sort().name(), name))
            if f:
                return f(self, v.t)
            return MethodV(v, name)
        if isinstance(v, Opaque):
            return v.attrs.get(name, Opaque(f"{v.why}.{name}"))
        if isinstance(v, FuncV) and name == "__name__":
            return v.qual.split(".")[-1].split(":")[-1]
        if isinstance(v, (SF, SInt, SBool, int, float, str, tuple, MethodV)):
            if name == "real" and is_num(v):
                return v
            return MethodV(v, name)
        if v is None:
            self.raise_("AttributeError", name, n)
        self.unsup(n, f"attribute {name} of {v!r}")

    def class_attr(self, cls, name, inst, n):
        mem = class_members(cls)
        if name in mem:
            d = mem[name]
            if isinstance(d, ast.FunctionDef):
                decs = decorators(d)
                f = FuncV(cls.mod, d, f"{cls.mod.name}:{cls.name}.{name}", cls)
                if "property" in decs or "cached_property" in decs:
                    if inst is None:
                        return f
                    return self.call_func(FuncV(f.mod, f.node, f.qual, cls, inst), [], {}, n)
                if "staticmethod" in decs:
                    return f
                if "classmethod" in decs:
                    return FuncV(f.mod, f.node, f.qual, cls, cls if inst is None else self.cls_of(inst, cls))
                return FuncV(f.mod, f.node, f.qual, cls, inst) if inst is not None else f
            if isinstance(d, ast.ClassDef):
                return ClassV(cls.mod, d, d.name)
            if d[0] == "expr" or (d[0] == "field" and d[1] is not None):
                if class_kind(cls) == "enum":
                    return self.e.enum_member(cls, name) if hasattr(self.e, "enum_member") else \
                        RecV(cls, {"name": name, "value": self.module_expr(cls.mod, d[1])})
                return self.module_expr(cls.mod, d[1])
        for b in self.bases(cls):
            m = self.class_attr(b, name, inst, n)
            if m is not None:
                return m
        if name == "_fields" and class_kind(cls) == "namedtuple":
            return tuple(f for f, _ in self.all_fields(cls))
        return None

    @staticmethod
    def cls_of(inst, cls):
        return inst.cls if isinstance(inst, RecV) else cls

    def setattr(self, obj, name, v, n=None):
        c = self.content(obj) if isinstance(obj, Ref) else None
        if isinstance(c, ObjC):
            f = dict(c.fields)
            f[name] = v
            self.e.put(obj, ObjC(c.cls, f))
            return
        if isinstance(c, (ArrC, ViewC)) and name == "shape":
            self.unsup(n, "assignment to .shape")
        if isinstance(obj, Opaque):
            return
        if isinstance(obj, RecV):
            self.raise_("AttributeError", name, n)
        self.unsup(n, f"attribute assignment on {obj!r}")

    # ---------------------------------------------------------------- subscripts
    def eval_index(self, n):
        if isinstance(n, ast.Slice):
            return Slice(*[self.eval(x) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(x) for x in n.elts)
        return self.eval(n)

    def e_Slice(self, n):
        return self.eval_index(n)

    def e_Subscript(self, n):
        v = self.eval(n.value)
        if isinstance(v, (ClassV, LibV)) and not isinstance(v, Ref):
            f = self.lib.get("subscript:" + (v.qual if isinstance(v, ClassV) else v.name))
            if f:
                return f(self, v, self.eval_index(n.slice), n)
            return Opaque("generic alias") if not isinstance(v, ClassV) else v
        return self.getitem(v, self.eval_index(n.slice), n)

    def norm_index(self, k, n_t, node, what="index"):
        """In-range normalised z3 Int index, obliging bounds. k: int or SInt; n_t int or z3 Int."""
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int) and isinstance(n_t, int):
            if k < 0:
                k += n_t
            if not 0 <= k < n_t:
                self.raise_("IndexError", None, node)
            return z3.IntVal(k)
        nt = z3.IntVal(n_t) if isinstance(n_t, int) else n_t
        if isinstance(k, int):
            t = z3.IntVal(k) if k >= 0 else nt + k
            ok = And(t >= 0, t < nt)
        else:
            t = int_t(k)
            ok = And(t >= 0, t < nt)
            if self.e.spec_mode == 0:
                # negative indices count from the end, as in Python
                if not self.e.spec_mode and self.e.feasible(t < 0):
                    if self.e.branch(t < 0):
                        t = t + nt
                        ok = And(t >= 0, t < nt)
        if self.e.spec_mode == 0:
            self.e.oblige(f"{what} within bounds", ok, node, kind="safety")
            self.e.assume(ok)
        return z3.simplify(t)

    def getitem(self, v, k, n=None):
        c = self.content(v) if isinstance(v, Ref) else None
        if isinstance(c, (ArrC, ViewC)):
            return self.lib_np.getitem(self, v, k, n)
        if isinstance(v, RecV):
            v = tuple(v.fields.values())
        if isinstance(v, (tuple, str)) or isinstance(c, ListC):
            items = v if c is None else c.items
            if isinstance(k, Slice):
                if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                    r = items[slice(k.lo, k.hi, k.step)]
                    return r if c is None else self.list_(r)
                self.unsup(n, "symbolic slice of a list")
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                try:
                    return items[k]
                except IndexError:
                    self.raise_("IndexError", None, n)
            if isinstance(k, (SInt, SBool)):
                if not isinstance(items, tuple):
                    self.unsup(n, "symbolic index into a string")
                if not items:
                    self.raise_("IndexError", None, n)
                t = self.norm_index(k, len(items), n)
                try:
                    return self.seq_of(ListC(items)).get(t)
                except Unsupported:
                    for i in range(len(items) - 1):
                        if self.e.branch(t == i):
                            return items[i]
                    return items[-1]
            self.unsup(n, f"list index {k!r}")
        if isinstance(c, SeqC):
            if isinstance(k, Slice):
                if k.step is not None:
                    self.unsup(n, "stepped slice")
                lo = self.clip_index(k.lo, c.n, z3.IntVal(0))
                hi = self.clip_index(k.hi, c.n, c.n)
                ln = z3.simplify(If(hi > lo, hi - lo, z3.IntVal(0)))
                return self.e.alloc(SeqC(ln, lambda j, lo=lo: c.get(j + lo), c.et))
            t = self.norm_index(k, c.n, n)
            return c.get(t)
        if isinstance(c, DictC):
            if isinstance(k, (str, int, tuple, ClassV, LibV)) or k is None:
                if k in c.items:
                    return c.items[k]
                if c.default is not None:
                    v2 = self.call_value(c.default, [], {}, n)
                    self.e.put(v, DictC({**c.items, k: v2}, c.default))
                    return v2
                self.raise_("KeyError", k, n)
            for kk in c.items:
                r = self.eq_t(kk, k, n)
                if r is True or (r is not False and self.e.branch(r)):
                    return c.items[kk]
            self.raise_("KeyError", None, n)
        if isinstance(c, MapC):
            t = self.enc(k, c.kt)
            if c.default is None:
                d = c.dom(t)
                if not self.e.branch(d):
                    self.raise_("KeyError", None, n)
                return c.get(t)
            return c.get(t)
        if isinstance(v, SU):
            f = self.sort_method.get((v.t.sort().name(), "__getitem__"))
            if f:
                return f(self, v.t, [k], {})
        if isinstance(c, ObjC):
            f = self.lib.get(f"method:{c.cls.name}.__getitem__")
            if f:
                return f(self, v, [k], {}, n)
        if isinstance(v, Opaque):
            return Opaque(v.why + "[...]")
        self.unsup(n, f"subscript of {v!r}")

    def clip_index(self, x, n, default):
        if x is None:
            return default
        t = z3.simplify(int_t(x))
        if z3.is_int_value(t) and t.as_long() == 0:
            return t
        if not z3.is_int_value(t) and not self.e.feasible(Not(And(t >= 0, t <= n))):
            return t
        neg = z3.If(t < 0, t + n, t)
        return z3.simplify(z3.If(neg < 0, z3.IntVal(0), z3.If(neg > n, n, neg)))

    def setitem(self, obj, k, v, n=None):
        c = self.content(obj) if isinstance(obj, Ref) else None
        if isinstance(c, (ArrC, ViewC)):
            return self.lib_np.setitem(self, obj, k, v, n)
        if isinstance(c, ListC):
            if isinstance(k, int):
                items = list(c.items)
                try:
                    items[k] = v
                except IndexError:
                    self.raise_("IndexError", None, n)
                self.e.put(obj, ListC(items))
                return
            if isinstance(k, SInt):
                t = self.norm_index(k, len(c.items), n)
                self.e.put(obj, ListC([self.ite(t == i, v, x) for i, x in enumerate(c.items)]))
                return
        if isinstance(c, SeqC):
            t = self.norm_index(k, c.n, n)
            self.freeze(v, n)
            cell = self.snapshot(v)
            self.e.put(obj, SeqC(c.n, lambda j, g=c.get: self.ite(j == t, cell(), g(j)), c.et))
            return
        if isinstance(c, DictC):
            if isinstance(k, (str, int, tuple, ClassV, LibV)) or k is None:
                self.e.put(obj, DictC({**c.items, k: v}, c.default))
                return
            if isinstance(k, (SU, SInt, RecV)) and not c.items:
                cell0 = self.snapshot(v)
                c = MapC(self.infer_et(k), lambda x: FALSE, lambda x: cell0(), c.default)
        if isinstance(c, MapC):
            t = self.enc(k, c.kt)
            self.freeze(v, n)
            cell = self.snapshot(v)
            out = MapC(c.kt, lambda x, d=c.dom: Or(x == t, d(x)),
                       lambda x, g=c.get: self.ite(x == t, cell(), g(x)), c.default)
            if getattr(c, "log", None) is not None and not getattr(c, "bulk", None):
                out.log, out.tag = c.log + ((t, cell()),), c.tag
            self.e.put(obj, out)
            return
        if isinstance(c, ObjC):
            f = self.lib.get(f"method:{c.cls.name}.__setitem__")
            if f:
                return f(self, obj, [k, v], {}, n)
        if isinstance(obj, Opaque):
            return
        self.unsup(n, f"item assignment on {obj!r}")

    def freeze(self, v, n):
        """A mutable object stored in a symbolic container is moved: later mutation is an error."""
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, (MapC, SetC, ListC, SeqC, DictC)):
                import copy
                c2 = copy.copy(c)
                c2.frozen = True
                self.e.heap[v.loc] = c2

    def snapshot(self, v):
        """A thunk giving v's value as of now (content captured)."""
        if not isinstance(v, Ref):
            return lambda: v
        c = self.content(v)
        return lambda: self.e.alloc(c)

    # ---------------------------------------------------------------- iteration helpers
    def concrete_iter(self, v, n=None):
        """Items of a value with a concrete length, else Unsupported."""
        it = self.try_concrete(v)
        if it is None:
            self.unsup(n, f"iteration over symbolic {v!r}")
        return it

    def try_concrete(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RecV):
            return list(v.fields.values())
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return list(c.items)
            if isinstance(c, DictC):
                return list(c.items)
            if isinstance(c, (ArrC, ViewC)):
                a = self.lib_np.arr(self, v)
                if isinstance(a.shape[0], int):
                    return [self.getitem(v, i) for i in range(a.shape[0])]
            if isinstance(c, SeqC) and z3.is_int_value(z3.simplify(c.n)):
                return [c.get(z3.IntVal(i)) for i in range(z3.simplify(c.n).as_long())]
            if isinstance(c, SetC) and c.et is None:
                return []
        return None

    # ---------------------------------------------------------------- comprehensions
    def comp(self, n, kind):
        acc = "__acc%d" % (n.lineno * 1000 + n.col_offset)
        saved = dict(self.frame.vars)
        if kind == "list":
            self.frame.vars[acc] = self.list_([])
            leaf = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [n.elt], []))
        elif kind == "set":
            self.frame.vars[acc] = self.make_set([])
            leaf = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "add", ast.Load()), [n.elt], []))
        else:
            self.frame.vars[acc] = self.e.alloc(DictC({}))
            leaf = ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), n.key, ast.Store())], n.value)
        body = [leaf]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        node = body[0]
        for x in ast.walk(node):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        ast.fix_missing_locations(node)
        node._comp = True
        self.exec(node)
        out = self.frame.vars.pop(acc)
        for k in list(self.frame.vars):
            if k not in saved:
                del self.frame.vars[k]
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    if x.id in saved:
                        self.frame.vars[x.id] = saved[x.id]
                    else:
                        self.frame.vars.pop(x.id, None)
        return out

    def e_ListComp(self, n):
        return self.comp(n, "list")

    def e_GeneratorExp(self, n):
        return self.comp(n, "list")

    def e_SetComp(self, n):
        return self.comp(n, "set")

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else None
        self.call_method(self.frame.vars["__yields__"], "append", [v], {}, n)
        return None

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        had = self.content(self.frame.vars["__yields__"]) if self.frame.vars.get("__yields__") is not None else None
        if had is not None:
            if not isinstance(had, ListC) or had.items:
                self.unsup(n, "yield from after other values")
            self.frame.vars["__yields__"] = v
        return None

    def e_Starred(self, n):
        self.unsup(n, "starred expression")

    def e_Call(self, n):
        f = self.eval(n.func) if not self.skip_call(n) else None
        if f is None:
            return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_iter(self.eval(a.value), a))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                c = self.content(v)
                if isinstance(c, DictC):
                    kwargs.update({kk: vv for kk, vv in c.items.items()})
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call_value(f, args, kwargs, n)

    def only_prints(self, block):
        return all(isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and self.skip_call(x.value)
                   or isinstance(x, ast.If) and self.plain(x.test) and self.only_prints(x.body) and self.only_prints(x.orelse) for x in block)

    def plain(self, t):
        return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BoolOp, ast.UnaryOp, ast.Compare, ast.boolop, ast.unaryop,
                                  ast.cmpop, ast.expr_context)) for x in ast.walk(t))

    def skip_call(self, n):
        # console output has no effect on results; its arguments are formatting only
        return isinstance(n.func, ast.Name) and n.func.id == "print" and "print" not in self.frame.mod.defs

    def call_lib(self, f, args, kwargs, node):
        h = self.lib.get(f.name)
        if h is None:
            short = f.name.split(".")[-1]
            if f.name.startswith("builtins.") and short in BUILTIN_EXC:
                return self.e.alloc(ObjC(f, {"args": tuple(args)}))
            self.unsup(node, f"library function {f.name} has no contract")
        self.cur_node = node
        return h(self, args, kwargs, node)

    def call_method(self, obj, name, args, kwargs, node):
        return self.lib_py.call_method(self, obj, name, args, kwargs, node)
