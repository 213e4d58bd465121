"""Contracts of the stage builder (C01 - C04).

The schedule is specified as a function of the *sets* of stages, inputs and outputs only:

  R(0) = {};  S(i) = stages of step i = the stages not in R(i) which are ready given R(i) and do not
  read an argument rewritten by another ready stage;  R(i+1) = R(i) + S(i).

`_resolve_stages` is proved to return exactly S(0), S(1), ... up to the step at which everything is
resolved, and to raise exactly when a step is ambiguous or empty before that.
"""
import z3

from pyvc.engine import usort
from pyvc.loops import LoopInv
from pyvc.sym import (FALSE, And, Implies, LibV, MapC, Not, ObjC, Or, PyRaise, RecV, Ref, SBool, SeqC, SetC,
                      SU, T, Unsupported, mkbool)
from pyvc.verify import Contract, forall

M = "instancespace.stage_builder"
STAGE, PYT, STR, NT = usort("Stage"), usort("PyT"), usort("Str"), usort("NT")
ET_STAGE, ET_STR, ET_PYT = ("u", "Stage", STAGE), ("u", "Str", STR), ("u", "PyT", PYT)
B = z3.BoolSort()


def repo_cls(I, mod, name):
    return I.repo.lookup(I.repo.module(mod), name, I)


def arg_et(I):
    return ("rec", repo_cls(I, "instancespace.stage_runner", "_StageArgument"),
            (("parameter_name", ET_STR), ("parameter_type", ET_PYT)))


def pair_et(I):
    return ("rec", repo_cls(I, M, "_BeforeAfterRestriction"), (("before", ET_STAGE), ("after", ET_STAGE)))


# ------------------------------------------------------------------ typing
origin = z3.Function("get_origin", PYT, PYT)
is_class = z3.Function("is_class", PYT, B)
subclass = z3.Function("is_subclass", PYT, PYT, B)
target = z3.Function("marker_target", PYT, STAGE)


def marker(I, t, cls):
    """Is the type t the marker cls, parameterised or not?"""
    none = I.e.lit(PYT, None)
    o = z3.If(origin(t) != none, origin(t), t)
    return And(is_class(o), subclass(o, I.e.lit(PYT, cls.qual)))


def typing_model(I):
    none = I.e.lit(PYT, None)

    def get_origin(I, a, kw, nd):
        I.e.trusted("typing.get_origin / get_args of a marker annotation")
        return SU(origin(a[0].t))

    def get_args(I, a, kw, nd):
        I.e.trusted("typing.get_origin / get_args of a marker annotation")
        return (SU(target(a[0].t)),)
    I.lib["typing.get_origin"] = get_origin
    I.lib["typing.get_args"] = get_args
    I.sort_attr[("PyT", "__bool__")] = lambda I, t: t != none
    I.sort_method[("PyT", "__isinstance__")] = lambda I, t, a, kw: is_class(t)

    def issub(I, t, a, kw):
        cs = a[0] if isinstance(a[0], tuple) else (a[0],)
        return mkbool(Or(*[subclass(t, I.e.lit(PYT, c.qual)) for c in cs]))
    I.sort_method[("PyT", "__issubclass__")] = issub


class IsRestriction(Contract):
    qual = "instancespace.stages.stage:is_run_restriction"
    name = "is_run_restriction"

    def configure(self, I):
        typing_model(I)

    def markers(self, I):
        return [repo_cls(I, "instancespace.stages.stage", n) for n in ("RunBefore", "RunAfter")]

    def setup(self, I):
        t = z3.Const("t", PYT)
        ms = self.markers(I)
        k = 0 if I.e.branch(z3.Bool("only_before")) else 1 if I.e.branch(z3.Bool("only_after")) else 2
        rs = (ms[0],) if k == 0 else (ms[1],) if k == 1 else tuple(ms)
        return dict(argument_type=SU(t), restrictions=rs), dict(t=t, rs=rs)

    def ensures(self, I, c, res):
        return [("true exactly for the given markers", I.tb(I.truth_t(res)) == Or(*[marker(I, c["t"], r) for r in c["rs"]]))]

    def apply(self, I, f, v, node):
        return mkbool(Or(*[marker(I, v["argument_type"].t, r) for r in v["restrictions"]]))


# ------------------------------------------------------------------ the builder's state
ann_dom = z3.Function("ann_dom", NT, STR, B)
ann_type = z3.Function("ann_type", NT, STR, PYT)
inputs_of = z3.Function("inputs_of", STAGE, NT)
outputs_of = z3.Function("outputs_of", STAGE, NT)


def nt_args(I, nt, a):
    """Is the argument record a among the fields of the named tuple type nt?"""
    s = I.et_sort(arg_et(I))
    nm, ty = s.accessor(0, 0)(a), s.accessor(0, 1)(a)
    return And(ann_dom(nt, nm), ann_type(nt, nm) == ty)


def nt_model(I):
    I.sort_attr[("NT", "__annotations__")] = lambda I, t: I.e.alloc(
        MapC(ET_STR, lambda x: ann_dom(t, x), lambda x: SU(ann_type(t, x))))
    I.sort_method[("Stage", "_inputs")] = lambda I, t, a, kw: SU(inputs_of(t))
    I.sort_method[("Stage", "_outputs")] = lambda I, t, a, kw: SU(outputs_of(t))
    from pyvc.sym import Opaque
    I.sort_attr[("Stage", "__name__")] = lambda I, t: Opaque("stage name")
    I.e.trusted("Stage._inputs / _outputs return a fixed NamedTuple type")


class St:
    """A builder with an arbitrary set of stages, their inputs and outputs."""

    def __init__(self, I, tag=""):
        self.I = I
        self.aet = arg_et(I)
        self.ARG = I.et_sort(self.aet)
        self.stages = z3.Function("stages" + tag, STAGE, B)
        self.sin = z3.Function("sin" + tag, STAGE, self.ARG, B)
        self.sout = z3.Function("sout" + tag, STAGE, self.ARG, B)
        self.RB, self.RA = [repo_cls(I, "instancespace.stages.stage", n) for n in ("RunBefore", "RunAfter")]
        self.obj()

    def obj(self):
        I, e = self.I, self.I.e
        self.r_stages = e.alloc(SetC(ET_STAGE, lambda x: self.stages(x)))
        self.r_in = e.alloc(MapC(ET_STAGE, lambda x: self.stages(x), lambda x: e.alloc(SetC(self.aet, lambda a: self.sin(x, a)))))
        self.r_out = e.alloc(MapC(ET_STAGE, lambda x: self.stages(x), lambda x: e.alloc(SetC(self.aet, lambda a: self.sout(x, a)))))
        self.self = e.alloc(ObjC(repo_cls(I, M, "StageBuilder"),
                                 {"_stages": self.r_stages, "_stage_inputs": self.r_in, "_stage_outputs": self.r_out}))

    def type(self, a):
        return self.ARG.accessor(0, 1)(a)

    def is_b(self, a):
        return marker(self.I, self.type(a), self.RB)

    def is_a(self, a):
        return marker(self.I, self.type(a), self.RA)

    def needs(self, s, a):
        if self.abstract is not None:
            return self.abstract[0](s, a)
        return And(self.sin(s, a), Not(Or(self.is_b(a), self.is_a(a))))

    def mut(self, s, a):
        return And(self.sin(s, a), self.sout(s, a))

    abstract = None

    def restr(self, b, a):
        """A marker asks for b before a."""
        if self.abstract is not None:
            return self.abstract[1](b, a)
        g = self.I.e.generic("r", self.ARG)
        return z3.Exists([g], Or(And(self.stages(b), self.sin(b, g), self.is_b(g), target(self.type(g)) == a),
                                 And(self.stages(a), self.sin(a, g), self.is_a(g), target(self.type(g)) == b)))

    def unchanged(self, I):
        """The builder's own state is what it was."""
        e = I.e
        c = e.get(self.self)
        x, a = z3.Const("x!u", STAGE), z3.Const("a!u", self.ARG)
        out = []
        s, i, o = [e.get(c.fields[k]) for k in ("_stages", "_stage_inputs", "_stage_outputs")]
        out.append(("the set of added stages is unchanged", forall([x], s.mem(x) == self.stages(x))))
        for nm, m, f in (("inputs", i, self.sin), ("outputs", o, self.sout)):
            out.append((f"the recorded {nm} are unchanged", And(
                forall([x], m.dom(x) == self.stages(x)),
                forall([x, a], Implies(self.stages(x), e.get(m.get(x)).mem(a) == f(x, a))))))
        return out


def set_eq(I, ref, et, pred):
    """z3 Bool: the set behind ref is {x | pred(x)}."""
    c = I.content(ref)
    x = z3.Const(I.e.fresh_name("x!s"), I.et_sort(et))
    mem = (lambda y: FALSE) if c.et is None else c.mem
    return forall([x], mem(x) == pred(x))


class Conf(Contract):
    def configure(self, I):
        typing_model(I)
        nt_model(I)


class Strip(Conf):
    qual = M + ":StageBuilder._strip_run_restriction_arguments"
    name = "_strip_run_restriction_arguments"
    uses = ("is_run_restriction",)

    def setup(self, I):
        et = arg_et(I)
        f = z3.Function("given", I.et_sort(et), B)
        r = I.e.alloc(SetC(et, lambda a: f(a)))
        return dict(arguments=r), dict(f=f, r=r)

    def spec(self, I, mem):
        s = St.__new__(St)
        s.I, s.aet = I, arg_et(I)
        s.ARG = I.et_sort(s.aet)
        s.RB, s.RA = [repo_cls(I, "instancespace.stages.stage", n) for n in ("RunBefore", "RunAfter")]
        return lambda a: And(mem(a), Not(Or(s.is_b(a), s.is_a(a))))

    def ensures(self, I, c, res):
        return [("exactly the data arguments remain", set_eq(I, res, arg_et(I), self.spec(I, c["f"]))),
                ("the argument is not modified", set_eq(I, c["r"], arg_et(I), c["f"]))]

    def apply(self, I, f, v, node):
        c = I.content(v["arguments"])
        m = c.mem if c.et is not None else (lambda x: FALSE)
        return I.e.alloc(SetC(arg_et(I), self.spec(I, m)))


class NamedTupleArgs(Conf):
    qual = M + ":StageBuilder._named_tuple_to_stage_arguments"
    name = "_named_tuple_to_stage_arguments"

    def setup(self, I):
        t = z3.Const("nt", NT)
        return dict(named_tuple=SU(t)), dict(t=t)

    def ensures(self, I, c, res):
        return [("one argument per annotated field", set_eq(I, res, arg_et(I), lambda a: nt_args(I, c["t"], a)))]

    def apply(self, I, f, v, node):
        t = v["named_tuple"].t
        return I.e.alloc(SetC(arg_et(I), lambda a: nt_args(I, t, a)))


class AddStage(Conf):
    qual = M + ":StageBuilder.add_stage"
    name = "add_stage"
    uses = ("is_run_restriction", "_named_tuple_to_stage_arguments")

    def setup(self, I):
        s = St(I)
        n = z3.Const("new", STAGE)
        return dict(self=s.self, stage=SU(n)), dict(s=s, n=n)

    def bad(self, I, c):
        s, a = c["s"], z3.Const("a!b", c["s"].ARG)
        return z3.Exists([a], And(nt_args(I, outputs_of(c["n"]), a), Or(s.is_b(a), s.is_a(a))))

    def ensures(self, I, c, res):
        s, n, e = c["s"], c["n"], I.e
        f = e.get(s.self).fields
        x, a = z3.Const("x!e", STAGE), z3.Const("a!e", s.ARG)
        st, i, o = [e.get(f[k]) for k in ("_stages", "_stage_inputs", "_stage_outputs")]
        out = [("a stage added before is not added again", Not(s.stages(n))),
               ("no marker among the outputs", Not(self.bad(I, c))),
               ("the builder is returned", T(res == s.self)),
               ("exactly this stage is added", forall([x], st.mem(x) == Or(s.stages(x), x == n)))]
        for nm, m, g, new in (("inputs", i, s.sin, inputs_of(n)), ("outputs", o, s.sout, outputs_of(n))):
            out.append((f"its own {nm} are recorded, the others kept", And(
                forall([x], m.dom(x) == Or(s.stages(x), x == n)),
                forall([x, a], Implies(Or(s.stages(x), x == n),
                                       e.get(m.get(x)).mem(a) == z3.If(x == n, nt_args(I, new, a), g(x, a)))))))
        return out

    def raises(self, I, c, ex):
        s = c["s"]
        want = {"ValueError": s.stages(c["n"]), "TypeError": self.bad(I, c)}
        return [("only for a repeated stage or a marker output", want.get(ex.name, T(False)))] + s.unchanged(I)


class Mutating(Conf):
    qual = M + ":StageBuilder._get_mutating_stages"
    name = "_get_mutating_stages"

    def setup(self, I):
        s = St(I)
        return dict(self=s.self), dict(s=s)

    def ensures(self, I, c, res):
        s, e = c["s"], I.e
        m = e.get(res)
        x, a, b = z3.Const("x!e", STAGE), z3.Const("a!e", s.ARG), z3.Const("b!e", s.ARG)
        return [("exactly the stages with an argument both read and written",
                 forall([x], m.dom(x) == And(s.stages(x), z3.Exists([a], s.mut(x, a))))),
                ("each with exactly its rewritten arguments",
                 forall([x, a], Implies(And(s.stages(x), s.mut(x, b)), e.get(m.get(x)).mem(a) == s.mut(x, a)))),
                ] + s.unchanged(I)

    def apply(self, I, f, v, node):
        s = find_state(I, v["self"])
        a = I.e.generic("m", s.ARG)
        return I.e.alloc(MapC(ET_STAGE, lambda x: And(s.stages(x), z3.Exists([a], s.mut(x, a))),
                              lambda x: I.e.alloc(SetC(s.aet, lambda y: s.mut(x, y)))))


def find_state(I, ref):
    """The builder's current state as an St."""
    e = I.e
    f = e.get(ref).fields
    s = St.__new__(St)
    s.I, s.aet = I, arg_et(I)
    s.ARG = I.et_sort(s.aet)
    s.RB, s.RA = [repo_cls(I, "instancespace.stages.stage", n) for n in ("RunBefore", "RunAfter")]
    st, i, o = [e.get(f[k]) for k in ("_stages", "_stage_inputs", "_stage_outputs")]
    ab = getattr(I, "abstract_rel", None)
    if ab is not None and ab[0].self == ref and all(x is y for x, y in zip((st, i, o), ab[1])):
        return ab[0]      # untouched: its relations can stay abstract
    s.stages = st.mem
    s.sin = lambda x, a: e.get(i.get(x)).mem(a)
    s.sout = lambda x, a: e.get(o.get(x)).mem(a)
    s.self = ref
    return s


class Ordering(Conf):
    qual = M + ":StageBuilder._get_ordering_restrictions"
    name = "_get_ordering_restrictions"
    uses = ("is_run_restriction",)

    def setup(self, I):
        s = St(I)
        return dict(self=s.self), dict(s=s)

    def spec(self, I, s):
        p = I.et_sort(pair_et(I))

        def acc(r, q):
            return r.arg(q) if z3.is_app(r) and r.decl().eq(p.constructor(0)) else p.accessor(0, q)(r)
        return lambda r: s.restr(acc(r, 0), acc(r, 1))

    def ensures(self, I, c, res):
        s = c["s"]
        return [("exactly the orders the markers ask for", set_eq(I, res, pair_et(I), self.spec(I, s)))] + s.unchanged(I)

    def apply(self, I, f, v, node):
        return I.e.alloc(SetC(pair_et(I), self.spec(I, find_state(I, v["self"]))))


class StageRestr(Conf):
    qual = M + ":StageBuilder._get_restrictions_for_stage"
    name = "_get_restrictions_for_stage"

    def setup(self, I):
        et = pair_et(I)
        f = z3.Function("pairs", I.et_sort(et), B)
        x = z3.Const("x", STAGE)
        r = I.e.alloc(SetC(et, lambda p: f(p)))
        return dict(ordering_restrictions=r, stage=SU(x)), dict(f=f, x=x, r=r)

    def spec(self, I, f, x):
        mk = I.et_sort(pair_et(I)).mk
        return (lambda y: f(mk(x, y))), (lambda y: f(mk(y, x)))

    def ensures(self, I, c, res):
        b, a = self.spec(I, c["f"], c["x"])
        return [("run_before: the stages it must precede", set_eq(I, res.fields["run_before"], ET_STAGE, b)),
                ("run_after: the stages it must follow", set_eq(I, res.fields["run_after"], ET_STAGE, a)),
                ("the restrictions are not modified", set_eq(I, c["r"], pair_et(I), c["f"]))]

    def apply(self, I, f, v, node):
        b, a = self.spec(I, I.content(v["ordering_restrictions"]).mem, v["stage"].t)
        return RecV(repo_cls(I, M, "_StageRestrictions"), {"run_before": I.e.alloc(SetC(ET_STAGE, b)),
                                                          "run_after": I.e.alloc(SetC(ET_STAGE, a))})


class Resolves(Conf):
    qual = M + ":StageBuilder._stage_resolves"
    name = "_stage_resolves"
    uses = ("_strip_run_restriction_arguments", "_get_restrictions_for_stage")

    def setup(self, I):
        s = St(I)
        x = z3.Const("x", STAGE)
        I.e.assume(s.stages(x))
        res, av = z3.Function("resolved", STAGE, B), z3.Function("avail", s.ARG, B)
        pr = z3.Function("pairs", I.et_sort(pair_et(I)), B)
        al = I.e.alloc
        rs = [al(SetC(ET_STAGE, lambda y: res(y))), al(SetC(s.aet, lambda a: av(a))), al(SetC(pair_et(I), lambda p: pr(p)))]
        return dict(self=s.self, stage=SU(x), resolved_stages=rs[0], available_inputs=rs[1],
                    ordering_restrictions=rs[2]), dict(s=s, x=x, res=res, av=av, pr=pr, rs=rs)

    def spec(self, I, s, x, res, av, pr):
        a, b = I.e.generic("a", s.ARG), I.e.generic("b", STAGE)
        mk = I.et_sort(pair_et(I)).mk
        return And(forall([a], Implies(s.needs(x, a), av(a))), forall([b], Implies(pr(mk(b, x)), res(b))))

    def ensures(self, I, c, r):
        s = c["s"]
        return [("ready exactly when all needed data are available and all predecessors placed",
                 I.tb(I.truth_t(r)) == self.spec(I, s, c["x"], c["res"], c["av"], c["pr"])),
                ("resolved stages not modified", set_eq(I, c["rs"][0], ET_STAGE, c["res"])),
                ("available inputs not modified", set_eq(I, c["rs"][1], s.aet, c["av"])),
                ("restrictions not modified", set_eq(I, c["rs"][2], pair_et(I), c["pr"]))] + s.unchanged(I)

    def apply(self, I, f, v, node):
        s = find_state(I, v["self"])
        mem = lambda k, et: (lambda c: c.mem if c.et is not None else (lambda x: FALSE))(I.content(v[k]))
        return mkbool(self.spec(I, s, v["stage"].t, mem("resolved_stages", 0), mem("available_inputs", 0),
                                mem("ordering_restrictions", 0)))


class MutCheck(Conf):
    qual = M + ":StageBuilder._mutating_stages_check"
    name = "_mutating_stages_check"

    def setup(self, I):
        s = St(I)
        C = z3.Function("can", STAGE, B)
        md = z3.Function("mdom", STAGE, B)
        mm = z3.Function("mset", STAGE, s.ARG, B)
        x = z3.Const("x!p", STAGE)
        I.e.assume(forall([x], Implies(C(x), s.stages(x))))
        rc = I.e.alloc(SetC(ET_STAGE, lambda x: C(x)))
        rm = I.e.alloc(MapC(ET_STAGE, lambda x: md(x), lambda x: I.e.alloc(SetC(s.aet, lambda a: mm(x, a)))))
        return dict(self=s.self, stages_can_run=rc, mutating_stages=rm), dict(s=s, C=C, md=md, mm=mm, rc=rc, rm=rm)

    def conflict(self, I, s, C, md, mm):
        x, y, a = I.e.generic("x", STAGE), I.e.generic("y", STAGE), I.e.generic("a", s.ARG)
        return z3.Exists([x, y, a], And(C(x), C(y), x != y, md(x), md(y), mm(x, a), mm(y, a)))

    def keep(self, I, s, C, md, mm):
        def f(x):
            y, a = I.e.generic("y", STAGE), I.e.generic("a", s.ARG)
            return And(C(x), forall([y, a], Implies(And(C(y), md(y), mm(y, a), s.sin(x, a)), And(md(x), mm(x, a)))))
        return f

    def ensures(self, I, c, res):
        a5 = (c["s"], c["C"], c["md"], c["mm"])
        e, s = I.e, c["s"]
        x, a = z3.Const("x!e", STAGE), z3.Const("a!e", s.ARG)
        m = e.get(c["rm"])
        return [("no two ready stages rewrite the same argument", Not(self.conflict(I, *a5))),
                ("exactly the ready stages which read nothing that another one rewrites",
                 set_eq(I, res, ET_STAGE, self.keep(I, *a5))),
                ("ready stages not modified", set_eq(I, c["rc"], ET_STAGE, c["C"])),
                ("rewritten arguments not modified", And(forall([x], m.dom(x) == c["md"](x)), forall(
                    [x, a], Implies(c["md"](x), e.get(m.get(x)).mem(a) == c["mm"](x, a)))))] + s.unchanged(I)

    def raises(self, I, c, ex):
        return [("only when two ready stages rewrite the same argument",
                 And(T(ex.name == "StageResolutionError"), self.conflict(I, c["s"], c["C"], c["md"], c["mm"])))] + c["s"].unchanged(I)

    def apply(self, I, f, v, node):
        s = find_state(I, v["self"])
        C, m = I.content(v["stages_can_run"]), I.content(v["mutating_stages"])
        Cm = C.mem if C.et is not None else (lambda x: FALSE)
        mm = lambda x, a: I.e.get(m.get(x)).mem(a)
        sp, k = getattr(I, "spec", None), getattr(I, "ghost_k", None)
        x, y, a = *z3.Consts("x!mq y!mq", STAGE), z3.Const("a!mq", s.ARG)
        cut = False
        if sp is not None and k is not None and sp.s is s:
            cut = lemma(I, "the stages found ready are those of the specification", forall([x], Cm(x) == sp.ready(k, x)), node)
            if cut:
                Cm = lambda x: sp.ready(k, x)
                cut = lemma(I, "the mutating stages are those of the specification", forall([x, a], And(
                    (And(m.dom(x), mm(x, a))) == And(s.stages(x), s.mut(x, a)))), node)
        conf = sp.mutconf(k) if cut else self.conflict(I, s, Cm, m.dom, mm)
        if cut:
            lemma(I, "ambiguity as specified", self.conflict(I, s, Cm, m.dom, mm) == conf, node)
        if I.e.branch(conf):
            raise PyRaise(repo_cls(I, M, "StageResolutionError"), None, node)
        keep = self.keep(I, s, Cm, m.dom, mm)
        if cut and lemma(I, "the stages kept are those of the specification", forall([x], keep(x) == sp.S(k, x)), node):
            return I.e.alloc(SetC(ET_STAGE, lambda x: sp.S(k, x)))
        return I.e.alloc(SetC(ET_STAGE, keep))


def lemma(I, label, goal, node, ms=4000):
    """Proves an intermediate fact; when it does not hold the proof goes on without it."""
    e = I.e
    facts = e.relevant_axioms([f.t for f in e.pc] + [goal]) + e.literal_axioms() + [f.t for f in e.pc]
    from pyvc.loops import prove
    if not prove(e, facts, goal, ms):
        return False
    e.oblige("lemma: " + label, goal, node, kind="lemma")
    e.assume(goal)
    return True


# ------------------------------------------------------------------ the schedule
INT = z3.IntSort()


class Spec:
    """R, S, Ready and the conflicts as functions of the stages, their arguments and the initial inputs."""

    def __init__(self, I, s, init):
        self.I, self.s, self.init = I, s, init
        F = lambda n, *a: z3.Function("spec_" + n, *a)
        self.R, self.S, self.ready = F("R", INT, STAGE, B), F("S", INT, STAGE, B), F("ready", INT, STAGE, B)
        i, x, y, b, a = z3.Int("i!sp"), *z3.Consts("x!sp y!sp b!sp", STAGE), z3.Const("a!sp", s.ARG)
        R, S, ready = self.R, self.S, self.ready
        e = I.e
        e.axiom(forall([x], Not(R(z3.IntVal(0), x))), {"spec_R"})
        e.axiom(z3.ForAll([i, x], Implies(i >= 0, R(i + 1, x) == Or(R(i, x), S(i, x))), patterns=[S(i, x)]), {"spec_R"})
        e.axiom(z3.ForAll([i, x], Implies(i >= 0, ready(i, x) == And(
            s.stages(x), Not(R(i, x)), forall([a], Implies(s.needs(x, a), self.avail(i, a))),
            forall([b], Implies(s.restr(b, x), R(i, b))))), patterns=[ready(i, x)]), {"spec_ready"})
        e.axiom(z3.ForAll([i, x], Implies(i >= 0, S(i, x) == And(
            ready(i, x), forall([y, a], Implies(And(ready(i, y), s.mut(y, a), s.sin(x, a)), s.mut(x, a))))),
            patterns=[S(i, x)]), {"spec_S"})
        # named predicates with witnesses: they keep the invariants free of nested quantifiers
        self.NE, self.MC, self.OC, self.LF = [F(n, INT, B) for n in ("nonempty", "mutconf", "outconf", "left")]
        w = lambda n, so: z3.Function("wit_" + n, INT, so)
        wn, wl = w("n", STAGE), w("l", STAGE)
        mx, my, ma, ox, oy, oa = w("mx", STAGE), w("my", STAGE), w("ma", s.ARG), w("ox", STAGE), w("oy", STAGE), w("oa", s.ARG)
        MB = lambda i, x, y, a: And(x != y, ready(i, x), ready(i, y), s.mut(x, a), s.mut(y, a))
        OB = lambda i, x, y, a: And(x != y, S(i, x), S(i, y), s.sout(x, a), s.sout(y, a))
        e.axiom(z3.ForAll([i, x], Implies(S(i, x), self.NE(i)), patterns=[S(i, x)]), {"spec_nonempty"})
        e.axiom(z3.ForAll([i], Implies(self.NE(i), S(i, wn(i))), patterns=[self.NE(i)]), {"spec_nonempty"})
        e.axiom(z3.ForAll([i, x], Implies(And(s.stages(x), Not(R(i, x))), self.LF(i)), patterns=[R(i, x)]), {"spec_left"})
        e.axiom(z3.ForAll([i], Implies(self.LF(i), And(s.stages(wl(i)), Not(R(i, wl(i))))), patterns=[self.LF(i)]), {"spec_left"})
        e.axiom(z3.ForAll([i, x, y, a], Implies(MB(i, x, y, a), self.MC(i)), patterns=[
            z3.MultiPattern(ready(i, x), ready(i, y), s.sin(x, a), s.sin(y, a))]), {"spec_mutconf"})
        e.axiom(z3.ForAll([i], Implies(self.MC(i), MB(i, mx(i), my(i), ma(i))), patterns=[self.MC(i)]), {"spec_mutconf"})
        e.axiom(z3.ForAll([i, x, y, a], Implies(OB(i, x, y, a), self.OC(i)), patterns=[
            z3.MultiPattern(S(i, x), S(i, y), s.sout(x, a), s.sout(y, a))]), {"spec_outconf"})
        e.axiom(z3.ForAll([i], Implies(self.OC(i), OB(i, ox(i), oy(i), oa(i))), patterns=[self.OC(i)]), {"spec_outconf"})

    def unfold(self, k):
        """Instances of the definitions at k."""
        s, R, S, ready, e = self.s, self.R, self.S, self.ready, self.I.e
        x, y, b, a = *z3.Consts("x!uf y!uf b!uf", STAGE), z3.Const("a!uf", s.ARG)
        e.assume(z3.ForAll([x], R(k + 1, x) == Or(R(k, x), S(k, x)), patterns=[R(k + 1, x), S(k, x)]))
        e.assume(z3.ForAll([x], Implies(k >= 1, R(k, x) == Or(R(k - 1, x), S(k - 1, x))), patterns=[R(k - 1, x), S(k - 1, x)]))

    def avail(self, i, a):
        y = z3.Const("y!av", STAGE)
        return Or(self.init(a), z3.Exists([y], And(self.R(i, y), self.s.sout(y, a))))

    def mutconf(self, i):
        return self.MC(i)

    def outconf(self, i):
        return self.OC(i)

    def nonempty(self, i):
        return self.NE(i)

    def left(self, i):
        return self.LF(i)

    def facts(self, k):
        """What the first k steps satisfy (proved by induction over the loop)."""
        s, R, S = self.s, self.R, self.S
        i, j, x, y, a = *z3.Ints("i!f j!f"), *z3.Consts("x!f y!f", STAGE), z3.Const("a!f", s.ARG)
        step = lambda i: And(0 <= i, i < k)
        return [
            ("a placed stage is in some earlier step", forall([i, y], Implies(And(0 <= i, i <= k, R(i, y)),
                                                     z3.Exists([j], And(0 <= j, j < i, S(j, y)))))),
            ("stages of a step count as placed", forall([i, x], Implies(And(step(i), S(i, x)), R(k, x)))),
            ("a stage is in one step only", forall([i, j, x], Implies(And(step(i), step(j), S(i, x), S(j, x)), i == j))),
            ("needed data come from earlier steps or the initial inputs", forall([i, x, a], Implies(
                And(step(i), S(i, x), s.needs(x, a)),
                Or(self.init(a), z3.Exists([j, y], And(0 <= j, j < i, S(j, y), s.sout(y, a))))))),
            ("markers hold: predecessors are in strictly earlier steps", forall([i, x, y], Implies(
                And(step(i), S(i, x), s.restr(y, x)), z3.Exists([j], And(0 <= j, j < i, S(j, y)))))),
            ("stages of one step share no output", forall([i], Implies(step(i), Not(self.outconf(i))))),
            ("stages which become ready together rewrite no common argument", forall([i], Implies(step(i), Not(self.mutconf(i))))),
            ("no stage reads what another stage of its step rewrites", forall([i, x, y, a], Implies(
                And(step(i), S(i, x), S(i, y), x != y, s.mut(y, a)), Not(s.sin(x, a))))),
        ]


def steps_seq(I, n, S):
    """A list of n lists, the i-th enumerating {x | S(i, x)} without repetition."""
    ln, at, pos = I.e.func("len", [INT], INT), I.e.func("at", [INT, INT], STAGE), I.e.func("pos", [INT, STAGE], INT)
    i, j, x = *z3.Ints("i!q j!q"), z3.Const("x!q", STAGE)
    I.e.assume(forall([i], ln(i) >= 0))
    I.e.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < ln(i)), And(S(i, at(i, j)), pos(i, at(i, j)) == j)),
                         patterns=[at(i, j)]))
    I.e.assume(z3.ForAll([i, x], Implies(And(0 <= i, i < n, S(i, x)), And(0 <= pos(i, x), pos(i, x) < ln(i),
                                                                       at(i, pos(i, x)) == x)), patterns=[pos(i, x)]))
    return SeqC(n, lambda i: I.e.alloc(SeqC(ln(i), lambda j: SU(at(i, j)), ET_STAGE, memset=lambda x: S(i, x))))


def roles(I, frame):
    """The loop's variables by what they hold when the loop is entered."""
    e, out = I.e, {}
    for nm, v in frame.vars.items():
        c = I.content(v)
        from pyvc.sym import ListC
        if v is None:
            r = "prev"
        elif isinstance(c, ListC) and not c.items:
            r = "order"
        elif isinstance(c, SetC) and c.et is None:
            r = "res"
        elif isinstance(c, SetC) and c.et[0] == "rec" and c.et == arg_et(I) and nm != "initial_input_annotations":
            r = "avail"
        else:
            continue
        if r in out:
            raise Unsupported("loop variables of _resolve_stages")
        out[r] = nm
    if set(out) != {"prev", "order", "res", "avail"}:
        raise Unsupported("loop variables of _resolve_stages")
    return out


class Resolve(Conf):
    qual = M + ":StageBuilder._resolve_stages"
    name = "_resolve_stages"
    uses = ("is_run_restriction", "_strip_run_restriction_arguments", "_get_mutating_stages",
            "_get_ordering_restrictions", "_stage_resolves", "_mutating_stages_check")
    budget_s = 300
    timeout_ms = 15000

    def configure(self, I):
        super().configure(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def setup(self, I):
        s = St(I)
        init = z3.Function("init", s.ARG, B)
        r = I.e.alloc(SetC(s.aet, lambda a: init(a)))
        s.abstract = (z3.Function("needs", STAGE, s.ARG, B), z3.Function("before", STAGE, STAGE, B))
        I.abstract_rel = (s, [I.e.get(r) for r in (s.r_stages, s.r_in, s.r_out)])
        I.spec = Spec(I, s, init)
        I.ghost_k = None
        return dict(self=s.self, initial_input_annotations=r), dict(s=s, init=init, r=r)

    # -------- loop
    def modifies(self, I, entry, vars0):
        ro = I.roles
        return {ro["prev"]} | {n for n in vars0 if n not in entry.vars}, {entry.vars[ro[k]].loc for k in ("order", "res", "avail")}

    def havoc(self, I, frame, k, entry):
        sp, e, ro = I.spec, I.e, I.roles
        I.ghost_k = k
        v = entry.vars
        e.assume(k >= 0)
        sp.unfold(k)
        e.heap[v[ro["res"]].loc] = SetC(ET_STAGE, lambda x: sp.R(k, x))
        e.heap[v[ro["avail"]].loc] = SetC(sp.s.aet, lambda a: sp.avail(k, a))
        e.heap[v[ro["order"]].loc] = steps_seq(I, k, sp.S)
        if e.branch(k == 0):
            frame.vars[ro["prev"]] = None
        else:
            frame.vars[ro["prev"]] = e.alloc(SetC(ET_STAGE, lambda x: sp.R(k - 1, x)))
            x = z3.Const("x!hv", STAGE)
            lemma(I, "the last step was empty or placed something", z3.Exists([x], And(sp.R(k, x), Not(sp.R(k - 1, x)))) == sp.NE(k - 1), None)

    def inv(self, I, frame, k, entry):
        sp, e, s = I.spec, I.e, I.spec.s
        first = isinstance(k, z3.IntNumRef) and k.as_long() == 0
        if first:
            I.roles = roles(I, frame)
        v = frame.vars
        ro = I.roles
        i, x, a = z3.Int("i!v"), z3.Const("x!v", STAGE), z3.Const("a!v", s.ARG)
        mem = lambda r: (lambda c: (lambda y: FALSE) if c.et is None else c.mem)(I.content(v[ro[r]]))
        order = I.seq_of(I.content(v[ro["order"]]))
        out = [("resolved stages", forall([x], mem("res")(x) == sp.R(k, x))),
               ("available inputs", forall([a], mem("avail")(a) == sp.avail(k, a))),
               ("number of steps", order.n == k)]
        if not first:
            e.spec_mode += 1
            try:
                st = order.get(i)
                m = I.contains_t(st, SU(x), None)
                p1, p2 = z3.Ints("p1!v p2!v")
                c = I.seq_of(I.content(st))
                once = Implies(And(0 <= i, i < k, 0 <= p1, p1 < c.n, 0 <= p2, p2 < c.n, c.get(p1).t == c.get(p2).t), p1 == p2)
            finally:
                e.spec_mode -= 1
            out.append(("steps", forall([i, x], Implies(And(0 <= i, i < k), m == sp.S(i, x)))))
            out.append(("no stage twice in a step", forall([i, p1, p2], once)))
            p = v[ro["prev"]]
            if p is None:
                out.append(("previously resolved", k == 0))
            else:
                pm = I.content(p)
                pm = (lambda y: FALSE) if pm.et is None else pm.mem
                out.append(("previously resolved", And(k >= 1, forall([x], pm(x) == sp.R(k - 1, x)))))
        out += sp.facts(k)
        out.append(("steps before the last are not empty", forall([i], Implies(And(0 <= i, i < k - 1), sp.nonempty(i)))))
        out.append(("something was left to place before every step", forall([i], Implies(And(0 <= i, i < k), sp.left(i)))))
        out += s.unchanged(I)
        out.append(("initial inputs not modified", set_eq(I, entry.vars["initial_input_annotations"], s.aet, sp.init)))
        return out

    # -------- result
    def ensures(self, I, c, res):
        sp, s, e = I.spec, c["s"], I.e
        order = I.seq_of(I.content(res))
        i, x = z3.Int("i!e"), z3.Const("x!e", STAGE)
        m = I.contains_t(order.get(i), SU(x), None)
        n = order.n
        p1, p2 = z3.Ints("p1!e p2!e")
        cc = I.seq_of(I.content(order.get(i)))
        once = Implies(And(0 <= i, i < n, 0 <= p1, p1 < cc.n, 0 <= p2, p2 < cc.n, cc.get(p1).t == cc.get(p2).t), p1 == p2)
        return [("the steps are S(0), S(1), ...: a function of the sets alone", forall([i, x], Implies(And(0 <= i, i < n), m == sp.S(i, x)))),
                ("no stage occurs twice in a step", forall([i, p1, p2], once)),
                ("every added stage is in the schedule", forall([x], Implies(s.stages(x), z3.Exists([i], And(0 <= i, i < n, sp.S(i, x)))))),
                ("nothing else is in the schedule", forall([i, x], Implies(And(0 <= i, i < n, sp.S(i, x)), s.stages(x)))),
                ("no step is empty", forall([i], Implies(And(0 <= i, i < n), sp.nonempty(i)))),
                ] + sp.facts(n) + s.unchanged(I) + [("initial inputs not modified", set_eq(I, c["r"], s.aet, c["init"]))]

    def raises(self, I, c, ex):
        sp, s = I.spec, c["s"]
        k = I.ghost_k
        if k is None:
            return [("no failure before the first step", T(False))]
        i = z3.Int("i!r")
        stuck = lambda k: Or(sp.mutconf(k), sp.outconf(k), And(Not(sp.nonempty(k)), sp.left(k)))
        return [("it is a resolution error", T(ex.name == "StageResolutionError")),
                ("the steps before are not ambiguous", forall([i], Implies(And(0 <= i, i < k), And(Not(sp.mutconf(i)), Not(sp.outconf(i)))))),
                ("the steps before the last are not empty", forall([i], Implies(And(0 <= i, i < k - 1), sp.nonempty(i)))),
                ("only when a step is ambiguous, or nothing can be placed and something is left",
                 Or(And(stuck(k), Or(k == 0, sp.nonempty(k - 1))), And(k >= 1, stuck(k - 1)))),
                ] + s.unchanged(I) + [("initial inputs not modified", set_eq(I, c["r"], s.aet, c["init"]))]

    def apply(self, I, f, v, node):
        e = I.e
        s = find_state(I, v["self"])
        c = I.content(v["initial_input_annotations"])
        init = c.mem if c.et is not None else (lambda a: FALSE)
        I.spec = sp = Spec(I, s, init)
        k, n = e.const("failed_at", INT), e.const("n_steps", INT)
        e.assume(And(k >= 0, n >= 0))
        i, x = z3.Int("i!ra"), z3.Const("x!ra", STAGE)
        I.stuck_at = None
        if e.branch(e.const("unresolvable", B)):
            I.stuck_at = k
            e.assume(Or(sp.mutconf(k), sp.outconf(k), And(Not(sp.nonempty(k)), sp.left(k))))
            raise PyRaise(repo_cls(I, M, "StageResolutionError"), None, node)
        for _, t in sp.facts(n):
            e.assume(t)
        e.assume(forall([x], Implies(s.stages(x), z3.Exists([i], And(0 <= i, i < n, sp.S(i, x))))))
        e.assume(forall([i, x], Implies(And(0 <= i, i < n, sp.S(i, x)), s.stages(x))))
        e.assume(forall([i], Implies(And(0 <= i, i < n), sp.nonempty(i))))
        seq = steps_seq(I, n, sp.S)
        # a list which enumerates a set that is not empty is not empty
        e.assume(forall([i], Implies(And(0 <= i, i < n), I.seq_of(I.content(seq.get(i))).n >= 1)))
        return e.alloc(seq)


class RunnerInit(Contract):
    """StageRunner.__init__ as a caller sees it (proved in contracts/runner.py)."""
    qual = "instancespace.stage_runner:StageRunner.__init__"
    name = "StageRunner.__init__"

    def apply(self, I, f, v, node):
        e = I.e
        q = I.seq_of(I.content(v["stages"]))
        steps = lambda i: I.seq_of(I.content(q.get(i)))
        i, j, k, l = z3.Ints("i!in j!in k!in l!in")
        x, y = z3.Consts("x!in y!in", STAGE)
        ci, co, cs = [e.get(v[n]) for n in ("input_arguments", "output_arguments", "initial_input_annotations")]
        a = z3.Const("a!in", I.et_sort(arg_et(I)))
        init = cs.mem if cs.et is not None else (lambda a: FALSE)
        rng = lambda i, p: And(0 <= i, i < q.n, 0 <= p, p < steps(i).n)
        mem = lambda i, x: And(0 <= i, i < q.n, I.contains_t(q.get(i), SU(x), None))
        ob = lambda lab, t: e.oblige("StageRunner.__init__: " + lab, t, node, "call")
        ob("no step is empty", forall([i], Implies(And(0 <= i, i < q.n), steps(i).n >= 1)))
        ob("no stage is given twice", forall([i, j, k, l], Implies(
            And(rng(i, k), rng(j, l), steps(i).get(k).t == steps(j).get(l).t), And(i == j, k == l))))
        ob("inputs and outputs of every stage are given", forall([i, x], Implies(mem(i, x), And(ci.dom(x), co.dom(x)))))
        inp, out = (lambda x, a: e.get(ci.get(x)).mem(a)), (lambda x, a: e.get(co.get(x)).mem(a))
        missing = z3.Exists([i, x, a], And(mem(i, x), inp(x, a), Not(Or(init(a), z3.Exists(
            [j, y], And(mem(j, y), j < i, out(y, a)))))))
        if e.branch(missing):
            raise PyRaise(repo_cls(I, "instancespace.stage_runner", "StageRunningError"), None, node)
        c = e.get(v["self"])
        e.heap[v["self"].loc] = ObjC(c.cls, {"_stage_order": v["stages"]})
        return None


class Build(Conf):
    qual = M + ":StageBuilder.build"
    name = "build"
    uses = ("_resolve_stages", "_strip_run_restriction_arguments", "_named_tuple_to_stage_arguments", "is_run_restriction",
            "StageRunner.__init__")

    def configure(self, I):
        super().configure(I)
        I.sort_method[("NT", "__isinstance__")] = lambda I, t, a, kw: FALSE

    def setup(self, I):
        s, e = St(I), I.e
        if e.branch(z3.Bool("initial_inputs_are_a_set")):
            init = z3.Function("init", s.ARG, B)
            r = e.alloc(SetC(s.aet, lambda a: init(a)))
            return dict(self=s.self, initial_input_arguments=r), dict(s=s, init=init, r=r)
        t = z3.Const("initial", NT)
        return dict(self=s.self, initial_input_arguments=SU(t)), dict(s=s, init=lambda a: nt_args(I, t, a), r=None)

    def keep(self, I, c):
        out = c["s"].unchanged(I)
        if c["r"] is not None:
            out.append(("initial inputs not modified", set_eq(I, c["r"], c["s"].aet, c["init"])))
        return out

    def ensures(self, I, c, res):
        e, s, sp = I.e, c["s"], I.spec
        o = e.get(res)
        if not (isinstance(o, ObjC) and o.cls.name == "StageRunner" and "_stage_order" in o.fields):
            raise Unsupported("what build returns")
        q = I.seq_of(I.content(o.fields["_stage_order"]))
        i, j, x, y, a = *z3.Ints("i!b j!b"), *z3.Consts("x!b y!b", STAGE), z3.Const("a!b", s.ARG)
        mem = lambda i, x: And(0 <= i, i < q.n, I.contains_t(q.get(i), SU(x), None))
        steps = lambda i: I.seq_of(I.content(q.get(i)))
        p1, p2 = z3.Ints("p1!b p2!b")
        return [("every added stage is in the schedule of the runner", forall([x], Implies(s.stages(x), z3.Exists([i], mem(i, x))))),
                ("nothing else is", forall([i, x], Implies(mem(i, x), s.stages(x)))),
                ("in one step only", forall([i, j, x], Implies(And(mem(i, x), mem(j, x)), i == j))),
                ("and there once", forall([i, p1, p2], Implies(And(0 <= i, i < q.n, 0 <= p1, p1 < steps(i).n, 0 <= p2, p2 < steps(i).n,
                                                                  steps(i).get(p1).t == steps(i).get(p2).t), p1 == p2))),
                ("every data input is initial or the output of a strictly earlier step", forall([i, x, a], Implies(
                    And(mem(i, x), s.needs(x, a)), Or(c["init"](a), z3.Exists([j, y], And(mem(j, y), j < i, s.sout(y, a))))))),
                ("predecessors are in strictly earlier steps", forall([i, x, y], Implies(
                    And(mem(i, x), s.restr(y, x)), z3.Exists([j], And(mem(j, y), j < i))))),
                ("the stages of a step share no output", forall([i, x, y, a], Implies(
                    And(mem(i, x), mem(i, y), x != y, s.sout(x, a)), Not(s.sout(y, a))))),
                ("no stage reads what another stage of its step rewrites", forall([i, x, y, a], Implies(
                    And(mem(i, x), mem(i, y), x != y, s.mut(y, a)), Not(s.sin(x, a))))),
                ] + self.keep(I, c)

    def raises(self, I, c, ex):
        k, sp = I.stuck_at, I.spec
        if k is None:
            return [("the schedule found is never refused", T(False))]
        return [("it is a resolution error", T(ex.name == "StageResolutionError")),
                ("only when a step is ambiguous, or nothing can be placed and something is left",
                 Or(sp.mutconf(k), sp.outconf(k), And(Not(sp.nonempty(k)), sp.left(k))))] + self.keep(I, c)


ALL = [Resolve(), IsRestriction(), Strip(), NamedTupleArgs(), AddStage(), Mutating(), Ordering(), StageRestr(), Resolves(), MutCheck(),
       RunnerInit(), Build()]
