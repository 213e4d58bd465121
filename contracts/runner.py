"""Contracts of the stage runner (C05 - C09).

Ghost state: a counter `gc` of executed stages and the functions ran_at(c), in_*(c, name), out(c, name)
which record the c-th execution.  Values carry the step of the stage which produced them
(`step_of`; -1 for initial values), so that "nothing produced by a later step is visible" is an
invariant over the stored values.
"""
import z3

from contracts.builder import (NT, PYT, STAGE, STR, ET_STAGE, ET_STR, ET_PYT, arg_et, marker, repo_cls, typing_model)
from pyvc.engine import usort
from pyvc.loops import LoopInv
from pyvc.sym import (FALSE, TRUE, And, DictC, Implies, LibV, MapC, Not, ObjC, Opaque, Or, PyFn, PyRaise, RecV, Ref, SBool,
                      SeqC, SetC, SInt, SU, T, Unsupported, int_t, mkbool)
from pyvc.verify import Contract, forall

M = "instancespace.stage_runner"
VAL, INST = usort("Val"), usort("Inst")
ET_VAL = ("u", "Val", VAL)
B, INT = z3.BoolSort(), z3.IntSort()
F = z3.Function

inputs_of, outputs_of = F("inputs_of", STAGE, NT), F("outputs_of", STAGE, NT)
ann_dom, ann_type = F("ann_dom", NT, STR, B), F("ann_type", NT, STR, PYT)
ran_at = F("ran_at", INT, STAGE)
in_dom, in_val = F("in_dom", INT, STR, B), F("in_val", INT, STR, VAL)      # what the c-th execution was given
OUTS = usort("Out")
out_rec, od, ov = F("out_rec", INT, OUTS), F("od", OUTS, STR, B), F("ov", OUTS, STR, VAL)


def out_val(c, n):
    """What the c-th execution returned under the name n."""
    return ov(out_rec(c), n)


step_of = F("step_of", VAL, INT)
NONE = z3.Const("None!val", VAL)      # replaced by the literal None in model()
is_marker = F("is_marker", PYT, B)


class Tup:
    """A NamedTuple value: its fields as a map; `own` when no one else holds its contents."""

    def __init__(self, dom, val, own=False):
        self.dom, self.val, self.own = dom, val, own


def out_dom(c, n):
    return ann_dom(outputs_of(ran_at(c)), n)


class Sched:
    """An arbitrary well-formed schedule: N non-empty steps, no stage twice."""

    def __init__(self, I):
        self.I = I
        self.N = z3.Int("N")
        self.ln, self.at = F("ln", INT, INT), F("at", INT, INT, STAGE)
        self.idx, self.pos, self.inn = F("idx", STAGE, INT), F("pos", STAGE, INT), F("insched", STAGE, B)
        e, i, j, x = I.e, *z3.Ints("i!s j!s"), z3.Const("x!s", STAGE)
        rng = And(0 <= i, i < self.N, 0 <= j, j < self.ln(i))
        e.assume(self.N >= 0)
        e.assume(z3.ForAll([i], self.ln(i) >= 1, patterns=[self.ln(i)]))
        e.assume(z3.ForAll([i, j], Implies(rng, And(self.inn(self.at(i, j)), self.idx(self.at(i, j)) == i,
                                                   self.pos(self.at(i, j)) == j)), patterns=[self.at(i, j)]))
        e.assume(z3.ForAll([x], Implies(self.inn(x), And(0 <= self.idx(x), self.idx(x) < self.N, 0 <= self.pos(x),
                                                        self.pos(x) < self.ln(self.idx(x)),
                                                        self.at(self.idx(x), self.pos(x)) == x)), patterns=[self.inn(x)]))

    def hint(self, i):
        """The first stage of step i (an instance of the schedule's well-formedness)."""
        self.known(i, z3.IntVal(0))

    def known(self, i, j):
        """The stage at a position (an instance of the schedule's well-formedness)."""
        x = self.at(i, j)
        self.I.e.assume(And(self.ln(i) >= 1, Implies(And(0 <= i, i < self.N, 0 <= j, j < self.ln(i)), And(self.inn(x), self.idx(x) == i, self.pos(x) == j))))

    def step(self, i):
        return SeqC(self.ln(i), lambda j: SU(self.at(i, j)), ET_STAGE, memset=lambda x: And(self.inn(x), self.idx(x) == i))

    def seq(self):
        return SeqC(self.N, lambda i: self.I.e.alloc(self.step(i)))


class RS:
    """State of a runner, as terms."""

    def __init__(self, cur, n, sd, sv, ad, av, fl):
        self.cur, self.n, self.sd, self.sv, self.ad, self.av, self.fl = cur, n, sd, sv, ad, av, fl


def fresh_state(I, tag):
    f = lambda nm, *s: I.e.func(nm + tag, list(s[:-1]), s[-1])
    return RS(I.e.const("cur" + tag, INT), I.e.const("nsaved" + tag, INT), f("sd", INT, STR, B), f("sv", INT, STR, VAL),
              f("ad", STR, B), f("av", STR, VAL), f("fl", STAGE, B))


def contents(I, s):
    """The heap objects of a state: saved, available, flags."""
    e = I.e
    return (SeqC(s.n, lambda k: e.alloc(MapC(ET_STR, lambda x: s.sd(k, x), lambda x: SU(s.sv(k, x))))),
            MapC(ET_STR, lambda x: s.ad(x), lambda x: SU(s.av(x))),
            MapC(ET_STAGE, lambda x: TRUE, lambda x: SBool(s.fl(x)), PyFn("lambda", lambda I, a, k: False)))


FIELDS = ("_schedule_output_data", "_available_arguments", "_stages_ran")


def alloc_runner(I, sc, s):
    e = I.e
    cs = contents(I, s)
    f = {k: e.alloc(c) for k, c in zip(FIELDS, cs)}
    f["_stage_order"] = e.alloc(sc.seq())
    f["_stage_to_schedule_index"] = e.alloc(MapC(ET_STAGE, lambda x: sc.inn(x), lambda x: SInt(sc.idx(x))))
    f["_current_schedule_item"] = SInt(s.cur)
    r = e.alloc(ObjC(repo_cls(I, M, "StageRunner"), f))
    I.sc, I.runner = sc, r
    return r


def set_state(I, ref, s):
    """Overwrite the runner's mutable parts (new dict objects)."""
    e = I.e
    f = dict(e.get(ref).fields)
    for k, c in zip(FIELDS, contents(I, s)):
        f[k] = e.alloc(c)
    f["_current_schedule_item"] = SInt(s.cur)
    e.heap[ref.loc] = ObjC(e.get(ref).cls, f)


def as_map(I, c):
    """(dom, val) of a dict with string keys."""
    if isinstance(c, DictC):
        if c.items:
            raise Unsupported("dict with literal keys among the runner's data")
        return (lambda x: FALSE), (lambda x: NONE)
    return c.dom, lambda x: c.get(x).t


def state_of(I, ref):
    """The current state as terms."""
    e = I.e
    f = e.get(ref).fields
    sv, av, fl = [e.get(f[k]) for k in FIELDS]
    seq = I.seq_of(sv)
    sd = lambda k, x: as_map(I, e.get(seq.get(k)))[0](x)
    sval = lambda k, x: as_map(I, e.get(seq.get(k)))[1](x)
    ad, aval = as_map(I, av)

    def flag(x):
        if isinstance(fl, DictC):
            return FALSE
        return I.tb(I.truth_t(fl.get(x)))
    return RS(int_t(f["_current_schedule_item"]), seq.n, sd, sval, ad, aval, flag)


def base_inv(I, s, sc):
    x, n, k = z3.Const("x!i", STAGE), z3.Const("n!i", STR), z3.Int("k!i")
    return [("the current step is a step or the end", And(0 <= s.cur, s.cur <= sc.N)),
            ("one saved state per step up to the current one", s.n == s.cur + 1),
            ("every stage of an earlier step has been executed", forall([x], Implies(And(sc.inn(x), sc.idx(x) < s.cur), s.fl(x)))),
            ("no stage of a later step counts as executed", forall([x], Implies(And(sc.inn(x), sc.idx(x) > s.cur), Not(s.fl(x))))),
            ("available values come from this or an earlier step", forall([n], Implies(s.ad(n), step_of(s.av(n)) <= s.cur))),
            ("saved values come from that or an earlier step", forall([k, n], Implies(
                And(0 <= k, k <= s.cur, s.sd(k, n)), step_of(s.sv(k, n)) <= k)))]


def open_step(I, s, sc):
    sc.hint(s.cur)
    x = z3.Const("x!o", STAGE)
    return [("some stage of the current step has not been executed", Implies(s.cur < sc.N, z3.Exists(
        [x], And(sc.inn(x), sc.idx(x) == s.cur, Not(s.fl(x))))))]


def fixed_parts(I, ref, fields0):
    f = I.e.get(ref).fields
    return [("schedule and index are kept", T(all(f[k] == fields0[k] for k in ("_stage_order", "_stage_to_schedule_index"))))]


def map_eq(d1, v1, d2, v2):
    n = z3.Const("n!m", STR)
    return forall([n], And(d1(n) == d2(n), Implies(d1(n), v1(n) == v2(n))))


def none(I):
    return I.e.lit(VAL, None)


def model(I):
    e = I.e
    typing_model(I)

    class RestrictionContract:
        qual = "instancespace.stages.stage:is_run_restriction"

        @staticmethod
        def apply(I, f, v, node):
            return mkbool(is_marker(v["argument_type"].t))
    I.contracts[RestrictionContract.qual] = RestrictionContract
    I.sort_method[("Stage", "_inputs")] = lambda I, t, a, kw: SU(inputs_of(t))
    I.sort_method[("Stage", "_outputs")] = lambda I, t, a, kw: SU(outputs_of(t))
    I.sort_attr[("Stage", "__name__")] = lambda I, t: Opaque("stage name")
    ln, at, pos = F("nfields", NT, INT), F("field", NT, INT, STR), F("fieldpos", NT, STR, INT)

    def fields(I, t):
        j, n = z3.Int("j!f"), z3.Const("n!f", STR)
        e.axiom(forall([j], Implies(And(0 <= j, j < ln(t)), And(ann_dom(t, at(t, j)), pos(t, at(t, j)) == j))), None)
        e.axiom(forall([n], Implies(ann_dom(t, n), And(0 <= pos(t, n), pos(t, n) < ln(t), at(t, pos(t, n)) == n))), None)
        e.assume(ln(t) >= 0)
        return e.alloc(SeqC(ln(t), lambda j: SU(at(t, j)), ET_STR, distinct=True, memset=lambda x: ann_dom(t, x)))
    I.sort_attr[("NT", "_fields")] = fields
    I.sort_attr[("NT", "__annotations__")] = lambda I, t: e.alloc(MapC(ET_STR, lambda x: ann_dom(t, x), lambda x: SU(ann_type(t, x))))

    def new(I, t, a, kw):
        if set(kw) != {"**"}:
            raise Unsupported("construction of the inputs")
        d, v = as_map(I, I.content(kw["**"]))
        n = z3.Const("n!n", STR)
        e.oblige("the inputs are given exactly the declared fields", forall([n], d(n) == ann_dom(t, n)), None, "call")
        return mktup(I, d, v)
    I.sort_method[("NT", "__new__")] = new

    def deepcopy(I, a, kw, nd):
        e.trusted("copy.deepcopy returns an equal value which shares nothing with the original")
        v = tup(I, a[0])
        return mktup(I, v.dom, v.val, True)
    I.lib["copy.deepcopy"] = deepcopy

    def run(I, t, a, kw):
        x = tup(I, a[0])
        c = I.gc
        I.gc = z3.simplify(c + 1)
        n = z3.Const("n!r", STR)
        e.oblige("the stage is given a private copy of its inputs", T(x.own), None, "call")
        e.trusted("Stage._run: an arbitrary function of its inputs which cannot reach the runner")
        e.assume(ran_at(c) == t)
        d, v = x.dom, x.val
        e.assume(forall([n], And(in_dom(c, n) == d(n), Implies(d(n), in_val(c, n) == v(n)))))
        e.assume(z3.ForAll([n], step_of(out_val(c, n)) == I.sc.idx(t), patterns=[out_val(c, n)]))
        e.assume(z3.ForAll([n], od(out_rec(c), n) == ann_dom(outputs_of(t), n), patterns=[od(out_rec(c), n)]))
        I.calls = I.calls + (t,)
        if e.branch(e.const("stage_fails", B)):
            raise PyRaise(I.stage_error, None, None)
        return SU(out_rec(c))
    I.sort_method[("Stage", "_run")] = run
    I.stage_error = repo_cls(I, M, "StageRunningError").__class__(
        I.repo.module(M), repo_cls(I, M, "StageRunningError").node, "ErrorInsideStage")
    inst_dom, inst_val = F("inst_dom", INST, STR, B), F("inst_val", INST, STR, VAL)
    I.sort_method[("Out", "_asdict")] = lambda I, t, a, kw: e.alloc(MapC(ET_STR, lambda x: od(t, x), lambda x: SU(ov(t, x))))
    I.sort_method[("Inst", "_asdict")] = lambda I, t, a, kw: e.alloc(MapC(ET_STR, lambda x: inst_dom(t, x), lambda x: SU(inst_val(t, x))))
    I.inst = (inst_dom, inst_val)



def mktup(I, dom, val, own=False):
    return I.e.alloc(ObjC(LibV("ghost.Tup"), {"tup": Tup(dom, val, own)}))


def tup(I, r):
    c = I.e.get(r) if isinstance(r, Ref) else None
    t = c.fields.get("tup") if isinstance(c, ObjC) else None
    if t is None:
        raise Unsupported("not the data of a stage")
    return t


class Conf(Contract):
    def configure(self, I):
        model(I)

    def begin(self, I, strong=True):
        sc = Sched(I)
        s = fresh_state(I, "0")
        r = alloc_runner(I, sc, s)
        I.gc, I.calls = z3.Int("gc"), ()
        for _, t in base_inv(I, s, sc) + (open_step(I, s, sc) if strong else []):
            I.e.assume(t)
        return sc, s, r, dict(I.e.get(r).fields)


class Rollback(Conf):
    qual = M + ":StageRunner._rollback_to_schedule_index"
    name = "_rollback_to_schedule_index"

    def setup(self, I):
        sc, s, r, f0 = self.begin(I, False)
        i = z3.Int("index")
        I.e.assume(And(0 <= i, i <= s.cur))
        return dict(self=r, index=SInt(i)), dict(sc=sc, s=s, r=r, i=i, f0=f0)

    def spec(self, I, s, i, sc):
        x = lambda y: And(s.fl(y), Not(And(sc.inn(y), sc.idx(y) > i)))
        return RS(i, z3.simplify(i + 1), s.sd, s.sv, lambda n: s.sd(i, n), lambda n: s.sv(i, n), x)

    def ensures(self, I, c, res):
        w, g, sc = self.spec(I, c["s"], c["i"], c["sc"]), state_of(I, c["r"]), c["sc"]
        x, n, k = z3.Const("x!e", STAGE), z3.Const("n!e", STR), z3.Int("k!e")
        return [("the step asked for is the current one", g.cur == w.cur),
                ("the values are those saved when that step was completed", map_eq(g.ad, g.av, w.ad, w.av)),
                ("saved states up to that step are kept", And(g.n == w.n, forall([k, n], Implies(
                    And(0 <= k, k <= c["i"]), And(g.sd(k, n) == w.sd(k, n), Implies(w.sd(k, n), g.sv(k, n) == w.sv(k, n))))))),
                ("exactly the stages of later steps have to run again", forall([x], Implies(sc.inn(x), g.fl(x) == w.fl(x)))),
                ] + base_inv(I, g, sc) + fixed_parts(I, c["r"], c["f0"])

    def apply(self, I, f, v, node):
        s, i = state_of(I, v["self"]), int_t(v["index"])
        I.e.oblige("the step to go back to is saved", And(0 <= i, i <= s.cur), node, "call")
        # through fresh functions: the caller's terms stay small
        w, g = self.spec(I, s, i, I.sc), fresh_state(I, "rb")
        x, n, k = z3.Const("x!a", STAGE), z3.Const("n!a", STR), z3.Int("k!a")
        e = I.e
        e.assume(And(g.cur == w.cur, g.n == w.n))
        e.assume(forall([n], And(g.ad(n) == w.ad(n), g.av(n) == w.av(n))))
        e.assume(forall([k, n], Implies(And(0 <= k, k <= i), And(g.sd(k, n) == w.sd(k, n), g.sv(k, n) == w.sv(k, n)))))
        e.assume(forall([x], Implies(I.sc.inn(x), g.fl(x) == w.fl(x))))
        set_state(I, v["self"], g)
        return None


class Progress(Conf):
    qual = M + ":StageRunner._progress_schedule"
    name = "_progress_schedule"

    def setup(self, I):
        sc, s, r, f0 = self.begin(I, False)
        I.e.assume(s.cur < sc.N)
        return dict(self=r), dict(sc=sc, s=s, r=r, f0=f0)

    def done(self, s, sc):
        x = z3.Const("x!d", STAGE)
        return forall([x], Implies(And(sc.inn(x), sc.idx(x) == s.cur), s.fl(x)))

    def spec(self, s, sc):
        """(complete, state after)"""
        d = self.done(s, sc)
        k0 = s.cur
        return d, RS(z3.If(d, k0 + 1, k0), z3.If(d, s.n + 1, s.n),
                     lambda k, n: z3.If(And(d, k == k0), s.ad(n), z3.If(And(d, k == k0 + 1), FALSE, s.sd(k, n))),
                     lambda k, n: z3.If(And(d, k == k0), s.av(n), s.sv(k, n)), s.ad, s.av, s.fl)

    def ensures(self, I, c, res):
        s, sc = c["s"], c["sc"]
        d, w = self.spec(s, sc)
        g = state_of(I, c["r"])
        x, n, k = z3.Const("x!e", STAGE), z3.Const("n!e", STR), z3.Int("k!e")
        return [("the next step opens exactly when all stages of this one have been executed", And(g.cur == w.cur, g.n == w.n)),
                ("saved states: this step's values once it is complete, the earlier ones kept", forall([k, n], Implies(
                    And(0 <= k, k < g.n), And(g.sd(k, n) == w.sd(k, n), Implies(w.sd(k, n), g.sv(k, n) == w.sv(k, n)))))),
                ("the available values are kept", map_eq(g.ad, g.av, w.ad, w.av)),
                ("the executed stages are kept", forall([x], g.fl(x) == w.fl(x))),
                ] + base_inv(I, g, sc) + open_step(I, g, sc) + fixed_parts(I, c["r"], c["f0"])

    def apply(self, I, f, v, node):
        e, sc = I.e, I.sc
        s = state_of(I, v["self"])
        e.oblige("the current step exists", s.cur < sc.N, node, "call")
        if e.branch(self.done(s, sc)):
            k0 = s.cur
            w = RS(z3.simplify(k0 + 1), z3.simplify(s.n + 1),
                   lambda k, n: z3.If(k == k0, s.ad(n), z3.If(k == k0 + 1, FALSE, s.sd(k, n))),
                   lambda k, n: z3.If(k == k0, s.av(n), s.sv(k, n)), s.ad, s.av, s.fl)
            set_state(I, v["self"], w)
        return None


def overlay(d1, v1, d2, v2):
    """The values 1 with the values 2 on top."""
    return (lambda n: Or(d1(n), d2(n))), (lambda n: z3.If(d2(n), v2(n), v1(n)))


class RunStage(Conf):
    qual = M + ":StageRunner.run_stage"
    name = "run_stage"
    uses = ("_rollback_to_schedule_index", "_progress_schedule")

    def setup(self, I):
        sc, s, r, f0 = self.begin(I)
        t = z3.Const("stage", STAGE)
        xd, xv = F("extra_dom", STR, B), F("extra_val", STR, VAL)
        x = I.e.alloc(MapC(ET_STR, lambda n: xd(n), lambda n: SU(xv(n))))
        I.e.assume(sc.inn(t))
        n = z3.Const("n!p", STR)
        # every declared data input is available once all earlier steps have run (the builder's guarantee)
        i = sc.idx(t)
        bd = lambda n: z3.If(i == s.cur, s.ad(n), s.sd(i, n))
        I.e.assume(Implies(i <= s.cur, forall([n], Implies(And(ann_dom(inputs_of(t), n), Not(is_marker(ann_type(inputs_of(t), n)))),
                                                          Or(bd(n), xd(n))))))
        return dict(self=r, stage=SU(t), additional_arguments=x), dict(sc=sc, s=s, r=r, t=t, xd=xd, xv=xv, x=x, f0=f0, gc=I.gc)

    @staticmethod
    def base(s, i):
        return (lambda n: z3.If(i == s.cur, s.ad(n), s.sd(i, n))), (lambda n: z3.If(i == s.cur, s.av(n), s.sv(i, n)))

    def ensures(self, I, c, res):
        s, sc, t, g, gc = c["s"], c["sc"], c["t"], state_of(I, c["r"]), c["gc"]
        i = sc.idx(t)
        bd, bv = self.base(s, i)
        gd, gv = overlay(bd, bv, c["xd"], c["xv"])
        nd, nv = overlay(bd, bv, lambda n: ann_dom(outputs_of(t), n), lambda n: out_val(gc, n))
        x, n, k = z3.Const("x!e", STAGE), z3.Const("n!e", STR), z3.Int("k!e")
        mk = lambda n: is_marker(ann_type(inputs_of(t), n))
        wfl = lambda x: And(Or(s.fl(x), x == t), sc.idx(x) <= i)
        same = lambda k: forall([n], And(g.sd(k, n) == s.sd(k, n), Implies(s.sd(k, n), g.sv(k, n) == s.sv(k, n))))
        here = forall([n], And(g.sd(i, n) == nd(n), Implies(nd(n), g.sv(i, n) == nv(n))))
        out = [("allowed only when all earlier steps are complete", i <= s.cur),
               ("exactly this stage is executed, once", And(I.gc == gc + 1, ran_at(gc) == t, T(len(I.calls) == 1))),
               ("it is given exactly its declared inputs", forall([n], in_dom(gc, n) == ann_dom(inputs_of(t), n))),
               ("explicit arguments take priority over the values of its step; markers carry nothing", forall([n], Implies(
                   ann_dom(inputs_of(t), n), in_val(gc, n) == z3.If(mk(n), none(I), gv(n))))),
               ("no input was produced by a later step", forall([n], Implies(
                   And(ann_dom(inputs_of(t), n), Not(mk(n)), Not(c["xd"](n))), step_of(in_val(gc, n)) <= i))),
               ("its outputs, and nothing else, are added to the values", map_eq(g.ad, g.av, nd, nv)),
               ("the values after it are saved for its step", here),
               ("saved states of earlier steps are kept", forall([k], Implies(And(0 <= k, k < i), same(k)))),
               ("executed: this stage and what was executed up to its step", forall([x], Implies(sc.inn(x), g.fl(x) == wfl(x)))),
               ("the step is done when all of its stages have been executed", g.cur == z3.If(
                   forall([x], Implies(And(sc.inn(x), sc.idx(x) == i), wfl(x))), i + 1, i)),
               ("the stage's own output is returned", T(isinstance(res, SU)) if not isinstance(res, SU) else res.t == out_rec(gc)),
               ("explicit arguments are not modified", map_eq(*as_map(I, I.e.get(c["x"])), c["xd"], c["xv"]))]
        return out + base_inv(I, g, sc) + open_step(I, g, sc) + fixed_parts(I, c["r"], c["f0"])

    def raises(self, I, c, ex):
        s, sc, t, g, gc = c["s"], c["sc"], c["t"], state_of(I, c["r"]), c["gc"]
        if ex.name == "ErrorInsideStage":
            return base_inv(I, g, sc) + fixed_parts(I, c["r"], c["f0"])
        x, n, k = z3.Const("x!e", STAGE), z3.Const("n!e", STR), z3.Int("k!e")
        return [("a running error", T(ex.name == "StageRunningError")),
                ("only when a stage of an earlier step has not been executed", z3.Exists([x], And(
                    sc.inn(x), sc.idx(x) < sc.idx(t), Not(s.fl(x))))),
                ("nothing is executed", And(I.gc == gc, T(not I.calls))),
                ("no state changes", And(g.cur == s.cur, g.n == s.n, map_eq(g.ad, g.av, s.ad, s.av),
                                         forall([x], g.fl(x) == s.fl(x)),
                                         forall([k, n], And(g.sd(k, n) == s.sd(k, n), g.sv(k, n) == s.sv(k, n)))))] \
            + fixed_parts(I, c["r"], c["f0"])


    def apply(self, I, f, v, node):
        e, sc, ref = I.e, I.sc, v["self"]
        t, s, gc = v["stage"].t, state_of(I, v["self"]), I.gc
        i = sc.idx(t)
        xd, xv = as_map(I, I.content(v["additional_arguments"]))
        e.oblige("the stage to run is in the schedule", sc.inn(t), node, "call")
        if e.branch(i > s.cur):
            raise PyRaise(repo_cls(I, M, "StageRunningError"), None, node)
        for lab, g in base_inv(I, s, sc) + open_step(I, s, sc):
            e.oblige("before running a stage: " + lab, g, node, "call")
        bd, bv = self.base(s, i)
        n, x, k = z3.Const("n!ap", STR), z3.Const("x!ap", STAGE), z3.Int("k!ap")
        mk = lambda n: is_marker(ann_type(inputs_of(t), n))
        e.oblige("every declared input is available", forall([n], Implies(
            And(ann_dom(inputs_of(t), n), Not(mk(n))), Or(bd(n), xd(n)))), node, "call")
        g = fresh_state(I, "rs")
        if e.branch(e.const("stage_fails", B)):
            set_state(I, ref, g)
            for _, q in base_inv(I, g, sc):
                e.assume(q)
            raise PyRaise(I.stage_error, None, node)
        gd, gv = overlay(bd, bv, xd, xv)
        nd, nv = overlay(bd, bv, lambda n: ann_dom(outputs_of(t), n), lambda n: out_val(gc, n))
        wfl = lambda x: And(Or(s.fl(x), x == t), sc.idx(x) <= i)
        I.gc = z3.simplify(gc + 1)
        e.assume(ran_at(gc) == t)
        e.assume(forall([n], And(in_dom(gc, n) == ann_dom(inputs_of(t), n), Implies(
            in_dom(gc, n), in_val(gc, n) == z3.If(mk(n), none(I), gv(n))))))
        e.assume(forall([n], And(g.ad(n) == nd(n), g.av(n) == nv(n))))
        e.assume(z3.ForAll([n], od(out_rec(gc), n) == ann_dom(outputs_of(t), n), patterns=[od(out_rec(gc), n)]))
        e.assume(z3.ForAll([n], step_of(out_val(gc, n)) == i, patterns=[out_val(gc, n)]))
        e.assume(forall([n], And(g.sd(i, n) == nd(n), Implies(nd(n), g.sv(i, n) == nv(n)))))
        e.assume(forall([k, n], Implies(And(0 <= k, k < i), And(g.sd(k, n) == s.sd(k, n), Implies(s.sd(k, n), g.sv(k, n) == s.sv(k, n))))))
        e.assume(forall([x], Implies(sc.inn(x), g.fl(x) == wfl(x))))
        e.assume(g.cur == z3.If(forall([x], Implies(And(sc.inn(x), sc.idx(x) == i), wfl(x))), i + 1, i))
        for _, q in base_inv(I, g, sc) + open_step(I, g, sc):
            e.assume(q)
        set_state(I, ref, g)
        return SU(out_rec(gc))


# ------------------------------------------------------------------ whole runs
NUM = F("number_of", STAGE, INT)          # the number of a stage's execution in this run


class Run:
    """Ghost: the values after every execution of this run, and the number of each stage's execution."""

    def __init__(self, I, sc, gc0, inst, stop=None):
        self.I, self.sc, self.gc0 = I, sc, gc0
        self.Ld, self.Lv, self.off = F("latest_dom", INT, STR, B), F("latest_val", INT, STR, VAL), F("offset", INT, INT)
        e, n, x = I.e, z3.Const("n!r", STR), z3.Const("x!r", STAGE)
        idom, ival = I.inst[0], I.inst[1]
        self.idom, self.ival = (lambda n: idom(inst, n)), (lambda n: ival(inst, n))
        Ld, Lv = self.Ld, self.Lv
        e.axiom(z3.ForAll([n], Ld(gc0, n) == self.idom(n), patterns=[Ld(gc0, n)]), {"latest_dom"})
        e.axiom(z3.ForAll([n], Lv(gc0, n) == self.ival(n), patterns=[Lv(gc0, n)]), {"latest_val"})
        e.axiom(z3.ForAll([x], NUM(x) == gc0 + self.off(sc.idx(x)) + (
            sc.pos(x) if stop is None else z3.If(x == stop, 0, sc.pos(x))), patterns=[NUM(x)]), {"number_of"})
        e.assume(self.off(0) == 0)

    def unfold(self, c):
        """The definition of the values after execution c."""
        n = z3.Const("n!uf", STR)
        d = z3.simplify(c + 1)
        O = lambda n: ann_dom(outputs_of(ran_at(c)), n)
        e = self.I.e
        e.assume(z3.ForAll([n], self.Ld(d, n) == Or(self.Ld(c, n), O(n)), patterns=[self.Ld(d, n)]))
        e.assume(z3.ForAll([n], self.Lv(d, n) == z3.If(O(n), out_val(c, n), self.Lv(c, n)), patterns=[self.Lv(d, n)]))

    def latest(self, x, n):
        """What execution of x has to be given for its input n."""
        return z3.If(is_marker(ann_type(inputs_of(x), n)), none(self.I), self.Lv(NUM(x), n))

    def facts(self, s, k, j, done=None):
        """After k steps and j stages of step k: what was executed, on which values."""
        sc, g = self.sc, self.gc0
        x, n, c = z3.Const("x!f", STAGE), z3.Const("n!f", STR), z3.Int("c!f")
        done = done or (lambda x: Or(sc.idx(x) < k, And(sc.idx(x) == k, sc.pos(x) < j)))
        now = self.I.gc
        F_ = lambda vs, t, pat: z3.ForAll(vs, t, patterns=[pat])
        return [
            ("the number of executions", now == g + self.off(k) + j),
            ("a stage is executed in its turn", F_([x], Implies(And(sc.inn(x), done(x)), And(ran_at(NUM(x)) == x, g <= NUM(x), NUM(x) < now)), sc.inn(x))),
            ("every execution is that of a scheduled stage in its turn", F_([c], Implies(And(g <= c, c < now), And(
                sc.inn(ran_at(c)), done(ran_at(c)), c == NUM(ran_at(c)))), ran_at(c))),
            ("each was given the latest value of every input", F_([x, n], Implies(
                And(sc.inn(x), done(x), ann_dom(inputs_of(x), n)), And(in_dom(NUM(x), n), in_val(NUM(x), n) == self.latest(x, n))),
                z3.MultiPattern(sc.inn(x), ann_dom(inputs_of(x), n)))),
            ("available values are the latest ones: names", forall([n], s.ad(n) == self.Ld(now, n))),
            ("available values are the latest ones", forall([n], Implies(s.ad(n), s.av(n) == self.Lv(now, n)))),
            ("initial inputs stay available", forall([n], Implies(self.idom(n), self.Ld(now, n)))),
            ("outputs of executed stages stay available", F_([x, n], Implies(
                And(sc.inn(x), done(x), ann_dom(outputs_of(x), n)), self.Ld(now, n)), z3.MultiPattern(sc.inn(x), ann_dom(outputs_of(x), n)))),
            ("nothing else is available", forall([n], Implies(self.Ld(now, n), Or(self.idom(n), z3.Exists([x], And(
                sc.inn(x), done(x), ann_dom(outputs_of(x), n))))))),
            ("executed stages", F_([x], Implies(sc.inn(x), s.fl(x) == done(x)), sc.inn(x))),
        ]


class Whole(Conf):
    uses = ("run_stage", "_rollback_to_schedule_index")
    budget_s = 200

    def configure(self, I):
        super().configure(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(lambda *a: self.inv(*a, outer=True), lambda *a: self.havoc(*a, outer=True), self.modifies)
        I.loop_invs[(self.qual, 1)] = LoopInv(lambda *a: self.inv(*a, outer=False), lambda *a: self.havoc(*a, outer=False), self.modifies)

    def setup(self, I):
        sc, s, r, f0 = self.begin(I, False)
        inst = z3.Const("initial", INST)
        idom, ival = I.inst
        x, n, y = z3.Const("x!p", STAGE), z3.Const("n!p", STR), z3.Const("y!p", STAGE)
        e = I.e
        e.assume(forall([n], step_of(ival(inst, n)) == -1))
        # the builder's guarantee for the inputs of every stage
        e.assume(forall([x, n], Implies(And(sc.inn(x), ann_dom(inputs_of(x), n), Not(is_marker(ann_type(inputs_of(x), n)))),
                                        Or(idom(inst, n), z3.Exists([y], And(sc.inn(y), sc.idx(y) < sc.idx(x), ann_dom(outputs_of(y), n)))))))
        stop = self.stops(I, sc)
        I.run = Run(I, sc, I.gc, inst, stop)
        I.step, I.fields0 = None, f0
        vars_ = dict(self=r, additional_arguments=SU(inst))
        ctx = dict(sc=sc, s=s, r=r, f0=f0, inst=inst, run=I.run)
        return self.more(I, vars_, ctx)

    def stops(self, I, sc):
        return None

    def more(self, I, vars_, ctx):
        return vars_, ctx

    def where(self, I, k, outer):
        return (k, z3.IntVal(0)) if outer else (I.step, k)

    def inv(self, I, frame, k, entry, outer):
        step, j = self.where(I, k, outer)
        self.at_step = step
        s, sc = state_of(I, I.runner), I.sc
        out = [("current step", s.cur == z3.If(j == sc.ln(step), step + 1, step))]
        out += I.run.facts(s, step, j) + base_inv(I, s, sc) + open_step(I, s, sc) + self.extra(I, frame, outer)
        f = I.e.get(I.runner).fields
        out.append(("schedule and index are kept", T(all(f[q] == I.fields0[q] for q in ("_stage_order", "_stage_to_schedule_index")))))
        return out

    def extra(self, I, frame, outer):
        return []

    def havoc(self, I, frame, k, entry, outer):
        if outer:
            I.step = k
        step, j = self.where(I, k, outer)
        I.gc = I.e.const("gc_now", INT)
        I.run.unfold(I.gc)
        set_state(I, I.runner, fresh_state(I, "lp"))
        if not outer:
            I.sc.known(step, j)
            I.sc.known(step, z3.simplify(j + 1))
        if outer:
            I.sc.hint(k)
            I.e.assume(And(I.run.off(k + 1) == I.run.off(k) + I.sc.ln(k), I.run.off(k) >= 0))   # definition of off

    def modifies(self, I, entry, vars0):
        names = {n for n in vars0 if n not in entry.vars} | {"stage"}
        locs = {I.runner.loc} | {r.loc for q, r in I.e.get(I.runner).fields.items() if q in FIELDS}
        f = entry.heap[I.runner.loc].fields
        locs |= {f[q].loc for q in FIELDS}
        ys = entry.vars.get("__yields__")
        return names, locs | ({ys.loc} if isinstance(ys, Ref) else set())

    def raises(self, I, c, ex):
        if ex.name == "ErrorInsideStage":
            return base_inv(I, state_of(I, c["r"]), c["sc"]) + fixed_parts(I, c["r"], c["f0"])
        return super().raises(I, c, ex)

    def final(self, I, c, res, k, j, done=None):
        g, sc = state_of(I, c["r"]), c["sc"]
        rd, rv = as_map(I, I.content(res))
        now = I.gc
        return I.run.facts(g, k, j, done) + [
            ("the values returned are the latest ones of this run", map_eq(rd, rv, lambda n: I.run.Ld(now, n), lambda n: I.run.Lv(now, n)))] \
            + base_inv(I, g, sc) + open_step(I, g, sc) + fixed_parts(I, c["r"], c["f0"])


class RunAll(Whole):
    qual = M + ":StageRunner.run_all"
    name = "run_all"

    def ensures(self, I, c, res):
        return self.final(I, c, res, c["sc"].N, z3.IntVal(0))


class RunIter(Whole):
    """The generator, driven to its end by a caller which does nothing to the runner in between."""
    qual = M + ":StageRunner.run_iter"
    name = "run_iter"

    def pairs(self, I, ys):
        """The pairs yielded are those of the executions of this run, in order."""
        q = I.seq_of(I.content(ys))
        gc0, i = I.run.gc0, z3.Int("i!y")
        n = q.n if z3.is_expr(q.n) else z3.IntVal(q.n)
        out = [("one pair per execution", n == I.gc - gc0)]
        if z3.is_int_value(n) and n.as_long() == 0:
            return out
        v = q.get(i)
        if not (isinstance(v, RecV) and v.cls.name == "AnnotatedStageOutput"):
            raise Unsupported("what is yielded")
        st, o = v.fields["stage"], v.fields["output"]
        if not (isinstance(st, SU) and isinstance(o, SU)):
            raise Unsupported("what is yielded")
        return out + [("every stage is yielded with its own output, in the order of execution", forall([i], Implies(
            And(0 <= i, i < n), And(st.t == ran_at(gc0 + i), o.t == out_rec(gc0 + i)))))]

    def extra(self, I, frame, outer):
        return self.pairs(I, frame.vars["__yields__"])

    def havoc(self, I, frame, k, entry, outer):
        super().havoc(I, frame, k, entry, outer)
        e = I.e
        ys = frame.vars["__yields__"]
        st, o, n = e.func("y_stage", [INT], STAGE), e.func("y_out", [INT], OUTS), e.const("n_yields", INT)
        e.assume(n >= 0)
        cls = repo_cls(I, M, "AnnotatedStageOutput")
        e.heap[ys.loc] = SeqC(n, lambda i: RecV(cls, {"stage": SU(st(i)), "output": SU(o(i))}))

    def ensures(self, I, c, res):
        return self.final(I, c, res, c["sc"].N, z3.IntVal(0)) + self.pairs(I, I.last_frame.vars["__yields__"])


class RunUntil(Whole):
    qual = M + ":StageRunner.run_until_stage"
    name = "run_until_stage"

    def stops(self, I, sc):
        t = I.stop = z3.Const("stop", STAGE)
        I.e.assume(sc.inn(t))
        return t

    def more(self, I, vars_, ctx):
        return dict(vars_, stop_at_stage=SU(I.stop)), ctx

    def extra(self, I, frame, outer):
        # inside a step (inner loop) the stage is strictly later
        return [("the stage asked for is still ahead", I.sc.idx(I.stop) >= self.at_step if outer else I.sc.idx(I.stop) > self.at_step)]

    def ensures(self, I, c, res):
        sc, t = c["sc"], I.stop
        return self.final(I, c, res, sc.idx(t), z3.IntVal(1), lambda x: Or(sc.idx(x) < sc.idx(t), x == t))


# ------------------------------------------------------------------ construction
class Order:
    """What a check of the stage order is given: the inputs and outputs of every stage, the initial inputs."""

    def __init__(self, I, sc):
        self.aet = arg_et(I)
        self.ARG = I.et_sort(self.aet)
        self.inp, self.out = F("stage_inp", STAGE, self.ARG, B), F("stage_out", STAGE, self.ARG, B)
        self.init = F("init_args", self.ARG, B)
        e = I.e
        self.refs = dict(stages=e.alloc(sc.seq()),
                         input_arguments=e.alloc(MapC(ET_STAGE, sc.inn, lambda x: e.alloc(SetC(self.aet, lambda a: self.inp(x, a))))),
                         output_arguments=e.alloc(MapC(ET_STAGE, sc.inn, lambda x: e.alloc(SetC(self.aet, lambda a: self.out(x, a))))),
                         initial_input_annotations=e.alloc(SetC(self.aet, lambda a: self.init(a))))


def known_before(sc, init, out, k, a):
    """An initial input, or an output of a step before k."""
    y = z3.Const("y!kb", STAGE)
    return Or(init(a), z3.Exists([y], And(sc.inn(y), sc.idx(y) < k, out(y, a))))


def missing(sc, init, inp, out, ARG, k=None):
    x, a = z3.Const("x!ms", STAGE), z3.Const("a!ms", ARG)
    return z3.Exists([x, a], And(sc.inn(x), TRUE if k is None else sc.idx(x) < k, inp(x, a),
                                 Not(known_before(sc, init, out, sc.idx(x), a))))


def check_args(I, v):
    """(init, inp, out) of a call which checks an order."""
    e = I.e
    i, o, c = [e.get(v[k]) for k in ("input_arguments", "output_arguments", "initial_input_annotations")]
    return c.mem, (lambda x, a: e.get(i.get(x)).mem(a)), (lambda x, a: e.get(o.get(x)).mem(a)), i, o


class CheckOrder(Contract):
    qual = M + ":StageRunner._check_stage_order_is_runnable"
    name = "_check_stage_order_is_runnable"

    def configure(self, I):
        model(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def setup(self, I):
        I.sc = sc = Sched(I)
        o = Order(I, sc)
        I.order, I.avail = o, None
        return dict(o.refs), dict(sc=sc, o=o)

    def local(self, I, frame):
        """The set which grows from the initial inputs."""
        c = [n for n, v in frame.vars.items() if n not in I.order.refs and isinstance(v, Ref)
             and isinstance(I.e.get(v), SetC) and I.e.get(v).et == I.order.aet]
        if len(c) != 1:
            raise Unsupported("locals of _check_stage_order_is_runnable")
        return c[0]

    def inv(self, I, frame, k, entry):
        sc, o, a = I.sc, I.order, z3.Const("a!v", I.order.ARG)
        if I.avail is None:
            I.avail = self.local(I, frame)
        got = I.content(frame.vars[I.avail])
        return [("available so far", forall([a], got.mem(a) == known_before(sc, o.init, o.out, k, a))),
                ("nothing was missing so far", Not(missing(sc, o.init, o.inp, o.out, o.ARG, k)))]

    def havoc(self, I, frame, k, entry):
        sc, o = I.sc, I.order
        f = I.e.func("avail", [o.ARG], B)
        I.e.heap[entry.vars[I.avail].loc] = SetC(o.aet, lambda a: f(a))
        sc.hint(k)

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars}, {entry.vars[I.avail].loc}

    def unchanged(self, I, o):
        e, x, a = I.e, z3.Const("x!u", STAGE), z3.Const("a!u", o.ARG)
        init, inp, out, ci, co = check_args(I, o.refs)
        return [("the arguments are not modified", And(
            forall([a], init(a) == o.init(a)),
            forall([x, a], Implies(I.sc.inn(x), And(inp(x, a) == o.inp(x, a), out(x, a) == o.out(x, a))))))]

    def ensures(self, I, c, res):
        o = c["o"]
        return [("accepted only when every input is initial or the output of an earlier step",
                 Not(missing(c["sc"], o.init, o.inp, o.out, o.ARG)))] + self.unchanged(I, o)

    def raises(self, I, c, ex):
        o = c["o"]
        return [("a running error", T(ex.name == "StageRunningError")),
                ("refused only when an input is neither initial nor the output of an earlier step",
                 missing(c["sc"], o.init, o.inp, o.out, o.ARG))] + self.unchanged(I, o)

    def apply(self, I, f, v, node):
        init, inp, out, ci, co = check_args(I, v)
        x = z3.Const("x!ck", STAGE)
        I.e.oblige("inputs and outputs of every stage are given", forall([x], Implies(I.sc.inn(x), And(ci.dom(x), co.dom(x)))), node, "call")
        if I.e.branch(missing(I.sc, init, inp, out, I.et_sort(arg_et(I)))):
            raise PyRaise(repo_cls(I, M, "StageRunningError"), None, node)
        return None


class Init(Contract):
    qual = M + ":StageRunner.__init__"
    name = "__init__"
    uses = ("_check_stage_order_is_runnable",)

    def configure(self, I):
        model(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def setup(self, I):
        I.sc = sc = Sched(I)
        o = Order(I, sc)
        I.runner = I.e.alloc(ObjC(repo_cls(I, M, "StageRunner"), {}))
        return dict(o.refs, self=I.runner), dict(sc=sc, o=o, r=I.runner)

    def index(self, I):
        f = I.e.get(I.runner).fields.get("_stage_to_schedule_index")
        if f is None:
            raise Unsupported("the index of the schedule")
        return f

    def indexed(self, I, upto):
        sc, x = I.sc, z3.Const("x!ix", STAGE)
        c = I.content(self.index(I))
        dom, get = ((lambda x: FALSE), None) if isinstance(c, DictC) and not c.items else (c.dom, c.get)
        d = And(sc.inn(x), sc.idx(x) < upto)
        return forall([x], And(dom(x) == d, TRUE if get is None else Implies(d, int_t(get(x)) == sc.idx(x))))

    def inv(self, I, frame, k, entry):
        return [("indexed so far", self.indexed(I, k))]

    def havoc(self, I, frame, k, entry):
        d, v = I.e.func("ix_dom", [STAGE], B), I.e.func("ix", [STAGE], INT)
        I.e.heap[self.index(I).loc] = MapC(ET_STAGE, lambda x: d(x), lambda x: SInt(v(x)))
        I.sc.hint(k)

    def modifies(self, I, entry, vars0):
        return {n for n in vars0 if n not in entry.vars} | {"i", "schedule", "stage"}, {self.index(I).loc}

    def ensures(self, I, c, res):
        sc, o = c["sc"], c["o"]
        s = state_of(I, c["r"])
        so = I.seq_of(I.content(I.e.get(c["r"]).fields["_stage_order"]))
        i, j, n = z3.Int("i!e"), z3.Int("j!e"), z3.Const("n!e", STR)
        st = I.seq_of(I.content(so.get(i)))
        return [("every stage is indexed by its step", self.indexed(I, sc.N)),
                ("the order is the one given", And(so.n == sc.N, forall([i, j], Implies(
                    And(0 <= i, i < sc.N), And(st.n == sc.ln(i), Implies(And(0 <= j, j < sc.ln(i)), st.get(j).t == sc.at(i, j))))))),
                ("nothing has been executed", And(s.cur == 0, forall([z3.Const("x!e", STAGE)], Not(s.fl(z3.Const("x!e", STAGE)))))),
                ("no values are stored", forall([n], And(Not(s.ad(n)), Not(s.sd(z3.IntVal(0), n))))),
                ("accepted only when every input is initial or the output of an earlier step",
                 Not(missing(sc, o.init, o.inp, o.out, o.ARG)))] + base_inv(I, s, sc) + open_step(I, s, sc)

    def raises(self, I, c, ex):
        o = c["o"]
        return [("a running error", T(ex.name == "StageRunningError")),
                ("refused only when an input is neither initial nor the output of an earlier step",
                 missing(c["sc"], o.init, o.inp, o.out, o.ARG))]


ALL = [Rollback(), Progress(), RunStage(), RunAll(), RunIter(), RunUntil(), CheckOrder(), Init()]
