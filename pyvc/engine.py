"""Path exploration, obligations, solver access and the symbolic heap."""
from __future__ import annotations

import re
import os
import shutil
import subprocess
import tempfile
import time

import z3

from .sym import (FALSE, TRUE, And, ArrC, FrameC, Implies, ListC, MapC, Not, Opaque, Ref, SBool,
                  SeqC, SetC, SF, SInt, SU, Unsupported, ViewC, bool_t, mkbool)

HAVOC = "hv!"


class PathEnd(Exception):
    """The current path was found infeasible."""


class Fact:
    """Path-condition entry.  kind: 'branch' (a decision) or 'fact' (an assumed truth)."""

    __slots__ = ("t", "kind")

    def __init__(self, t, kind):
        self.t, self.kind = t, kind


FEAS_RLIMIT = 150000


class Obligation:
    def __init__(self, label, pc, goal, node=None, kind="post"):
        self.label, self.pc, self.goal, self.kind = label, pc, goal, kind
        self.line = getattr(node, "lineno", None)
        self.status = None   # discharged / refuted / unknown
        self.backend = None
        self.time = 0.0
        self.model = None
        self.note = ""


class PathResult:
    def __init__(self, outcome, value, conds, facts, heap, vars_):
        self.outcome, self.value = outcome, value
        self.conds, self.facts = conds, facts
        self.heap, self.vars = heap, vars_


_SORTS: dict[str, z3.SortRef] = {}


def usort(name):
    if name not in _SORTS:
        _SORTS[name] = z3.DeclareSort(name)
    return _SORTS[name]


_RECSORT: dict = {}


def recsort(name, fields):
    """A z3 datatype for immutable records; fields: [(name, sort)]."""
    key = (name, tuple((n, str(s)) for n, s in fields))
    if key not in _RECSORT:
        d = z3.Datatype("Rec_" + name)
        d.declare("mk", *[(f"{name}_{n}", s) for n, s in fields])
        _RECSORT[key] = d.create()
    return _RECSORT[key]


class Engine:
    def __init__(self, timeout_ms=8000, size=None, budget_s=240):
        self.timeout_ms = timeout_ms
        self.size = size              # concrete size assignment (counterexample mode)
        self.deadline = time.time() + budget_s
        self.n_fresh = 0
        self.next_loc = 1
        self.heap: dict[int, object] = {}
        self.pc: list[Fact] = []
        self.generics: list = []      # active generic loop variables (z3 consts)
        self.frames: list = []
        self.decisions: list[tuple] = []
        self.pos = 0
        self.stack: list = []
        self.obligations: list[Obligation] = []
        self.global_axioms: list = []
        self.axiom_ids: set = set()
        self.sym_cache: dict = {}
        self.memo: dict = {}
        self.keep: list = []          # keep terms alive so that get_id() keys stay valid
        self.reducers: dict = {}
        self.canon: dict = {}
        self.literals: dict = {}
        self.feas_cache: dict = {}
        self.n_feas = 0
        self.assumed: dict[str, int] = {}   # trusted library contracts used -> count
        self.used_contracts: dict[str, int] = {}
        self.inlined: dict[str, int] = {}
        self.ob_index: set = set()
        self.record = True
        self.replay_counts: dict = {}
        self.nest_seq = 0
        self.spec_mode = 0
        self.check_timeout = 1500
        self.inst_hooks: list = []    # (symbols, fn): facts worth instantiating at a goal's indices

    # ------------------------------------------------------------ fresh names
    def fresh_name(self, base):
        self.n_fresh += 1
        return f"{base}!{self.n_fresh}"

    def const(self, base, sort):
        """A fresh constant, or a Skolem function of the active generic variables."""
        return self.func(base, [], sort)()

    def func(self, base, argsorts, rsort):
        name = self.fresh_name(base)
        g = list(self.generics)
        if not g and not argsorts:
            c = z3.Const(name, rsort)
            return lambda: c
        f = z3.Function(name, *[x.sort() for x in g], *argsorts, rsort)
        return lambda *a: f(*g, *a)

    def generic(self, base, sort=None):
        if not base.startswith("g!"):
            base = "g!" + base
        return z3.Const(self.fresh_name(base), sort if sort is not None else z3.IntSort())

    # ------------------------------------------------------------ heap
    def alloc(self, content):
        loc = self.next_loc
        self.next_loc += 1
        self.heap[loc] = content
        return Ref(loc)

    def get(self, ref):
        return self.heap[ref.loc]

    def put(self, ref, content):
        if getattr(self.heap.get(ref.loc), "frozen", False):
            self.oblige("ownership: object stored in a container is not mutated afterwards", FALSE,
                        kind="frame")
        self.heap[ref.loc] = content

    # ------------------------------------------------------------ literals
    def lit(self, sort, value):
        """The constant of an uninterpreted sort standing for a Python literal."""
        tab = self.literals.setdefault(str(sort), {})
        if value not in tab:
            tab[value] = z3.Const(f"lit!{sort}!{re.sub('[^A-Za-z0-9_]', '.', str(value))}!{len(tab)}", sort)
        return tab[value]

    def literal_axioms(self):
        out = []
        for tab in self.literals.values():
            v = list(tab.values())
            if len(v) > 1:
                out.append(z3.Distinct(*v))
        return out

    # ------------------------------------------------------------ assumptions
    def assume(self, t, kind="fact"):
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        if z3.is_true(t):
            return
        self.pc.append(Fact(t, kind))

    def axiom(self, t, defs=None):
        """A globally valid fact (not path dependent); used when one of `defs` is mentioned."""
        if z3.is_true(t) or (t.get_id() in self.axiom_ids):
            return
        self.axiom_ids.add(t.get_id())
        self.global_axioms.append((t, defs, frozenset(symbols(t))))

    def relevant_axioms(self, terms):
        """Axioms reachable from the symbols of the given terms."""
        need = set()
        for t in terms:
            i = t.get_id()
            if i not in self.sym_cache:
                self.sym_cache[i] = frozenset(symbols(t))
                self.keep.append(t)
            need |= self.sym_cache[i]
        out, left = [], list(self.global_axioms)
        while True:
            rest, more = [], False
            for a in left:
                if a[1] is None or not need.isdisjoint(a[1]):
                    out.append(a[0])
                    need |= a[2]
                    more = True
                else:
                    rest.append(a)
            left = rest
            if not more:
                return out

    def trusted(self, name):
        self.assumed[name] = self.assumed.get(name, 0) + 1

    def closed(self, t):
        """Universally close t over the active generics (for definitional facts)."""
        return t

    # ------------------------------------------------------------ obligations
    def oblige(self, label, goal, node=None, kind="post"):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if isinstance(goal, SBool):
            goal = goal.t
        if not self.record:
            return
        if z3.is_true(goal):
            self.trivial = getattr(self, "trivial", 0) + 1
            ob = Obligation(label, [], goal, node, kind)
            ob.status, ob.backend = "discharged", "syntactic"
            self._add(ob)
            return
        self._add(Obligation(label, [f.t for f in self.pc], goal, node, kind))

    def _add(self, ob):
        # replays regenerate the obligations of their common prefix: keep one of each
        sig = (ob.label, ob.line, self.nested_sig(), tuple(self.decisions[: self.pos]))
        k = self.replay_counts.get(sig, 0)
        self.replay_counts[sig] = k + 1
        if (sig, k) not in self.ob_index:
            self.ob_index.add((sig, k))
            self.obligations.append(ob)

    def nested_sig(self):
        return tuple((s[2], tuple(s[0][: s[1]])) for s in self.stack)

    # ------------------------------------------------------------ branching
    def solver(self, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        return s

    def feasible(self, cond):
        key = (self.nested_sig(), tuple(self.decisions[: self.pos]), cond.get_id())
        self.keep.append(cond)
        if key in self.feas_cache:
            return self.feas_cache[key]
        self.n_feas += 1
        s = self.solver(2000)
        s.set("rlimit", FEAS_RLIMIT)      # a deterministic limit: the same paths on a slow machine
        for a in self.relevant_axioms([f.t for f in self.pc] + [cond]):
            s.add(a)
        for a in self.literal_axioms():
            s.add(a)
        for f in self.pc:
            s.add(f.t)
        s.add(cond)
        r = s.check()
        r = r != z3.unsat
        self.feas_cache[key] = r
        return r

    def branch(self, cond):
        """Decide a condition: returns a Python bool, forking the exploration if both can hold."""
        if isinstance(cond, bool):
            return cond
        if not z3.is_expr(cond):
            cond = bool_t(cond)
        cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
        else:
            if time.time() > self.deadline:
                raise Unsupported("verification budget exhausted (path explosion)")
            t_ok = self.feasible(cond)
            f_ok = self.feasible(Not(cond)) if t_ok else True
            if t_ok and f_ok:
                d = (True, True, False)      # (value, other side pending, implied by the path)
            else:
                d = (t_ok, False, True)
            self.decisions.append(d)
            self.pos += 1
        v = d[0]
        self.pc.append(Fact(cond if v else Not(cond), "fact" if d[2] else "branch"))
        return v

    def _advance(self):
        """Move to the next unexplored decision sequence; False when exhausted."""
        while self.decisions and not self.decisions[-1][1]:
            self.decisions.pop()
        if not self.decisions:
            return False
        v = self.decisions.pop()[0]
        self.decisions.append((not v, False, False))
        return True

    def explore(self, thunk, max_paths=4000):
        """Top-level exploration: run thunk once per feasible path."""
        self.decisions, self.pos = [], 0
        n = 0
        while True:
            self.pos = 0
            self.heap, self.pc, self.next_loc = {}, [], 1
            self.generics, self.frames, self.stack = [], [], []
            self.replay_counts = {}
            self.nest_seq = 0
            try:
                thunk()
            except PathEnd:
                pass
            n += 1
            if n > max_paths:
                raise Unsupported("too many paths")
            self.decisions = self.decisions[: max(self.pos, 0)]
            if not self._advance():
                return n

    def nested(self, thunk, frame, max_paths=600):
        """Explore thunk from the current state; restores the state; returns [PathResult]."""
        saved = (self.decisions, self.pos)
        base_heap, base_vars = dict(self.heap), dict(frame.vars)
        base_pc, base_loc = len(self.pc), self.next_loc
        base_pc_list = list(self.pc)
        results = []
        self.decisions, self.pos = [], 0
        self.nest_seq += 1
        seq0 = self.nest_seq
        self.stack.append((saved[0], saved[1], seq0))
        counts0 = self.replay_counts
        try:
            while True:
                self.pos = 0
                self.heap, self.pc = dict(base_heap), list(base_pc_list)
                frame.vars = dict(base_vars)
                self.replay_counts = {}
                self.nest_seq = seq0
                try:
                    outcome, value = thunk()
                    delta = self.pc[base_pc:]
                    results.append(PathResult(outcome, value,
                                              [f.t for f in delta if f.kind == "branch"],
                                              [f.t for f in delta if f.kind == "fact"],
                                              self.heap, frame.vars))
                except PathEnd:
                    pass
                if len(results) > max_paths:
                    raise Unsupported("too many paths in a loop body")
                self.decisions = self.decisions[: self.pos]
                if not self._advance():
                    break
        finally:
            self.stack.pop()
            self.replay_counts = counts0
            self.decisions, self.pos = saved
            self.heap, self.pc = dict(base_heap), list(base_pc_list)
            frame.vars = dict(base_vars)
        return results

    # ------------------------------------------------------------ discharge
    def discharge(self, ob):
        if ob.status == "discharged":
            return
        t0 = time.time()
        axioms = self.relevant_axioms(ob.pc + [ob.goal]) + self.literal_axioms()
        have = set()
        for a in ob.pc + [ob.goal]:
            have |= self.sym_cache.get(a.get_id()) or frozenset(symbols(a))
        hooks = [fn for names, fn in self.inst_hooks if not names.isdisjoint(have)]
        status, backend, model = "unsat", "syntactic", None
        for neg, consts in negated_parts(ob.goal):
            assertions = axioms + ob.pc + [neg]
            # ground instances of selection facts at the goal's own indices (solvers rarely find these)
            ints = [c for c in consts if c.sort() == z3.IntSort()][:4]
            assertions += [fn(c) for fn in hooks for c in ints]
            assertions += [g for t in ob.pc for c in ints for g in nested_instance(t, c)]
            status, backend, model = self._portfolio(assertions)
            if status != "unsat":
                break
        ob.time = time.time() - t0
        ob.status = {"unsat": "discharged", "sat": "refuted"}.get(status, "unknown")
        ob.backend, ob.model = backend, model

    def _portfolio(self, assertions):
        """A short try in process, then several solvers side by side; the first refutation wins."""
        status, backend, model = "unknown", None, None
        full = self.timeout_ms
        for mode in (None, "ematch"):
            st, be, m = self._z3(assertions, min(700, full), mode)
            if st == "unsat" or (st == "sat" and mode is None):
                return st, be, m
            backend = backend or be
        s = z3.Solver()
        s.add(*assertions)
        text = s.to_smt2()
        st, be = side_by_side(text, full / 1000)
        if st == "unsat":
            return st, be, None
        return status, be or backend, model

    def _z3(self, assertions, timeout, mode=None):
        s = z3.Solver() if mode is None else z3.SolverFor("UFLIRA" if False else "AUFLIRA")
        if mode == "ematch":
            s = z3.Solver()
            s.set("auto_config", False)
            s.set("smt.mbqi", False)
        s.set("timeout", timeout)
        s.add(*assertions)
        r = s.check()
        if r == z3.unsat:
            return "unsat", "z3" + ("-ematch" if mode else ""), None
        if r == z3.sat:
            return "sat", "z3", s.model()
        return "unknown", "z3:" + s.reason_unknown(), None

    def _cvc5(self, assertions, timeout_ms=None):
        try:
            import cvc5
        except ImportError:
            return "unknown", "cvc5 missing", None
        s = z3.Solver()
        s.add(*assertions)
        smt = s.to_smt2()
        try:
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(timeout_ms or self.timeout_ms))
            slv.setOption("fs-interleave", "true") if False else None
            parser = cvc5.InputParser(slv)
            smt = "(set-logic ALL)\n" + smt
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
            sm = parser.getSymbolManager()
            res = ""
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                if out:
                    res += str(out)
            if "unsat" in res:
                return "unsat", "cvc5", None
            return "unknown", "cvc5:" + res.strip()[:60], None
        except Exception as e:  # noqa: BLE001  (solver front-end limits are not verdicts)
            return "unknown", "cvc5:" + str(e)[:60], None


def nested_instance(t, c):
    """A universal fact over one integer with quantifiers inside, at c (it has no usable trigger)."""
    neg = False
    if z3.is_not(t):
        t, neg = t.arg(0), True
    if not z3.is_quantifier(t) or t.num_vars() != 1 or t.var_sort(0) != z3.IntSort():
        return []
    if (t.is_exists() if neg else t.is_forall()) and has_quantifier(t.body()):
        b = z3.substitute_vars(t.body(), c)
        return [Not(b) if neg else b]
    return []


def has_quantifier(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


SOLVERS = (
    ("cvc5 enum-inst-interleave", ["cvc5", "--enum-inst-interleave"], True),
    ("z3-ematch", ["z3-new", "smt.mbqi=false", "auto_config=false"], False),
    ("z3", ["z3-new"], False),
    ("z3 4.8", ["z3"], False),
    ("cvc5", ["cvc5"], True),
    ("cvc5 full-saturate-quant", ["cvc5", "--full-saturate-quant"], True),
)


def side_by_side(text, seconds):
    """Runs the command-line solvers on one query at the same time: (unsat or unknown, who)."""
    with tempfile.TemporaryDirectory(prefix="pyvc_") as d:
        paths = {}
        for logic in (False, True):
            paths[logic] = os.path.join(d, "l.smt2" if logic else "p.smt2")
            with open(paths[logic], "w") as f:
                f.write(("(set-logic ALL)\n" if logic else "") + text)
        procs = []
        for name, cmd, logic in SOLVERS:
            if shutil.which(cmd[0]):
                procs.append((name, subprocess.Popen([*cmd, paths[logic]], stdout=subprocess.PIPE, text=True,
                                                     stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)))
        end = time.time() + seconds
        said, live = [], list(procs)
        try:
            while live and time.time() < end:
                time.sleep(0.01)
                for q in list(live):
                    if q[1].poll() is None:
                        continue
                    live.remove(q)
                    out = q[1].stdout.read().strip().split("\n")[0]
                    if out == "unsat":
                        return "unsat", q[0]
                    said.append(f"{q[0]}: {out[:30]}")
        finally:
            for _, p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
                p.stdout.close()
        return "unknown", "; ".join(said + [f"{q[0]}: timeout" for q in live])


def negated_parts(goal, limit=12):
    """[(negation of a part, its constants)]: the goal holds when every one of them is unsatisfiable.

    Outer universal variables become fresh constants; conjunctions are split."""
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
        return [(n, cs + more) for n, more in negated_parts(z3.substitute_vars(goal.body(), *reversed(cs)), limit)]
    if z3.is_app_of(goal, z3.Z3_OP_IMPLIES):
        return [(And(goal.arg(0), n), more) for n, more in negated_parts(goal.arg(1), limit)]
    if z3.is_and(goal) and 1 < goal.num_args() <= limit:
        out = [p for c in goal.children() for p in negated_parts(c, limit)]
        if len(out) <= limit:
            return out
    return [(Not(goal), [])]


def mentions(t, prefix):
    """Whether a z3 term mentions a symbol whose name starts with prefix."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name().startswith(prefix):
                return True
            st.extend(x.children())
    return False


def symbols(t, out=None):
    out = set() if out is None else out
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out
