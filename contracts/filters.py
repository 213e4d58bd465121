"""Contracts of the density filter (C19)."""
import z3

from contracts.common import Stub, Wiring, same, value
from pyvc import sym
from pyvc.loops import LoopInv
from pyvc.sym import And, Implies, Not, Or, Ref, SF, T, Unsupported, bool_t, f_le, f_mul, to_f
from pyvc.verify import A, Contract, arr1, arr2, define, forall, inr, nat, same_arr

M = "instancespace.utils.filter"
INT = z3.IntSort()
TYPES = ("Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good")


class FilterInstance(Contract):
    qual = M + ":filter_instance"
    name = "filter_instance"
    LOCAL = "subset_index"

    def setup(self, I):
        n, d, a = nat(I, "n", 1), nat(I, "d", 1), nat(I, "a", 1)
        x, y, yb = arr2(I, "x", n, d), arr2(I, "y", n, a), arr2(I, "y_bin", n, a, "bool")
        md = SF(z3.Real("min_distance"))
        t = next((t for t in TYPES[:-1] if I.e.branch(z3.Bool("type_" + t))), TYPES[-1])
        c = dict(n=n, d=d, a=a, x=A(I, x), y=A(I, y), yb=A(I, yb), refs=(x, y, yb), md=md, t=t)
        I.both = define(I, "close_and_agree", [INT, INT], self.close(I, c))
        I.fc = c
        return dict(x=x, y=y, y_bin=yb, selvars_type=t, min_distance=md), c

    def close(self, I, c):
        """Both within the minimum distance and in the agreement asked for."""
        from pyvc.lib_sp import euclid
        x, y, yb = c["x"], c["y"], c["yb"]
        gamma = f_mul(to_f(I.lib["numpy.sqrt"](I, [sym.f_div(to_f(sym.SInt(c["a"])), to_f(sym.SInt(c["d"])))], {}, None)), c["md"])
        k = z3.Int("k!both")

        def both(i, j):
            out = f_le(euclid(I, lambda k: x(i, k), lambda k: x(j, k), c["d"]), c["md"])
            if "AP" in c["t"]:
                out = And(out, f_le(euclid(I, lambda k: y(i, k), lambda k: y(j, k), c["a"]), gamma))
            if "Good" in c["t"]:
                out = And(out, forall([k], Implies(inr(k, c["a"]), And(yb.b(i, k), yb.b(j, k)))))
            return out
        return both

    def configure(self, I):
        I.loop_invs[(self.qual, 0)] = LoopInv(self.outer, lambda *a: self.havoc(*a, outer=True), self.modifies)
        I.loop_invs[(self.qual, 1)] = LoopInv(self.inner, lambda *a: self.havoc(*a, outer=False), self.modifies)

    def sub(self, I, frame):
        v = frame.vars.get(self.LOCAL)
        if not isinstance(v, Ref) or len(A(I, v).shape) != 1 or A(I, v).dtype != "bool":
            raise Unsupported(f"the local {self.LOCAL} is not recognised")
        return v

    def arrays(self, I, frame):
        """The arrays made by the function itself."""
        mine = {r.loc for r in I.fc["refs"]}
        return {k: v for k, v in frame.vars.items() if isinstance(v, Ref) and v.loc not in mine and I.is_arr(v)}

    def removed_by(self, I, sub, j, k):
        """Some kept instance before k (and before j) is close to j and agrees with it."""
        i = z3.Int("i!rb")
        return z3.Exists([i], And(inr(i, k), i < j, Not(sub(i)), I.both(i, j)))

    def outer(self, I, frame, k, entry):
        s = A(I, self.sub(I, frame))
        n, j = I.fc["n"], I.e.generic("j")
        return [("as many marks as instances", s.shape[0] == n),
                ("removed so far: those close to an earlier kept instance", forall([j], Implies(
                    inr(j, n), s.b(j) == self.removed_by(I, s.b, j, k))))]

    def inner(self, I, frame, m, entry):
        s, s0 = A(I, self.sub(I, frame)), I.outer_sub
        i = I.outer_i
        n, j = I.fc["n"], I.e.generic("j")
        return [("as many marks as instances", s.shape[0] == n),
                ("the instances seen are removed when close", forall([j], Implies(inr(j, n), s.b(j) == Or(
                    s0(j), And(i < j, j < i + 1 + m, I.both(i, j))))))]

    def havoc(self, I, frame, k, entry, outer):
        for nm, v in self.arrays(I, frame).items():
            a = A(I, v)
            new = (arr1 if len(a.shape) == 1 else arr2)(I, I.e.fresh_name(nm), *a.shape, a.dtype)
            I.e.put(v, I.content(new))
        if outer:
            s = A(I, self.sub(I, frame))
            I.outer_i, I.outer_sub = k, s.b

    def modifies(self, I, entry, vars0):
        locs = {v.loc for v in self.arrays(I, type("F", (), {"vars": entry.vars})).values()}
        return {n for n in vars0 if n not in entry.vars} | {"i", "j", "dx", "dy", "db"}, locs

    def ensures(self, I, c, res):
        s = A(I, res[0])
        n = c["n"]
        i, j = I.e.generic("i"), I.e.generic("j")
        out = [("one mark per instance", s.shape[0] == n),
               ("no two kept instances are close and in agreement", forall([i, j], Implies(
                   And(inr(i, n), inr(j, n), i < j, Not(s.b(i)), Not(s.b(j))), Not(I.both(i, j))))),
               ("every removed instance has an earlier kept one for which both hold", forall([j], Implies(
                   And(inr(j, n), s.b(j)), self.removed_by(I, s.b, j, n)))),
               ("the first instance is kept", Implies(n > 0, Not(s.b(z3.IntVal(0)))))]
        for r, k in zip(c["refs"], ("x", "y", "yb")):
            out += same_arr(I, A(I, r), c[k], f"the {k} given is kept")
        return out


class DoFilter(Wiring):
    """The marks of the filter on exactly the data given are returned."""
    qual = M + ":do_filter"
    name = "do_filter"
    stubs = (Stub(M + ":filter_instance", lambda I, v: tuple(value(I, f"mark{k}", "bvec") for k in range(3))),
             Stub(M + ":compute_uniformity", lambda I, v: value(I, "uniformity", "float")))
    KINDS = dict(x="mat", y="mat", y_bin="bmat", selvars_type="str", min_distance="float")

    def setup(self, I):
        I.calls.clear()
        v = {k: value(I, k, t) for k, t in self.KINDS.items()}
        return dict(v), dict(v)

    def ensures(self, I, c, res):
        (f,), out = self.called(I, "filter_instance")
        out += self.passed(I, f, c, "the filter")
        for k in range(3):
            out += same(I, res[k], f[1][k], f"mark {k} is returned")
        for u in I.calls.get("compute_uniformity", []):
            out += self.passed(I, u, dict(x=c["x"], subset_index=f[1][0]), "the uniformity") + same(I, res[3], u[1], "the uniformity is returned")
        return out


ALL = [FilterInstance(), DoFilter()]
