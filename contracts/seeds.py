"""Every random choice is made from a fixed seed (C35): the contracts of the functions which choose, with what their sources are."""
import z3

from contracts import pilot, prelim, pythia, sifted
from contracts.common import Wiring
from contracts.sifted import GEN, generator
from pyvc.sym import LibV, ObjC, Ref, SF, SInt, T, Unsupported, bool_t, to_f

INT = z3.IntSort()

SOURCES = {   # library function: (keyword, position) of its source, and when it chooses at all
    "sklearn.cluster.KMeans": ("random_state", None, None),
    "sklearn.model_selection.StratifiedKFold": ("random_state", None, "shuffle"),
    "sklearn.model_selection.KFold": ("random_state", None, "shuffle"),
    "sklearn.model_selection.train_test_split": ("random_state", None, None),
    "sklearn.model_selection.RandomizedSearchCV": ("random_state", None, None),
    "skopt.BayesSearchCV": ("random_state", None, None),
    "sklearn.svm.SVC": ("random_state", None, "probability"),
    "pygad.GA": ("random_seed", None, None),
    "scipy.stats.qmc.LatinHypercube": ("seed", None, None),
    "numpy.random.default_rng": ("seed", 0, None),
    "numpy.random.RandomState": ("seed", 0, None),
}
MADE = ("default_rng", "RandomState")
RS = LibV("numpy.random.RandomState")
SHARED = ("random", "random_sample", "rand", "randint")     # drawn from the generator which all code shares
LABEL = "random: "


class Seeded:
    """A contract whose random sources are checked as well; its own results are the business of the other properties."""
    focus = LABEL

    def configure(self, I):
        super().configure(I)
        I.lib.setdefault("method:numpy.random.Generator.random:plain", I.lib["method:numpy.random.Generator.random"])
        I.gens, I.loose = set(), set()
        I.lib["numpy.random.RandomState"] = lambda I, a, kw, nd: I.e.alloc(ObjC(RS, {}))
        for m in SHARED:
            I.lib["numpy.random." + m] = self.shared(m)
        for name, (kw, pos, when) in SOURCES.items():
            if name in I.lib:
                I.lib[name] = self.source(I.lib[name], name, kw, pos, when)
        for m in ("integers", "random"):
            k = "method:numpy.random.Generator." + m
            if k in I.lib:
                I.lib[k] = self.draw(I.lib[k])
        I.lib["method:numpy.random.RandomState.random"] = I.lib["method:numpy.random.Generator.random"]
        for c in list(I.contracts.values()):
            if c.apply is not None:
                I.contracts[c.qual] = Passing(c, self)

    def setup(self, I):
        I.gens.clear()
        I.loose.clear()
        vars_, c = super().setup(I)
        for v in vars_.values():
            if self.is_gen(I, v):       # the callers are checked to hand on only such
                I.gens.add(v.loc)
        return vars_, c

    def ensures(self, I, c, res):
        return []

    @staticmethod
    def is_gen(I, v):
        return isinstance(v, Ref) and isinstance(I.content(v), ObjC) and I.content(v).cls in (GEN, RS)

    def fixed(self, I, v):
        """A number made of the inputs and of earlier fixed choices, or a generator which started from one."""
        if v is None:
            return False
        if self.is_gen(I, v):
            return v.loc in I.gens
        if isinstance(v, bool) or isinstance(v, (int, float)):
            return True
        if isinstance(v, (SInt, SF)):
            t = v.t if isinstance(v, SInt) else to_f(v).val
            return not any(x.get_id() in I.loose for x in z3.z3util.get_vars(t))
        raise Unsupported("another source of random numbers")

    def source(self, base, name, key, pos, when):
        def f(I, a, kw, nd):
            v = kw.get(key, a[pos] if pos is not None and len(a) > pos else None)
            ok = self.fixed(I, v)
            short = name.split(".")[-1]
            need = T(True)
            if when is not None:
                w = kw.get(when, False)
                need = T(w) if isinstance(w, bool) else bool_t(w)
            if short in MADE:
                ok = ok and not I.once      # a generator kept from run to run goes on where the last run stopped
            I.e.oblige(f"{LABEL}{short} chooses from a fixed seed", z3.Implies(need, T(ok)), nd, "call")
            out = base(I, a, kw if ok or short in MADE else dict(kw, **{key: 0}), nd)
            if short in MADE and ok:
                I.gens.add(out.loc)
            return out
        return f

    @staticmethod
    def shared(name):
        def f(I, a, kw, nd):
            I.e.oblige(LABEL + "nothing is drawn from the generator which all code shares", T(False), nd, "call")
            if name == "randint":
                if len(a) not in (1, 2) or kw:
                    raise Unsupported("options of randint")
                x = I.e.const("draw", INT)
                I.loose.add(x.get_id())
                return SInt(x)
            size = (tuple(a) if name == "rand" else a[0] if a else kw.get("size"))
            return I.lib["method:numpy.random.Generator.random:plain"](I, None, [size], {}, nd)
        return f

    def draw(self, base):
        def f(I, v, a, kw, nd):
            out = base(I, v, a, kw, nd)
            I.e.oblige(LABEL + "numbers are drawn from a generator with a fixed seed", T(v.loc in I.gens), nd, "call")
            if v.loc not in I.gens and isinstance(out, SInt):
                I.loose |= {x.get_id() for x in z3.z3util.get_vars(out.t)}
            return out
        return f


class Passing:
    """A callee whose precondition is that the generator it is given started from a fixed seed."""

    def __init__(self, base, owner):
        self.base, self.owner = base, owner
        self.qual = base.qual
        self.name = getattr(base, "name", base.qual)

    def __getattr__(self, k):
        return getattr(self.base, k)

    def apply(self, I, f, v, node):
        for k, x in v.items():
            if self.owner.is_gen(I, x):
                I.e.oblige(f"{LABEL}{self.name} is handed a generator with a fixed seed", T(x.loc in I.gens), node, "pre")
        return self.base.apply(I, f, v, node)


def seeded(base):
    return type("Seeded" + type(base).__name__, (Seeded, type(base)), {})()


LHS = "scipy.stats.qmc.LatinHypercube"


class Params(Wiring):
    """The candidate settings: samples between the bounds, from the generator given."""
    qual = pythia.P + "_generate_params"
    name = "_generate_params"

    def configure(self, I):
        super().configure(I)
        cls = LibV(LHS)
        I.lib[LHS] = lambda I, a, kw, nd: I.e.alloc(ObjC(cls, {"d": kw.get("d", a[0] if a else None)}))

        def sample(I, v, a, kw, nd):
            I.e.trusted("scipy.stats.qmc.LatinHypercube: numbers in [0, 1), a row per sample")
            d, n = I.content(v).fields["d"], a[0] if a else kw["n"]
            return I.lib["method:numpy.random.Generator.random:plain"](I, v, [(n, d)], {}, nd)
        I.lib[f"method:{LHS}.random"] = sample

    def setup(self, I):
        I.calls.clear()
        return dict(rng=generator(I)), {}


TABLE = dict(pilot=["pilot"], sifted=["_sifted", "select_features_by_clustering", "evaluate_cluster", "_find_best_combination"],
             pythia=["pythia", "_fitmatsvm"], prelim=["_filter"])
MODS = dict(pilot=pilot, sifted=sifted, pythia=pythia, prelim=prelim)
ALL = [seeded(c) for m, names in TABLE.items() for c in MODS[m].ALL if c.name in names] + [seeded(Params())]
IMPORTS = ("prelim", "sifted", "pilot", "pythia")
