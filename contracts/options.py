"""Contracts of the options (C10)."""
import z3

from contracts.builder import repo_cls
from contracts.common import OBJ, Stub, Wiring, same
from pyvc import sym
from pyvc.engine import usort
from pyvc.lib_pd import LOWER
from pyvc.loops import LoopInv
from pyvc.sym import And, ClassV, DictC, Implies, LibV, MapC, Not, ObjC, Or, PyRaise, RecV, Ref, SeqC, SU, T, Unsupported
from pyvc.verify import Contract, define, forall, inr, nat

M = "instancespace.data.options"
O = M + ":InstanceSpaceOptions."
INT, BOOL = z3.IntSort(), z3.BoolSort()
STR, CLS, FLD, DEF = (usort(x) for x in ("Str", "OptClass", "OptField", "OptDefaults"))
KT = ("u", "Str", STR)

# section -> (class, documented names of its options and their legacy names)
SECTIONS = {
    "parallel": ("ParallelOptions", {"flag": None, "n_cores": "ncores"}),
    "perf": ("PerformanceOptions", {"max_perf": "maxperf", "abs_perf": "absperf", "epsilon": None, "beta_threshold": "betathreshold"}),
    "auto": ("AutoOptions", {"preproc": None}),
    "bound": ("BoundOptions", {"flag": None}),
    "norm": ("NormOptions", {"flag": None}),
    "selvars": ("SelvarsOptions", {"small_scale_flag": "smallscaleflag", "small_scale": "smallscale", "file_idx_flag": "fileidxflag",
                                   "file_idx": "fileidx", "feats": None, "algos": None, "selvars_type": "type",
                                   "min_distance": "mindistance", "density_flag": "densityflag"}),
    "sifted": ("SiftedOptions", {"flag": None, "rho": None, "k": None, "n_trees": "ntrees", "max_iter": "maxiter", "replicates": None,
                                 "num_generations": None, "num_parents_mating": None, "sol_per_pop": None, "parent_selection_type": None,
                                 "k_tournament": None, "keep_elitism": None, "crossover_type": None, "cross_over_probability": None,
                                 "mutation_type": None, "mutation_probability": None, "stop_criteria": None}),
    "pilot": ("PilotOptions", {"x0": None, "alpha": None, "analytic": None, "n_tries": "ntries"}),
    "cloister": ("CloisterOptions", {"p_val": "pval", "c_thres": "cthres"}),
    "pythia": ("PythiaOptions", {"cv_folds": "cvfolds", "is_poly_krnl": "ispolykrnl", "use_weights": "useweights",
                                 "use_grid_search": "uselibsvm", "params": None}),
    "trace": ("TraceOptions", {"use_sim": "usesim", "purity": "pi"}),
    "outputs": ("OutputOptions", {"csv": None, "web": None, "png": None}),
}
# the documented default of every option: a constant of default_options, or None
IRREGULAR = {"sifted.n_trees": "SIFTED_NTREES", "sifted.num_generations": "SIFTED_NUM_GENERATION", "pilot.analytic": "PILOT_ANALYTICS",
             "sifted.cross_over_probability": "SIFTED_CROSSOVER_PROBABILITY", "selvars.selvars_type": "SELVARS_TYPE"}
NONE = {"selvars.feats", "selvars.algos", "pilot.x0", "pilot.alpha", "pythia.params"}


def constant(I, sec, opt):
    key = f"{sec}.{opt}"
    if key in NONE:
        return None
    name = IRREGULAR.get(key) or {"perf": "performance"}.get(sec, sec).upper() + "_" + opt.upper()
    return I.repo.lookup(I.repo.module("instancespace.data.default_options"), "DEFAULT_" + name, I)


def json_object(I, pre):
    """A JSON object: any number of members with pairwise different names, in some order."""
    n = nat(I, pre + "n")
    key, pos = z3.Function(pre + "key", INT, STR), z3.Function(pre + "pos", STR, INT)
    val = z3.Function(pre + "val", STR, OBJ)
    k = z3.Int("k!j")
    I.e.assume(z3.ForAll([k], Implies(inr(k, n), pos(key(k)) == k), patterns=[key(k)]))
    dom = lambda x: And(inr(pos(x), n), key(pos(x)) == x)
    m = MapC(KT, dom, lambda x: SU(val(x)))
    m.order = SeqC(n, lambda k: SU(key(k)), KT)
    return I.e.alloc(m), dict(n=n, key=key, val=val, dom=dom, pos=pos)


class Section:
    """One section, whatever its options: names, defaults and legacy names are symbolic."""

    def prepare(self, I):
        I.lib["dataclasses.fields"] = lambda I, a, kw, nd: self.fields_of(I, a)
        I.lib["builtins.getattr"] = self.getattr
        I.sort_attr[("OptField", "name")] = lambda I, t: SU(I.opt["fname"](t))
        I.sort_attr[("OptClass", "__name__")] = lambda I, t: "a section"
        I.sort_method[("OptClass", "default")] = self.default
        I.sort_method[("OptClass", "__call__")] = self.make
        I.sort_method[("Str", "lower")] = lambda I, t, a, kw: SU(LOWER(t))

    def fields_of(self, I, a):
        o = I.opt
        if not (isinstance(a[0], SU) and a[0].t.eq(o["cls"])):
            raise Unsupported("fields of another class")
        return I.e.alloc(SeqC(o["nf"], lambda k: SU(o["field"](k)), ("u", "OptField", FLD)))

    @staticmethod
    def default(I, t, a, kw):
        if a or kw or not t.eq(I.opt["cls"]):
            raise Unsupported("defaults with arguments")
        return SU(z3.Const("the_defaults", DEF))

    @staticmethod
    def getattr(I, a, kw, nd):
        if isinstance(a[0], SU) and a[0].t.sort() == DEF:
            return SU(I.opt["dflt"](I.enc(a[1], KT)))
        return I.getattr(a[0], a[1], nd)

    @staticmethod
    def make(I, t, a, kw):
        if a or set(kw) != {"**"} or not t.eq(I.opt["cls"]):
            raise Unsupported("the section is not made from a dict")
        m = I.content(kw["**"])
        if not isinstance(m, MapC):
            raise Unsupported("the section is not made from a dict")
        o = I.opt
        q, x = I.e.generic("q"), I.e.generic("x", STR)
        known = z3.Exists([q], And(inr(q, o["nf"]), o["name"](q) == x))
        I.e.oblige("the class is given exactly its options", And(
            forall([q], Implies(inr(q, o["nf"]), m.dom(o["name"](q)))), forall([x], Implies(m.dom(x), known))), None, kind="pre")
        return I.e.alloc(ObjC(LibV("spec.Section"), {"map": m}))

    def setup_section(self, I):
        nf = nat(I, "n_options", 1)
        field, fname = z3.Function("option", INT, FLD), z3.Function("option_name", FLD, STR)
        at = z3.Function("option_number", STR, INT)
        name = lambda k: fname(field(k))
        k = z3.Int("k!o")
        # the names are different and in lower case
        I.e.assume(z3.ForAll([k], Implies(inr(k, nf), And(at(name(k)) == k, LOWER(name(k)) == name(k))), patterns=[field(k)]))
        known = lambda x: And(inr(at(x), nf), name(at(x)) == x)
        o = dict(nf=nf, field=field, fname=fname, name=name, known=known, cls=z3.Const("the_class", CLS),
                 dflt=z3.Function("default_of", STR, OBJ))
        mref = None
        o["legacy"] = lambda x: T(False)
        o["own"] = lambda x: x
        o["ldom"] = lambda x: T(False)
        if I.e.branch(z3.Bool("mapping_given")):
            mref, m = json_object(I, "legacy_")
            # legacy names are in lower case, different from all own names except their own, and one for each option
            to = z3.Function("legacy_of", STR, STR)          # own name -> its legacy name, if it has one
            val = z3.Function("legacy_name_means", STR, STR)
            mc = I.content(mref)
            mm = MapC(KT, mc.dom, lambda x: SU(val(x)))
            mm.order = mc.order
            I.e.put(mref, mm)
            key = m["key"]
            I.e.assume(z3.ForAll([k], Implies(inr(k, m["n"]), And(
                LOWER(key(k)) == key(k), known(val(key(k))), to(val(key(k))) == key(k), Or(val(key(k)) == key(k), Not(known(key(k)))))),
                patterns=[key(k)]))
            o["ldom"] = m["dom"]
            o["own"] = lambda x: z3.If(m["dom"](x), val(x), x)
            o["legacy"] = lambda x: And(m["dom"](to(x)), val(to(x)) == x)
            o["to"] = to
        data, d = json_object(I, "data_")
        I.opt = o
        # the option meant by a member of the object
        o["means"] = define(I, "member_means", [INT], lambda k: o["own"](LOWER(d["key"](k))))
        under = z3.Const("lit_underscore", STR)
        o["bad"] = lambda k: And(Not(known(o["means"](k))), Not(o["means"](k) == I.enc("_", KT)))
        return data, mref, o, d

    @staticmethod
    def rejected(I, o, d):
        j, k = z3.Ints("j!r k!r")
        return Or(z3.Exists([k], And(inr(k, d["n"]), o["bad"](k))),
                  z3.Exists([j, k], And(0 <= j, j < k, k < d["n"], o["means"](j) == o["means"](k))))


class Validate(Section, Contract):
    """Rejected exactly when some member means no option, or two mean the same."""
    qual = O + "_validate_fields"
    name = "_validate_fields"

    def configure(self, I):
        self.prepare(I)
        I.loop_invs[(self.qual, 0)] = LoopInv(self.inv, self.havoc, self.modifies)

    def setup(self, I):
        data, m, o, d = self.setup_section(I)
        I.vd = d
        return dict(data_class=SU(o["cls"]), data=data, field_mapping=m), dict(o=o, d=d)

    def own(self, I, frame):
        r = [frame.vars.get(k) for k in ("mapped_json_fields", "value_errors")]
        if not all(isinstance(v, Ref) for v in r):
            raise Unsupported("the locals mapped_json_fields and value_errors are not recognised")
        return r

    def modifies(self, I, entry, vars0):
        fr = type("F", (), {"vars": entry.vars})
        return {n for n in vars0 if n not in entry.vars} | {"json_field", "value", "mapped_field"}, {v.loc for v in self.own(I, fr)}

    def havoc(self, I, frame, k, entry):
        m, v = self.own(I, frame)
        f, g = z3.Function(I.e.fresh_name("seen"), STR, BOOL), z3.Function(I.e.fresh_name("seenval"), STR, OBJ)
        I.e.put(m, MapC(KT, lambda x: f(x), lambda x: SU(g(x))))
        h = z3.Function(I.e.fresh_name("err"), INT, STR)
        n = z3.Int(I.e.fresh_name("n_err"))
        I.e.assume(n >= 0)
        I.e.put(v, SeqC(n, lambda j: SU(h(j)), KT))

    def inv(self, I, frame, k, entry):
        m, v = (I.content(x) for x in self.own(I, frame))
        o = I.opt
        if isinstance(m, DictC):
            if m.items:
                raise Unsupported("the names seen are not empty at first")
            dom = lambda x: T(False)
        else:
            dom = m.dom
        n = I.seq_of(v).n
        n = n if z3.is_expr(n) else z3.IntVal(n)
        x, j, i = I.e.generic("x", STR), I.e.generic("j"), I.e.generic("i")
        jj = z3.Int("j!v")
        return [("the options seen", forall([x], dom(x) == z3.Exists([jj], And(inr(jj, k), o["means"](jj) == x)))),
                ("each is seen once", forall([i, j], Implies(And(0 <= i, i < j, j < k), o["means"](i) != o["means"](j)))),
                ("errors: the members which mean no option", (n > 0) == z3.Exists([jj], And(inr(jj, k), o["bad"](jj))))]

    def ensures(self, I, c, res):
        return [("accepted only if every member means one option, and none twice", Not(self.rejected(I, c["o"], c["d"])))]

    def raises(self, I, c, exc):
        return [("rejects with ValueError", T(exc.name == "ValueError")), ("rejected only for a reason", self.rejected(I, c["o"], c["d"]))]

    def apply(self, I, f, v, node):
        o, d = I.opt, I.vd
        if not (isinstance(v["data_class"], SU) and v["data_class"].t.eq(o["cls"]) and v["data"] == d["ref"] and (
                v["field_mapping"] == d["mref"] or d["mref"] is None)):
            raise Unsupported("the names are not checked for this section")
        I.validated = True
        bad = self.rejected(I, o, d)
        if I.e.branch(bad):
            raise PyRaise(LibV("builtins.ValueError"), None, node)
        i, j = I.e.generic("i"), I.e.generic("j")
        I.e.assume(forall([i, j], Implies(And(0 <= i, i < j, j < d["n"]), o["means"](i) != o["means"](j))))
        I.e.assume(forall([i], Implies(inr(i, d["n"]), Not(o["bad"](i)))))
        return None


class Load(Section, Contract):
    """Every option given has exactly its value, every other one its default."""
    qual = O + "_load_dataclass"
    name = "_load_dataclass"
    uses = ("_validate_fields",)

    def configure(self, I):
        self.prepare(I)

    def setup(self, I):
        data, m, o, d = self.setup_section(I)
        d.update(ref=data, mref=m)
        I.vd, I.validated = d, False
        obj = I.e.branch(z3.Bool("is_object"))
        arg = data if obj else I.e.alloc(ObjC(LibV("spec.json_value"), {}))
        return dict(data_class=SU(o["cls"]), data=arg, field_mapping=m), dict(o=o, d=d, obj=obj)

    def ensures(self, I, c, res):
        o, d = c["o"], c["d"]
        out = [("only an object is loaded", T(c["obj"])), ("unknown and repeated options are rejected", Not(self.rejected(I, o, d)))]
        if not (isinstance(res, Ref) and isinstance(I.content(res), ObjC) and "map" in I.content(res).fields):
            raise Unsupported("the section is not made from its class")
        m = I.content(res).fields["map"]
        q, k = I.e.generic("q"), I.e.generic("k")
        kk = z3.Int("k!g")
        nm = o["name"](q)
        got = lambda q: I.enc(m.get(o["name"](q)), ("u", "Obj", OBJ))
        given = lambda q: z3.Exists([kk], And(inr(kk, d["n"]), o["means"](kk) == o["name"](q)))
        return out + [
            ("every option given has its value", forall([q, k], Implies(And(inr(q, o["nf"]), inr(k, d["n"]), o["means"](k) == nm),
                                                                        got(q) == d["val"](d["key"](k))))),
            ("every other option has its default", forall([q], Implies(And(inr(q, o["nf"]), Not(given(q))), got(q) == o["dflt"](nm)))),
            ("the object is not changed", T(I.content(d["ref"]).get(d["key"](z3.Int("k!x"))).t.eq(d["val"](d["key"](z3.Int("k!x"))))))]

    def raises(self, I, c, exc):
        return [("rejects with ValueError", T(exc.name == "ValueError")),
                ("rejected only for a reason", Or(T(not c["obj"]), self.rejected(I, c["o"], c["d"])))]


def section_result(I, v):
    key = f"loads_{len(I.calls.get('_load_dataclass', []))}"
    if I.e.branch(z3.Bool(key + "_rejected")):
        I.rejected = True
        raise PyRaise(LibV("builtins.ValueError"), None, None)
    return I.e.alloc(ObjC(LibV("spec.Section"), {"of": v["data_class"]}))


class FromDict(Wiring):
    """Every section is loaded from the member of its name, with its legacy names; other members are rejected."""
    qual = O + "from_dict"
    name = "from_dict"
    stubs = (Stub(O + "_load_dataclass", section_result),)

    def setup(self, I):
        I.calls.clear()
        I.rejected = False
        if not I.e.branch(z3.Bool("is_object")):
            return dict(file_contents=I.e.alloc(ObjC(LibV("spec.json_value"), {}))), dict(obj=False)
        ref, d = json_object(I, "file_")
        mem = {}

        def member(k, dflt):
            if not isinstance(k, str):
                raise Unsupported("a member of a symbolic name")
            mem.setdefault(k, []).append(dflt)
            return I.e.alloc(ObjC(LibV("spec.Member"), {"name": k, "default": dflt}))
        I.content(ref).lazy_get = member
        return dict(file_contents=ref), dict(obj=True, d=d, ref=ref)

    def extra(self, I, c):
        k = z3.Int("k!e")
        d = c["d"]
        return z3.Exists([k], And(inr(k, d["n"]), *[Not(d["key"](k) == I.enc(s, KT)) for s in SECTIONS]))

    def member_goals(self, I, v, sec, label):
        x = I.content(v).fields if isinstance(v, Ref) and isinstance(I.content(v), ObjC) else {}
        if "default" not in x:
            raise Unsupported("the members are not taken by name")
        d = I.content(x["default"]) if isinstance(x["default"], Ref) else None
        return [(f"{label} is that member, or nothing is given", T(x["name"] == sec and isinstance(d, DictC) and not d.items))]

    def ensures(self, I, c, res):
        calls, out = self.called(I, "_load_dataclass", len(SECTIONS))
        out += [("only an object is loaded", T(c["obj"])), ("unknown sections are rejected", Not(self.extra(I, c)))]
        for sec, (cls, opts) in SECTIONS.items():
            got = I.getattr(res, sec)
            hit = [v for v, r in calls if r is got or r == got]
            if len(hit) != 1:
                return out + [(f"{sec} is a loaded section", T(False))]
            v = hit[0]
            dc = v["data_class"]
            out.append((f"{sec} has its class", T(isinstance(dc, ClassV) and dc.name == cls)))
            out += self.member_goals(I, v["data"], sec, f"{sec} from the file")
            m = I.content(v["field_mapping"]).items if isinstance(v.get("field_mapping"), Ref) else {}
            want = {l: o for o, l in opts.items() if l}
            m = {k: w for k, w in m.items() if k != w}        # a name for itself says nothing
            out.append((f"{sec}: its documented legacy names", T(m == want)))
            names = {n for n, _ in I.all_fields(dc)} if isinstance(dc, ClassV) else set()
            # what _load_dataclass assumes of names
            out.append((f"{sec}: names and legacy names do not clash", T(names == set(opts) and all(n == n.lower() for n in names) and all(
                k == k.lower() and w in names and k not in names for k, w in m.items()) and len(set(m.values())) == len(m))))
        return out

    def raises(self, I, c, exc):
        return [("rejects with ValueError", T(exc.name == "ValueError")),
                ("rejected only for a reason", Or(T(not c["obj"]), T(I.rejected), self.extra(I, c) if c["obj"] else T(False)))]


FILE_ERRORS = ("FileNotFoundError", "PermissionError", "OSError", "UnicodeDecodeError")


class FromJsonFile(Wiring):
    """A file which cannot be read or is rejected gives nothing; otherwise the options of its content."""
    qual = M + ":from_json_file"
    name = "from_json_file"

    def configure(self, I):
        def parsed(I, v):
            if I.e.branch(z3.Bool("is_rejected")):
                I.failed = True
                raise PyRaise(LibV("builtins.ValueError"), None, None)
            return I.e.alloc(ObjC(LibV("spec.Options"), {}))
        self.stubs = (Stub(O + "from_dict", parsed),)
        super().configure(I)
        I.lib["builtins.print"] = lambda I, a, kw, nd: None
        fail = lambda names, nd: [self.fail(I, n, nd) for n in names if I.e.branch(z3.Bool("raises_" + n.split(".")[-1]))]

        def opened(I, v, a, kw, nd):
            if a not in ([], ["r"]):
                raise Unsupported("opened in another mode")
            I.e.trusted("Path.open and read: the text of the file, or OSError or UnicodeDecodeError")
            fail(["builtins." + x for x in FILE_ERRORS[:3]], nd)
            return I.e.alloc(ObjC(LibV("spec.File"), {"path": v}))

        def read(I, v, a, kw, nd):
            fail(["builtins.UnicodeDecodeError"], nd)
            I.read.append(I.content(v).fields["path"])
            return SU(z3.Const("file_text", STR))

        def text(I, v, a, kw, nd):
            return read(I, opened(I, v, [], {}, nd), [], {}, nd)

        def loads(I, a, kw, nd):
            if kw or len(a) != 1:
                raise Unsupported("json.loads with options")
            if isinstance(a[0], Ref):
                a = [read(I, a[0], [], {}, nd)]
            I.e.trusted("json.loads: the document of the text, or JSONDecodeError")
            fail(["json.JSONDecodeError"], nd)
            I.loaded = (a[0], I.e.alloc(ObjC(LibV("spec.Document"), {})))
            return I.loaded[1]
        I.lib["method:pathlib.Path.open"] = opened
        I.lib["method:pathlib.Path.read_text"] = text
        I.lib["method:spec.File.read"] = read
        I.lib["json.loads"] = I.lib["json.load"] = loads

    @staticmethod
    def fail(I, ex, nd):
        I.failed = True
        raise PyRaise(LibV(ex), None, nd)

    def setup(self, I):
        from contracts.space import path as a_path
        I.calls.clear()
        I.failed, I.read, I.loaded = False, [], None
        text = SU(z3.Const("path", STR))
        p = a_path(I, text)
        return dict(file_path=text if I.e.branch(z3.Bool("path_is_text")) else p), {}

    def ensures(self, I, c, res):
        if I.failed:
            return [("what cannot be read or is rejected gives nothing", T(res is None))]
        (call,), out = self.called(I, "from_dict")
        if len(I.read) != 1 or I.loaded is None:
            raise Unsupported("the file is not read once")
        (where,) = I.content(I.read[0]).fields["parts"]
        return out + [("the file given is read", T(where.t.eq(z3.Const("path", STR)))),
                      ("its whole text is parsed", T(I.loaded[0].t.eq(z3.Const("file_text", STR)))),
                      ("the options are those of the document", T(call[0]["file_contents"] == I.loaded[1])),
                      ("the result is what is loaded", T(isinstance(res, Ref) and res == call[1]))]


class Default(Contract):
    """Arguments which are given under their own names, documented constants elsewhere."""

    def __init__(self, sec):
        self.sec = sec
        self.cls, self.opts = SECTIONS[sec]
        self.qual = f"{M}:{self.cls}.default"
        self.name = f"default_{sec}"

    def setup(self, I):
        f = I.class_attr(repo_cls(I, M, self.cls), "default", None, None)
        if f is None:
            raise Unsupported("default is gone")
        names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        v = {n: SU(z3.Const("given_" + n, OBJ)) for n in names} if I.e.branch(z3.Bool("given")) else {}
        return v, dict(v=v)

    def ensures(self, I, c, res):
        out = [("an instance of the section", T(isinstance(res, RecV) and res.cls.name == self.cls and set(res.fields) == set(self.opts)))]
        for o in self.opts:
            got = I.getattr(res, o)
            if o in c["v"]:
                out.append((f"{o} as given", T(got is c["v"][o])))
            else:
                want = constant(I, self.sec, o)
                out.append((f"{o}: its documented default", T(type(got) is type(want) and got == want)))
        return out


class WholeDefault(Contract):
    """A section which is given, and the defaults of the others."""
    qual = O + "default"
    name = "default_options"

    def configure(self, I):
        for sec, (cls, _) in SECTIONS.items():
            I.contracts[f"{M}:{cls}.default"] = Stub(f"{M}:{cls}.default", lambda I, v, cls=cls: I.e.alloc(
                ObjC(LibV("spec.Default"), {"of": cls})), name="default_" + sec)

    def setup(self, I):
        secs = list(SECTIONS)
        I.calls = {}
        for s in secs:
            if I.e.branch(z3.Bool("only_" + s)):
                pick = [s]
                break
        else:
            pick = secs if I.e.branch(z3.Bool("all")) else []
        v = {s: RecV(repo_cls(I, M, SECTIONS[s][0]), {o: SU(z3.Const(f"{s}_{o}", OBJ)) for o in SECTIONS[s][1]}) for s in pick}
        return v, dict(v=v)

    def ensures(self, I, c, res):
        out = []
        for s, (cls, _) in SECTIONS.items():
            got = I.getattr(res, s)
            if s in c["v"]:
                out.append((f"{s} as given", T(got is c["v"][s])))
            else:
                x = I.content(got) if isinstance(got, Ref) else None
                out.append((f"{s}: its defaults", T(isinstance(x, ObjC) and x.fields.get("of") == cls)))
                args = [v for v, r in I.calls.get("default_" + s, []) if r == got]
                # the stub binds omitted arguments to their declared defaults
                out.append((f"{s}: defaults of nothing else", T(len(args) == 1)))
        return out


ALL = [Validate(), Load(), FromDict(), FromJsonFile(), *[Default(s) for s in SECTIONS], WholeDefault()]
