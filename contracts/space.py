"""Contracts of the inputs, the model and the space (C12, C30)."""
import z3

from contracts.builder import repo_cls
from contracts.common import OBJ, Stub, Wiring, record, same, value
from pyvc import sym
from pyvc.engine import usort
from pyvc.sym import And, DictC, Implies, Not, ObjC, Or, PyRaise, RecV, Ref, SU, T, Unsupported, int_t
from pyvc.verify import Contract, forall, inr, term_eq

D = "instancespace.data.model"
O = "instancespace.data.options"
S = "instancespace.instance_space"

DATA = dict(inst_labels="ser", feat_labels="strs", algo_labels="strs", x="mat", y="mat", x_raw="mat", y_raw="mat", y_bin="bmat",
            y_best="vec", p="ivec", num_good_algos="vec", beta="bvec", s="ser?")
PRELIM = dict(med_val="vec", iq_range="vec", hi_bound="vec", lo_bound="vec", min_x="vec", lambda_x="vec", mu_x="vec", sigma_x="vec",
              min_y="float", lambda_y="vec", sigma_y="vec", mu_y="vec")
SIFTED = dict(selvars="ivec", idx="ivec", rho="obj", pval="obj", silhouette_scores="obj", clust="obj")
PILOT = dict(X0="obj", alpha="obj", eoptim="obj", perf="obj", a="mat", z="mat", c="mat", b="mat", error="float", r2="vec", summary="obj")
CLOISTER = dict(z_edge="mat", z_ecorr="mat")
PYTHIA = dict(mu="obj", sigma="obj", cp="obj", svm="obj", cvcmat="mat", y_sub="bmat", y_hat="bmat", pr0_sub="mat", pr0_hat="mat",
              box_consnt="obj", k_scale="obj", precision="obj", recall="obj", accuracy="obj", selection0="ivec", selection1="ivec",
              summary="obj")
TRACE = dict(space="obj", good="obj", best="obj", hard="obj", summary="obj")
FEATSEL = dict(idx="ivec")
PARTS = {"Data": DATA, "PrelimOut": PRELIM, "SiftedOut": SIFTED, "PilotOut": PILOT, "CloisterOut": CLOISTER, "PythiaOut": PYTHIA,
         "TraceOut": TRACE, "FeatSel": FEATSEL}
SUMMARY = {"PilotOut": "pilot_summary", "PythiaOut": "pythia_summary", "TraceOut": "trace_summary"}


def run_output(I, parts=None):
    """All named results of a run (the names of other parts too, with other values)."""
    out = {}
    for part, kinds in PARTS.items():
        for k, t in kinds.items():
            k = SUMMARY[part] if k == "summary" else k
            if k not in out:
                if t.endswith("?") and parts is not None and part not in parts:
                    t = t[:-1]
                out[k] = value(I, "run_" + k, t)
    return I.e.alloc(DictC(out)), out


def part_goals(I, part, got, out, label):
    goals = []
    for k in PARTS[part]:
        v = I.getattr(got, k)
        w = out[SUMMARY[part] if k == "summary" else k]
        if k in ("selection0", "selection1"):
            from pyvc.verify import A, forall, inr
            new, old = A(I, v), A(I, w)
            i = I.e.generic("i")
            goals += [(f"{label}{k}: one per instance", new.shape[0] == old.shape[0]),
                      (f"{label}{k}: algorithms count from one, none is zero", forall([i], sym.Implies(inr(i, old.shape[0]), new.i(i) == old.i(i) + 1)))]
        else:
            goals += same(I, v, w, f"{label}{k} is the result of that name")
    return goals


class Part(Contract):
    """One part of the model from the results of the run."""

    def __init__(self, part):
        self.part = part
        self.qual = f"{D}:{part}.from_stage_runner_output"
        self.name = part

    def setup(self, I):
        ref, out = run_output(I, {self.part})
        return dict(cls=repo_cls(I, D, self.part), stage_runner_output=ref), dict(out=out, ref=ref)

    def ensures(self, I, c, res):
        out = part_goals(I, self.part, res, c["out"], "")
        now = I.content(c["ref"]).items
        return out + [("the results of the run are not changed", T(set(now) == set(c["out"]) and all(
            now[k] is c["out"][k] or now[k] == c["out"][k] for k in now)))]


class WholeModel(Contract):
    qual = "instancespace.model:Model.from_stage_runner_output"
    name = "Model"
    FIELDS = dict(data="Data", feat_sel="FeatSel", prelim="PrelimOut", sifted="SiftedOut", pilot="PilotOut", cloister="CloisterOut",
                  pythia="PythiaOut", trace="TraceOut")

    def setup(self, I):
        ref, out = run_output(I)
        o = SU(z3.Const("options", OBJ))
        return dict(cls=repo_cls(I, "instancespace.model", "Model"), stage_runner_output=ref, options=o), dict(out=out, o=o)

    def ensures(self, I, c, res):
        goals = same(I, I.getattr(res, "opts"), c["o"], "opts are the options of the run")
        for f, part in self.FIELDS.items():
            goals += part_goals(I, part, I.getattr(res, f), c["out"], f"{f}.")
        return goals


OPTS = dict(parallel=("ParallelOptions", dict(flag="bool", n_cores="int")),
            perf=("PerformanceOptions", dict(max_perf="bool", abs_perf="bool", epsilon="float", beta_threshold="float")),
            auto=("AutoOptions", dict(preproc="bool")), bound=("BoundOptions", dict(flag="bool")), norm=("NormOptions", dict(flag="bool")),
            selvars=("SelvarsOptions", {}), sifted=("SiftedOptions", {}), pilot=("PilotOptions", {}), cloister=("CloisterOptions", {}),
            pythia=("PythiaOptions", {}), trace=("TraceOptions", {}), outputs=("OutputOptions", {}))


def options(I):
    parts = {k: record(I, O, c, kinds, f"{k}_") for k, (c, kinds) in OPTS.items()}
    return RecV(repo_cls(I, O, "InstanceSpaceOptions"), parts)


def prelim_goals(I, p, o):
    f = o.fields
    want = dict(bound=f["bound"].fields["flag"], norm=f["norm"].fields["flag"], **f["perf"].fields)
    return [g for k, w in want.items() for g in same(I, I.getattr(p, k), w, f"preparation option {k}")]


class FromOptions(Contract):
    qual = O + ":PrelimOptions.from_options"
    name = "from_options"

    def setup(self, I):
        o = options(I)
        return dict(options=o), dict(o=o)

    def ensures(self, I, c, res):
        return prelim_goals(I, res, c["o"])


META = dict(feature_names="strs", algorithm_names="strs", instance_labels="ser", instance_sources="ser?", features="mat", algorithms="mat")


class Inputs(Contract):
    qual = S + ":_InstanceSpaceInputs.from_metadata_and_options"
    name = "from_metadata_and_options"

    def setup(self, I):
        m, o = record(I, "instancespace.data.metadata", "Metadata", META, "meta_"), options(I)
        return dict(cls=repo_cls(I, S, "_InstanceSpaceInputs"), metadata=m, options=o), dict(m=m, o=o)

    def ensures(self, I, c, res):
        out = [g for k, w in c["m"].fields.items() for g in same(I, I.getattr(res, k), w, f"the stages get {k}")]
        for k, w in c["o"].fields.items():
            out.append((f"the stages get the {k} options", T(I.getattr(res, k + "_options") is w)))
        return out + prelim_goals(I, I.getattr(res, "prelim_options"), c["o"])


# ------------------------------------------------------------------ the space
def space(I, **f):
    base = dict(_runner=SU(z3.Const("runner", OBJ)), _stages=SU(z3.Const("stages", OBJ)), _metadata=SU(z3.Const("metadata", OBJ)),
                _options=SU(z3.Const("options", OBJ)), _model=None, _final_output=None)
    return I.e.alloc(ObjC(repo_cls(I, S, "InstanceSpace"), {**base, **f}))


class FromFiles(Wiring):
    """The space of exactly the two files given, or nothing."""
    qual = S + ":instance_space_from_files"
    name = "instance_space_from_files"
    stubs = (Stub("instancespace.data.metadata:from_csv_file", lambda I, v: record(I, "instancespace.data.metadata", "Metadata", META, "meta_")
                  if I.e.branch(z3.Bool("metadata_readable")) else None),
             Stub("instancespace.data.options:from_json_file", lambda I, v: options(I) if I.e.branch(z3.Bool("options_readable")) else None),
             Stub(S + ":InstanceSpace.__init__", lambda I, v: None, name="InstanceSpace"))

    def setup(self, I):
        I.calls.clear()
        m, o = SU(z3.Const("metadata_path", OBJ)), SU(z3.Const("options_path", OBJ))
        return dict(metadata_filepath=m, options_filepath=o), dict(m=m, o=o)

    def ensures(self, I, c, res):
        calls = I.calls
        out = []
        for n, p in (("from_csv_file", c["m"]), ("from_json_file", c["o"])):
            for call in calls.get(n, []):
                out += self.passed(I, call, dict(file_path=p), n)
        ok = len(calls.get("from_csv_file", [])) == 1 and len(calls.get("from_json_file", [])) == 1
        m = calls["from_csv_file"][0][1] if calls.get("from_csv_file") else None
        o = calls["from_json_file"][0][1] if calls.get("from_json_file") else None
        if m is None or o is None:
            return out + [("nothing is given when a file is missing, unreadable or invalid", T(res is None)),
                          ("no space is made", T(not calls.get("InstanceSpace")))]
        sp, _ = self.called(I, "InstanceSpace")
        v = sp[0][0]
        return out + [("both files are read once", T(ok)), ("the space is given back", T(isinstance(res, Ref) and res == v["self"])),
                      ("the space has the metadata of the file", T(v["metadata"] is m)),
                      ("the space has the options of the file", T(v["options"] is o)),
                      ("the standard stages are used", T(not given(I, v, "additional_initial_inputs_type")))]


def given(I, v, k):
    return v.get(k) is not None


class FromDirectory(Wiring):
    qual = S + ":instance_space_from_directory"
    name = "instance_space_from_directory"
    stubs = (Stub(S + ":instance_space_from_files", lambda I, v: SU(z3.Const("the_space", OBJ)) if I.e.branch(z3.Bool("loads")) else None),)

    def setup(self, I):
        I.calls.clear()
        d = path(I, "dir")
        return dict(directory=d), dict(d=d)

    def ensures(self, I, c, res):
        (call,), out = self.called(I, "instance_space_from_files")
        v, r = call
        for k, leaf in (("metadata_filepath", "metadata.csv"), ("options_filepath", "options.json")):
            p = I.content(v[k]).fields if isinstance(v.get(k), Ref) else {}
            out.append((f"{leaf} of the directory", T(p.get("parts") == ("dir", leaf))))
        return out + [("its result is given back", T(res is r))]


def path(I, *parts):
    """A path, known by its parts."""
    from pyvc.sym import LibV
    P = LibV("pathlib.Path")

    def join(I, v, a, kw, nd):
        return path(I, *I.content(v).fields["parts"], *a)

    def make(I, a, kw, nd):
        return a[0] if isinstance(a[0], Ref) else path(I, *a)
    I.lib["method:pathlib.Path.__truediv__"] = join
    I.lib["method:pathlib.Path.joinpath"] = join
    I.lib["pathlib.Path"] = make
    return I.e.alloc(ObjC(P, {"parts": tuple(parts)}))


ARGS = usort("StageArgument")


def arguments(I, name):
    """The stage arguments of a named tuple: any set."""
    f = z3.Function("args_of_" + name, ARGS, z3.BoolSort())
    return I.e.alloc(sym.SetC(("u", ARGS), lambda a: f(a))), f


class Init(Wiring):
    """The stages given, however many, are added once each, and the schedule is built for all inputs of a run."""
    qual = S + ":InstanceSpace.__init__"
    name = "InstanceSpace"
    B = "instancespace.stage_builder:StageBuilder."

    def configure(self, I):
        super().configure(I)
        B = self.B
        for s in (Stub(B + "__init__", self.begin, name="StageBuilder"), Stub(B + "add_stage", self.add),
                  Stub(B + "_named_tuple_to_stage_arguments", self.args), Stub(B + "build", lambda I, v: value(I, "built_runner", "obj"))):
            I.contracts[s.qual] = s

    def begin(self, I, v):
        I.setattr(v["self"], "added_so_far", I.list_([]))

    def add(self, I, v):
        I.call_method(I.getattr(v["self"], "added_so_far"), "append", [v["stage"]], {}, None)
        return v["self"]

    def args(self, I, v):
        t = v["named_tuple"]
        nm = "extra" if isinstance(t, SU) else t.qual.split(":")[1] if isinstance(t, sym.ClassV) else None
        if nm not in ("extra", "_InstanceSpaceInputs"):
            raise Unsupported("the initial inputs are found differently")
        return arguments(I, nm)[0]

    def setup(self, I):
        I.calls.clear()
        m, o = SU(z3.Const("metadata", OBJ)), SU(z3.Const("options", OBJ))
        st = value(I, "stages_given", "objs")
        more = value(I, "extra_inputs", "obj?")
        me = I.e.alloc(ObjC(repo_cls(I, S, "InstanceSpace"), {}))
        return dict(self=me, metadata=m, options=o, stages=st, additional_initial_inputs_type=more), dict(
            m=m, o=o, st=st, me=me, seq=I.seq_of(I.content(st)), more=more)

    def ensures(self, I, c, res):
        f = I.e.get(c["me"]).fields
        (b,), out = self.called(I, "build")
        given = b[0].get("initial_input_arguments")
        if given is None:
            raise Unsupported("building no longer takes the initial inputs")
        x = I.content(given)
        if not isinstance(x, sym.SetC):
            raise Unsupported("the initial inputs are not a set")
        a = z3.Const("a!in", ARGS)
        own, extra = arguments(I, "_InstanceSpaceInputs")[1], arguments(I, "extra")[1]
        want = Or(own(a), extra(a)) if c["more"] is not None else own(a)
        added = I.seq_of(I.content(I.getattr(b[0]["self"], "added_so_far")))
        k = I.e.generic("k")
        n, w = int_t(added.n) if not z3.is_expr(added.n) else added.n, c["seq"].n
        return out + same(I, f["_metadata"], c["m"], "the metadata are kept") + same(I, f["_options"], c["o"], "the options are kept") + same(
            I, f["_runner"], b[1], "the runner built") + [
                ("nothing has been run", T(f["_model"] is None and f["_final_output"] is None)),
                ("every stage given is added once", And(n == w, forall([k], Implies(inr(k, w), term_eq(I, added.get(k), c["seq"].get(k)))))),
                ("the schedule is built for all inputs of a run", forall([a], x.mem(a) == want))]


class Build(Wiring):
    """The whole run on the inputs of this space; the model is that of its results."""
    qual = S + ":InstanceSpace.build"
    name = "build"
    stubs = (Stub(S + ":_InstanceSpaceInputs.from_metadata_and_options", lambda I, v: value(I, "inputs", "obj")),
             Stub("instancespace.stage_runner:StageRunner.run_all", lambda I, v: value(I, "results", "obj")),
             Stub("instancespace.model:Model.from_stage_runner_output", lambda I, v: value(I, "the_model", "obj"), name="Model"))

    def setup(self, I):
        I.calls.clear()
        run = I.e.alloc(ObjC(repo_cls(I, "instancespace.stage_runner", "StageRunner"), {}))
        old = I.e.branch(z3.Bool("ran_before"))
        me = space(I, _runner=run, **(dict(_model=SU(z3.Const("old_model", OBJ)), _final_output=SU(z3.Const("old_output", OBJ))) if old else {}))
        return dict(self=me), dict(me=me, run=run, f=I.e.get(me).fields)

    def ensures(self, I, c, res):
        (i,), out = self.called(I, "from_metadata_and_options")
        (r,), _ = self.called(I, "run_all")
        (m,), _ = self.called(I, "Model")
        f = I.e.get(c["me"]).fields
        out += self.passed(I, i, dict(metadata=c["f"]["_metadata"], options=c["f"]["_options"]), "the run")
        out += self.passed(I, r, dict(additional_arguments=i[1]), "the run") + [("the runner of this space", T(r[0]["self"] == c["run"]))]
        out += self.passed(I, m, dict(stage_runner_output=r[1], options=c["f"]["_options"]), "the model")
        out += same(I, res, m[1], "the model is given back") + same(I, f["_model"], m[1], "the model is kept")
        return out + same(I, f["_final_output"], r[1], "the results are kept") + [
            ("nothing else changes", T(all(f[k] is c["f"][k] for k in f if k not in ("_model", "_final_output"))))]


class RunUntil(Wiring):
    qual = S + ":InstanceSpace.run_until_stage"
    name = "run_until_stage"
    inner = "run_until_stage"
    stubs = (Build.stubs[0], Stub("instancespace.stage_runner:StageRunner.run_until_stage", lambda I, v: value(I, "results", "obj")))

    def setup(self, I):
        I.calls.clear()
        run = I.e.alloc(ObjC(repo_cls(I, "instancespace.stage_runner", "StageRunner"), {}))
        me = space(I, _runner=run)
        t = SU(z3.Const("stage", OBJ))
        return dict(self=me, stage=t), dict(me=me, run=run, t=t, f=I.e.get(me).fields)

    def ensures(self, I, c, res):
        (i,), out = self.called(I, "from_metadata_and_options")
        (r,), _ = self.called(I, self.inner)
        out += self.passed(I, i, dict(metadata=c["f"]["_metadata"], options=c["f"]["_options"]), "the run")
        out += self.passed(I, r, dict(stop_at_stage=c["t"], additional_arguments=i[1]), "the run")
        return out + same(I, res, r[1], "the values are given back")


class ModelOf(Wiring):
    """The model of the last full run, made once; an error before any full run."""
    qual = S + ":InstanceSpace.model"
    name = "model"
    stubs = (Build.stubs[2],)

    def setup(self, I):
        I.calls.clear()
        f = {k: SU(z3.Const("the" + k, OBJ)) if I.e.branch(z3.Bool("has" + k)) else None for k in ("_model", "_final_output")}
        me = space(I, **f)
        return dict(self=me), dict(me=me, f=I.e.get(me).fields)

    def ensures(self, I, c, res):
        f = I.e.get(c["me"]).fields
        if c["f"]["_model"] is not None:
            return same(I, res, c["f"]["_model"], "the model made before is given back")
        (m,), out = self.called(I, "Model")
        return out + self.passed(I, m, dict(stage_runner_output=c["f"]["_final_output"], options=c["f"]["_options"]), "the model") + same(
            I, res, m[1], "the model of the results") + same(I, f["_model"], m[1], "the model is kept")

    def raises(self, I, c, ex):
        return [("a running error", T(ex.name == "StageRunningError")),
                ("only before a full run", T(c["f"]["_model"] is None and c["f"]["_final_output"] is None))]


class RunOne(Wiring):
    """The stage asked for, with the arguments given, on the runner of this space; its outputs are given back."""
    qual = S + ":InstanceSpace.run_stage"
    name = "run_stage"
    stubs = (Stub("instancespace.stage_runner:StageRunner.run_stage", lambda I, v: value(I, "outputs", "obj")),)

    def setup(self, I):
        I.calls.clear()
        run = I.e.alloc(ObjC(repo_cls(I, "instancespace.stage_runner", "StageRunner"), {}))
        me = space(I, _runner=run)
        t, a = SU(z3.Const("stage", OBJ)), SU(z3.Const("some_argument", OBJ))
        # the name of an argument stands for every name
        return dict(self=me, stage=t, **{self.more(I): I.e.alloc(DictC({"some_argument": a}))}), dict(me=me, run=run, t=t, a=a, f=I.e.get(me).fields)

    def more(self, I):
        """The name of the parameter which collects the further arguments."""
        a = I.repo.lookup(I.repo.module(S), "InstanceSpace", I).node
        f = [x for x in a.body if getattr(x, "name", None) == "run_stage"]
        if len(f) != 1 or f[0].args.kwarg is None:
            raise Unsupported("arguments are handed on differently")
        return f[0].args.kwarg.arg

    def ensures(self, I, c, res):
        (r,), out = self.called(I, "run_stage")
        more = r[0].get("additional_arguments")
        got = I.content(more) if isinstance(more, Ref) else more
        if not isinstance(got, DictC):
            raise Unsupported("the arguments are handed on differently")
        out += self.passed(I, r, dict(stage=c["t"]), "the run") + [("the run gets no other arguments", T(set(got.items) <= {"some_argument"}))]
        out += same(I, got.items.get("some_argument"), c["a"], "the run gets the arguments")
        return out + [("the runner of this space", T(r[0]["self"] == c["run"]))] + same(I, res, r[1], "its outputs are given back")


class RunIter(Wiring):
    """Every stage of the runner of this space, on the inputs of this space, is yielded as it is."""
    qual = S + ":InstanceSpace.run_iter"
    name = "run_iter"
    stubs = (Build.stubs[0], Stub("instancespace.stage_runner:StageRunner.run_iter", lambda I, v: value(I, "outputs", "objs")))

    setup = Build.setup

    def ensures(self, I, c, res):
        (i,), out = self.called(I, "from_metadata_and_options")
        (r,), _ = self.called(I, "run_iter")
        out += self.passed(I, i, dict(metadata=c["f"]["_metadata"], options=c["f"]["_options"]), "the run")
        out += self.passed(I, r, dict(additional_arguments=i[1]), "the run") + [("the runner of this space", T(r[0]["self"] == c["run"]))]
        return out + same(I, I.last_frame.vars["__yields__"], r[1], "every output is yielded as it is")


class Given(Wiring):
    """The metadata and the options are those the space was made with."""

    def __init__(self, name):
        self.name, self.qual = name, S + ":InstanceSpace." + name

    def setup(self, I):
        me = space(I)
        return dict(self=me), dict(f=I.e.get(me).fields)

    def ensures(self, I, c, res):
        return same(I, res, c["f"]["_" + self.name], f"the {self.name} of the space")


ALL = [*[Part(p) for p in PARTS], WholeModel(), FromOptions(), Inputs(), FromFiles(), FromDirectory(), Init(), Build(), RunUntil(), ModelOf(), RunOne(), RunIter(), Given("metadata"), Given("options")]
