"""Contracts of what a model saves: the tables, and the archive of a directory (C31, C33)."""
import z3

from contracts.builder import repo_cls
from contracts.common import Stub, Wiring, record, same
from contracts.serialisers import PATH, STR, fstring
from pyvc import lib_np
from pyvc.loops import LoopInv
from pyvc.sym import And, Implies, LibV, ListC, Not, ObjC, RecV, Ref, SU, SeqC, SetC, T, Unsupported, mkbool
from pyvc.verify import A, Contract, forall, inr, nat

M = "instancespace.model"
ZIP = LibV("zipfile.ZipFile")
INT = z3.IntSort()
DIR, NAME = z3.Const("the_directory", STR), z3.Const("name_of_the_archive", STR)
FILE = z3.Function("file_of_the_directory", INT, STR)


def text(I, v):
    if isinstance(v, str):
        return I.e.lit(STR, v)
    if isinstance(v, SU) and v.t.sort() == STR:
        return v.t
    raise Unsupported("a name")


def parts_of_names(I):
    """Texts within texts: any relation that every text has to itself."""
    def rel(name):
        f = z3.Function("str_" + name, STR, STR, z3.BoolSort())

        def test(a, b):
            a, b = text(I, a), text(I, b)
            I.e.assume(Implies(a == b, f(a, b)))
            return f(a, b)
        return test
    within, ends = rel("within"), rel("ends")
    I.sort_method[("Str", "__contains__")] = lambda I, t, a, kw: within(a[0], SU(t))
    I.sort_method[("Str", "endswith")] = lambda I, t, a, kw: mkbool(ends(a[0], SU(t)))


class Paths:
    """Paths made of the directory, constant directories and one name."""

    def __init__(self, I):
        self.I = I
        e = I.e
        join = lambda I, v, a, kw, nd: self.join(v, a[0])
        for k in ("__truediv__", "joinpath"):
            I.lib["method:pathlib.Path." + k] = join
        I.lib["pathlib.Path"] = lambda I, a, kw, nd: self.path(a)
        I.lib["os.path.join"] = lambda I, a, kw, nd: self.path(a)
        I.lib["os.fspath"] = lambda I, a, kw, nd: a[0]
        I.lib["attr:pathlib.Path.name"] = lambda I, v, nd: I.content(v).fields["parts"][-1]

    def parts(self, v):
        if isinstance(v, Ref) and isinstance(self.I.content(v), ObjC) and self.I.content(v).cls == PATH:
            return self.I.content(v).fields["parts"]
        text(self.I, v)
        return [v]

    def path(self, a):
        out = []
        for x in a:
            out += self.parts(x)
        return self.I.e.alloc(ObjC(PATH, {"parts": out}))

    def join(self, v, x):
        return self.path([v, x])

    def inside(self, v):
        """The name of a file directly in the directory."""
        p = self.parts(v)
        if len(p) != 2:
            raise Unsupported("where a file is")
        return text(self.I, p[0]) == DIR, text(self.I, p[1])


class SaveZip(Contract):
    """The archive of a flat directory: every file once under its name, but ignore files and the archive itself."""
    qual = M + ":Model.save_zip"
    name = "save_zip"

    def configure(self, I):
        P = self.P = Paths(I)
        parts_of_names(I)
        I.loop_invs[(self.qual, 0)] = I.loop_invs[(self.qual, 1)] = LoopInv(self.inv, self.havoc, self.modifies)
        I.lib["zipfile.ZipFile"] = self.opened
        I.lib["method:zipfile.ZipFile.write"] = lambda I, v, a, kw, nd: self.write(I, a, kw, nd)
        I.lib["method:zipfile.ZipFile.close"] = lambda I, v, a, kw, nd: None
        for k in ("ZIP_DEFLATED", "ZIP_STORED", "ZIP_BZIP2", "ZIP_LZMA"):
            I.lib["const:zipfile." + k] = lambda I, k=k: {"ZIP_STORED": 0, "ZIP_DEFLATED": 8, "ZIP_BZIP2": 12, "ZIP_LZMA": 14}[k]
        I.lib["os.walk"] = lambda I, a, kw, nd: self.walk(I, a[0], nd)
        I.lib["os.listdir"] = lambda I, a, kw, nd: self.listing(I, a[0], nd, lambda k: SU(FILE(k)))
        I.lib["method:pathlib.Path.iterdir"] = lambda I, v, a, kw, nd: self.listing(I, v, nd, lambda k: P.path([SU(DIR), SU(FILE(k))]))
        I.lib["method:pathlib.Path.is_file"] = lambda I, v, a, kw, nd: mkbool(self.is_there(I, v, nd))

    def setup(self, I):
        e = I.e
        n = self.n = nat(I, "files_of_the_directory")
        i, j = z3.Ints("i!f j!f")
        e.assume(forall([i, j], Implies(And(inr(i, n), inr(j, n), FILE(i) == FILE(j)), i == j)))
        e.assume(DIR != e.lit(STR, "output"))
        I.arch = e.alloc(SetC(("u", "Str", STR), lambda t: z3.BoolVal(False)))
        I.open = 0
        model = RecV(repo_cls(I, M, "Model"), {})
        d = SU(DIR) if e.branch(z3.Bool("directory_given_as_text")) else self.P.path([SU(DIR)])
        return {"self": model, "zip_filename": SU(NAME), "output_directory": d}, {}

    def opened(self, I, a, kw, nd):
        where, mode = a[0] if a else kw["file"], a[1] if len(a) > 1 else kw.get("mode", "r")
        ok, name = self.P.inside(where)
        I.e.oblige("the archive is in the directory", And(ok, name == NAME), nd, "call")
        I.e.oblige("the archive starts empty", T(mode == "w"), nd, "call")
        I.e.oblige("the archive is opened once", T(I.open == 0), nd, "call")
        I.open += 1
        k = z3.Int("k!f")
        I.e.assume(z3.Exists([k], And(inr(k, self.n), FILE(k) == NAME)))      # it is a file of the directory from now on
        I.e.trusted("zipfile.ZipFile(path, 'w') makes an empty archive; write(file, arcname) adds the content of the file under that name")
        return I.e.alloc(ObjC(ZIP, {}))

    def listing(self, I, d, nd, elem):
        p = self.P.parts(d)
        I.e.oblige("the files listed are those of the directory", T(len(p) == 1) if len(p) != 1 else text(I, p[0]) == DIR, nd, "call")
        if not I.open:
            raise Unsupported("files listed before the archive is there")
        I.e.trusted("listing a flat directory names every file in it once")
        return I.e.alloc(SeqC(self.n, elem))

    def walk(self, I, d, nd):
        s = self.listing(I, d, nd, lambda k: SU(FILE(k)))
        return I.e.alloc(ListC([(SU(DIR), I.e.alloc(ListC([])), s)]))

    def is_there(self, I, v, nd):
        ok, name = self.P.inside(v)
        k = z3.Int("k!f")
        return And(ok, z3.Exists([k], And(inr(k, self.n), FILE(k) == name)))

    def write(self, I, a, kw, nd):
        e = I.e
        file, arc = a[0] if a else kw["filename"], a[1] if len(a) > 1 else kw.get("arcname")
        ok, name = self.P.inside(file)
        if arc is None:
            raise Unsupported("the name in the archive")
        under = self.P.parts(arc)
        k = z3.Int("k!f")
        e.oblige("what is added is a file of the directory", And(ok, z3.Exists([k], And(inr(k, self.n), FILE(k) == name))), nd, "call")
        e.oblige("under its own name", text(I, under[-1]) == name, nd, "call")
        if not all(isinstance(p, str) for p in under[:-1]):
            raise Unsupported("a folder in the archive")
        e.oblige("added once", Not(e.get(I.arch).mem(name)), nd, "call")
        old = e.get(I.arch).mem
        e.heap[I.arch.loc] = SetC(("u", "Str", STR), lambda t: z3.Or(old(t), t == name))

    def kept(self, I, t):
        return And(t != I.e.lit(STR, ".gitignore"), t != NAME)

    def inv(self, I, frame, k, entry):
        i, t = z3.Int("i!a"), z3.Const("t!a", STR)
        mem = I.e.get(I.arch).mem

        def name(i):
            x = entry.elem(i)
            return text(I, self.P.parts(x)[-1])
        return [("of the files before, all but ignore files and the archive are added", forall([i], Implies(
                    And(0 <= i, i < k), mem(name(i)) == self.kept(I, name(i))))),
                ("only files before are added", forall([t], Implies(mem(t), z3.Exists([i], And(0 <= i, i < k, name(i) == t)))))]

    def havoc(self, I, frame, k, entry):
        f = I.e.func("added", [STR], z3.BoolSort())
        I.e.heap[I.arch.loc] = SetC(("u", "Str", STR), lambda t: f(t))

    def modifies(self, I, entry, vars0):
        return set(vars0) - set(entry.vars), {I.arch.loc}

    def ensures(self, I, c, res):
        i, t = z3.Int("i!e"), z3.Const("t!e", STR)
        mem = I.e.get(I.arch).mem
        return [("an archive is made", T(I.open == 1)),
                ("every file but ignore files and the archive is in it", forall([i], Implies(
                    And(inr(i, self.n), self.kept(I, FILE(i))), mem(FILE(i))))),
                ("the archive is not in itself", Not(mem(NAME))),
                ("nothing else is in it", forall([t], Implies(mem(t), z3.Exists([i], And(inr(i, self.n), FILE(i) == t)))))]


class Save(Wiring):
    """The writer gets the parts of this model and the directory asked for."""
    writer = None
    want = {}

    def configure(self, I):
        super().configure(I)
        Paths(I)
        s = Stub("instancespace._serialisers:" + self.writer, lambda I, v: None)
        I.contracts[s.qual] = s

    def setup(self, I):
        I.calls.clear()
        e = I.e
        parts = {k: e.alloc(ObjC(LibV("part"), {"of": k})) for k in (
            "data", "data_dense", "feat_sel", "prelim", "sifted", "pilot", "cloister", "pythia", "trace", "opts")}
        model = RecV(repo_cls(I, M, "Model"), parts)
        d = SU(DIR) if e.branch(z3.Bool("directory_given_as_text")) else e.alloc(ObjC(PATH, {"parts": [SU(DIR)]}))
        return {"self": model, "output_directory": d}, dict(parts=parts)

    def ensures(self, I, c, res):
        (v, _), = self.called(I, self.writer)[0]
        out = []
        for k, part in self.want.items():
            if k not in v:
                raise Unsupported(f"{self.writer} no longer takes {k}")
            out.append((f"{k} is the model's", T(v[k] == c["parts"][part])))
        p = v.get("output_directory")
        where = I.content(p).fields.get("parts") if isinstance(p, Ref) and isinstance(I.content(p), ObjC) else None
        out.append(("the directory asked for, as a path", T(False) if where is None or len(where) != 1 else text(I, where[0]) == DIR))
        return out


class SaveCsv(Save):
    qual = M + ":Model.save_to_csv"
    name = "save_to_csv"
    writer = "save_instance_space_to_csv"
    want = dict(data="data", sifted_out="sifted", trace_out="trace", pilot_out="pilot", cloister_out="cloister", pythia_out="pythia")


class SaveWeb(Save):
    qual = M + ":Model.save_for_web"
    name = "save_for_web"
    writer = "save_instance_space_for_web"
    want = dict(data="data", feat_sel="feat_sel")


class SaveGraphs(Save):
    qual = M + ":Model.save_graphs"
    name = "save_graphs"
    writer = "save_instance_space_graphs"
    want = dict(data="data", options="opts", pythia="pythia", pilot="pilot", trace="trace")


class SaveMat(Save):
    qual = M + ":Model.save_to_mat"
    name = "save_to_mat"
    writer = "save_instance_space_output_mat"
    want = dict(data="data")


class OutputMat(Contract):
    """The MATLAB file of the directory holds the names of the algorithms."""
    qual = "instancespace._serialisers:save_instance_space_output_mat"
    name = "save_instance_space_output_mat"

    def configure(self, I):
        Paths(I)
        I.lib["scipy.io.savemat"] = lambda I, a, kw, nd: I.wrote.append((a[0] if a else kw["file_name"], a[1] if len(a) > 1 else kw["mdict"]))

    def setup(self, I):
        e = I.e
        I.wrote = []
        m = nat(I, "algos")
        name = z3.Function("name_of_algorithm", INT, STR)
        lab = e.alloc(SeqC(m, lambda i: SU(name(i))))
        data = RecV(repo_cls(I, "instancespace.data.model", "Data"), {"algo_labels": lab})
        return {"output_directory": e.alloc(ObjC(PATH, {"parts": [SU(DIR)]})), "data": data}, dict(m=m, name=name, lab=lab)

    def ensures(self, I, c, res):
        if len(I.wrote) != 1:
            return [("one file is written", T(False))]
        (where, what), = I.wrote
        p = I.content(where).fields["parts"] if isinstance(where, Ref) else []
        out = [("in the directory, under its name", T(False) if len(p) != 2 or p[1] != "model.mat" else text(I, p[0]) == DIR)]
        d = I.getitem(what, "data", None)
        x = A(I, I.getitem(d, "algolabels", None))
        i = z3.Int("i!e")
        return out + [("the names of all algorithms", lib_np.dim_t(x.shape[0]) == c["m"]),
                      ("in order", forall([i], Implies(inr(i, c["m"]), text(I, x(i)) == c["name"](i)))),
                      ("the names are kept", forall([i], Implies(inr(i, c["m"]), text(I, I.seq_of(I.content(c["lab"])).get(i)) == c["name"](i))))]


ALL = [SaveZip(), SaveCsv(), SaveWeb(), SaveGraphs(), SaveMat(), OutputMat()]
