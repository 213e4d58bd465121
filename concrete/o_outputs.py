"""C30-C33: model, tables, colours, archive."""
import dataclasses
import math
import os
import shutil
import tempfile
import zipfile
from pathlib import Path
from unittest import mock

import numpy as np
import pandas as pd
from shapely.geometry import MultiPolygon, Polygon, box

from .base import Skip, close, find, labels, need, oracle, same

ST = "instancespace.stages."
DATA = ("inst_labels", "feat_labels", "algo_labels", "x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p",
        "num_good_algos", "beta", "s")
PRELIM = ("med_val", "iq_range", "hi_bound", "lo_bound", "min_x", "lambda_x", "mu_x", "sigma_x", "min_y", "lambda_y",
          "sigma_y", "mu_y")
SIFTED = ("selvars", "idx", "rho", "pval", "silhouette_scores", "clust")
PILOT = ("X0", "alpha", "eoptim", "perf", "a", "z", "c", "b", "error", "r2")
CLOISTER = ("z_edge", "z_ecorr")
PYTHIA = ("mu", "sigma", "cp", "svm", "cvcmat", "y_sub", "y_hat", "pr0_sub", "pr0_hat", "box_consnt", "k_scale",
          "precision", "recall", "accuracy")
TRACE = ("space", "good", "best", "hard")


class Mark:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def marks(rng):
    out = {k: Mark(k) for k in (*DATA, *PRELIM, *SIFTED, *PILOT, *CLOISTER, *PYTHIA, *TRACE, "pilot_summary",
                                "pythia_summary", "trace_summary", "w", "unrelated")}
    n = int(rng.integers(1, 9))
    out["selection0"] = rng.integers(-1, 5, n)
    out["selection1"] = rng.integers(0, 5, n)
    return out


def check_model(m, out, options):
    def eq(got, key, what):
        need(got is out[key], f"{what} holds {got!r} instead of the run's {key}")
    for part, names in ((m.data, DATA), (m.prelim, PRELIM), (m.sifted, SIFTED), (m.pilot, PILOT),
                        (m.cloister, CLOISTER), (m.pythia, PYTHIA), (m.trace, TRACE)):
        for k in names:
            eq(getattr(part, k), k, f"{type(part).__name__}.{k}")
    eq(m.pilot.summary, "pilot_summary", "pilot.summary")
    eq(m.pythia.summary, "pythia_summary", "pythia.summary")
    eq(m.trace.summary, "trace_summary", "trace.summary")
    eq(m.feat_sel.idx, "idx", "feat_sel.idx")
    for k in ("selection0", "selection1"):
        need(same(getattr(m.pythia, k), np.asarray(out[k]) + 1), f"{k} does not count from one")
    need(m.opts is options, "the options of the model")


@oracle("C30", lambda rng, i: marks(rng), 60, 600)
def model_fields(out):
    """every named result of a run replaced by a distinct value: the model holds each under its own name"""
    from instancespace.model import Model
    keys = list(out)
    opts = Mark("options")
    s0 = out["selection0"].copy(), out["selection1"].copy()
    m = Model.from_stage_runner_output(out, opts)
    need(list(out) == keys and same(out["selection0"], s0[0]) and same(out["selection1"], s0[1]), "the run's results changed")
    check_model(m, out, opts)


def g_opts(rng, i):
    return {k: Mark(k) for k in ("feature_names", "algorithm_names", "instance_labels", "instance_sources", "features",
                                 "algorithms", "parallel", "auto", "norm_", "selvars", "sifted", "pilot", "cloister",
                                 "pythia", "trace", "outputs", "max_perf", "abs_perf", "epsilon", "beta_threshold",
                                 "flag_bound", "flag_norm")}


@oracle("C30", g_opts, 5, 50)
def initial_inputs(c):
    """distinct values in every part of the metadata and options: the stages' initial inputs carry each under its own name"""
    f = find("instancespace.instance_space:_InstanceSpaceInputs.from_metadata_and_options", ["metadata", "options"])
    import instancespace.data.metadata as mdm
    import instancespace.data.options as o
    md = mdm.Metadata(**{k: c[k] for k in ("feature_names", "algorithm_names", "instance_labels", "instance_sources",
                                           "features", "algorithms")})
    op = o.InstanceSpaceOptions(
        **{k: c[k] for k in ("parallel", "auto", "selvars", "sifted", "pilot", "cloister", "pythia", "trace", "outputs")},
        bound=o.BoundOptions(flag=c["flag_bound"]), norm=o.NormOptions(flag=c["flag_norm"]),
        perf=o.PerformanceOptions(**{k: c[k] for k in ("max_perf", "abs_perf", "epsilon", "beta_threshold")}))
    got = f(md, op)
    for k in ("feature_names", "algorithm_names", "instance_labels", "instance_sources", "features", "algorithms"):
        need(getattr(got, k) is c[k], f"{k} is {getattr(got, k)!r}")
    for k in ("parallel", "auto", "selvars", "sifted", "pilot", "cloister", "pythia", "trace", "outputs", "bound", "norm", "perf"):
        need(getattr(got, k + "_options") is getattr(op, k), f"{k}_options is {getattr(got, k + '_options')!r}")
    pr = got.prelim_options
    for k, v in (("max_perf", "max_perf"), ("abs_perf", "abs_perf"), ("epsilon", "epsilon"),
                 ("beta_threshold", "beta_threshold"), ("bound", "flag_bound"), ("norm", "flag_norm")):
        need(getattr(pr, k) is c[v], f"prelim option {k} is {getattr(pr, k)!r}")


@oracle("C30", lambda rng, i: dict(m=marks(rng), i=i), 25, 250)
def whole_run(c):
    """the whole space built with every stage's computation replaced by distinct values per output: each stage gets its inputs from the latest producer, the model holds the values under their names"""
    import instancespace.data.metadata as md
    import instancespace.data.options as o
    import instancespace.instance_space as sp
    stages = [sp.PreprocessingStage, sp.PrelimStage, sp.SiftedStage, sp.PilotStage, sp.PythiaStage, sp.CloisterStage,
              sp.TraceStage]
    base = c["m"]
    df = pd.DataFrame({"instances": ["a", "b"], "feature_1": [1.0, 2.0], "algo_1": [3.0, 4.0]})
    meta, opts = md.Metadata.from_data_frame(df), o.InstanceSpaceOptions.default()
    latest, made, got = {}, {}, {}

    def runner(st):
        fields = list(st._outputs()._fields)

        def _run(inputs):
            got[st] = inputs
            vals = {}
            for k in fields:
                v = Mark(f"{k} of {st.__name__}")
                if k in ("selection0", "selection1"):
                    v = base[k]
                vals[k] = v
            made[st] = vals
            return st._outputs()(**vals)
        return staticmethod(_run)
    import contextlib
    with contextlib.ExitStack() as es:
        for st in stages:
            es.enter_context(mock.patch.object(st, "_run", runner(st)))
        space = sp.InstanceSpace(meta, opts)
        model = space.build()
        need(space.model is model or space.model == model, "the model property differs")
    order = list(got)
    need(sorted(s.__name__ for s in order) == sorted(s.__name__ for s in stages), f"stages run: {order}")
    chain = [s for s in order]
    final = {}
    ini = sp._InstanceSpaceInputs.from_metadata_and_options(meta, opts)._asdict() if hasattr(sp, "_InstanceSpaceInputs") else {}
    for st in chain:
        for k, v in got[st]._asdict().items():
            if k in final:
                need(v is final[k] or isinstance(v, np.ndarray) and same(v, final[k]), f"{st.__name__} got {v!r} as {k}")
            elif k in ini:
                need(repr(v) == repr(ini[k]), f"{st.__name__} got {v!r} as {k}")
        final.update(made[st])
    # stages in one step see the values from before the step: ordering is C03's business
    check_model(model, {**base, **final}, opts)


# ------------------------------------------------------------------ tables
def g_model(rng, i):
    n, a, d0 = int(rng.integers(1, 7)), int(rng.integers(1, 5)), int(rng.integers(1, 6))
    keep = rng.permutation(d0)[:int(rng.integers(1, d0 + 1))]
    d = len(keep)

    def foot():
        k = int(rng.integers(5))
        if k == 0:
            return None
        p = lambda: tuple(float(v) for v in rng.normal(size=2).round(3))
        if k == 1:
            return Polygon([p() for _ in range(int(rng.integers(3, 6)))])
        if k == 2:
            x = float(rng.integers(0, 3))
            return MultiPolygon([box(x, 0, x + 1, 1), box(x + 5, 2, x + 7, 3)])
        x, y = (float(v) for v in rng.normal(size=2).round(3))
        return box(x, y, x + 1.5, y + 2)
    ids = labels(rng, n, "in")
    if i % 4 == 3:
        ids = [f"x,y {k}" for k in ids]
    return dict(n=n, a=a, d=d, d0=d0, keep=keep.astype(int), ids=ids, fl=labels(rng, d, "feature_"), al=labels(rng, a, "algo_"),
                x_raw=rng.normal(size=(n, d0)), x=rng.normal(size=(n, d)), y_raw=rng.random((n, a)) * 9, y=rng.normal(size=(n, a)),
                y_bin=rng.random((n, a)) < 0.5, y_best=rng.normal(size=n), p=rng.integers(1, a + 1, n),
                num=rng.integers(0, a + 1, n).astype(float), beta=rng.random(n) < 0.5, z=rng.normal(size=(n, 2)),
                edge=rng.normal(size=(int(rng.integers(1, 7)), 2)), ecorr=rng.normal(size=(int(rng.integers(1, 5)), 2)),
                y_hat=rng.random((n, a)) < 0.5, s0=rng.integers(0, a + 1, n), good=[foot() for _ in range(a)],
                best=[foot() for _ in range(a)], nocl=bool(i % 6 == 5), i=i)


def build_model(c):
    import instancespace.data.model as dm
    import instancespace.data.options as o
    from instancespace.model import Model
    fp = lambda p: dm.Footprint(p, 0 if p is None else p.area, 1, 1, 1.0, 1.0)
    cols = ["Algorithm", "Area_Good", "Area_Good_Normalised", "Density_Good", "Density_Good_Normalised", "Purity_Good",
            "Area_Best", "Area_Best_Normalised", "Density_Best", "Density_Best_Normalised", "Purity_Best"]
    tsum = pd.DataFrame([[a, *[100.0 * j + k for k in range(10)]] for j, a in enumerate(c["al"])], columns=cols)
    psum = pd.DataFrame([["Z_{1}", *[float(k) for k in range(c["d"])]], ["Z_{2}", *[float(-k) for k in range(c["d"])]]],
                        columns=[0, *c["fl"]])
    ysum = pd.DataFrame({"Algorithms": [*c["al"], "Oracle", "Selector"],
                         "Avg_Perf_all_instances": np.arange(c["a"] + 2) + .25,
                         "CV_model_accuracy": [*[float(k) for k in range(c["a"])], "", ""]})
    data = dm.Data(inst_labels=pd.Series(c["ids"]), feat_labels=list(c["fl"]), algo_labels=list(c["al"]), x=c["x"], y=c["y"],
                   x_raw=c["x_raw"], y_raw=c["y_raw"], y_bin=c["y_bin"], y_best=c["y_best"], p=c["p"], num_good_algos=c["num"],
                   beta=c["beta"], s=None)
    none = {f.name: None for f in dataclasses.fields(dm.PythiaOut)}
    return Model(
        data=data, data_dense=data, feat_sel=dm.FeatSel(c["keep"]), prelim=None,
        sifted=dm.SiftedOut(selvars=c["keep"], idx=c["keep"], rho=None, pval=None, silhouette_scores=None, clust=None),
        pilot=dm.PilotOut(X0=None, alpha=None, eoptim=None, perf=None, a=None, z=c["z"], c=None, b=None, error=None, r2=None,
                          summary=psum),
        cloister=None if c["nocl"] else dm.CloisterOut(z_edge=c["edge"], z_ecorr=c["ecorr"]),
        pythia=dm.PythiaOut(**{**none, "y_hat": c["y_hat"], "selection0": c["s0"], "selection1": c["s0"], "summary": ysum}),
        trace=dm.TraceOut(space=fp(None), good=[fp(p) for p in c["good"]], best=[fp(p) for p in c["best"]], hard=fp(None),
                          summary=tsum),
        opts=o.InstanceSpaceOptions.default())


def freeze(m):
    """Comparable snapshot of everything a model holds."""
    def f(v):
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            return {k.name: f(getattr(v, k.name)) for k in dataclasses.fields(v)}
        if isinstance(v, (list, tuple)):
            return [f(x) for x in v]
        if isinstance(v, np.ndarray):
            return (v.dtype.str, v.shape, v.tobytes())
        if isinstance(v, (pd.DataFrame, pd.Series)):
            return v.to_csv(), list(getattr(v, "columns", [v.name if hasattr(v, "name") else None]))
        return repr(v) if not hasattr(v, "wkt") else v.wkt
    return f(m)


def read(path, text_cols=()):
    need(path.is_file(), f"{path.name} is not written")
    return pd.read_csv(path, dtype={k: str for k in ("Row", *text_cols)}, keep_default_na=False)


def table(path, rows, cols, vals):
    df = read(path)
    need(list(df.columns) == ["Row", *cols], f"{path.name}: columns {list(df.columns)}, expected {['Row', *cols]}")
    need(list(df["Row"]) == list(rows), f"{path.name}: rows {list(df['Row'])}, expected {list(rows)}")
    vals = np.asarray(vals)
    vals = vals.reshape(len(rows), len(cols))
    for j, k in enumerate(cols):
        got = df[k].to_numpy()
        if vals.dtype == bool:
            need([str(v) for v in got] == [str(bool(v)) for v in vals[:, j]], f"{path.name}: values of {k}")
        else:
            need(close(got.astype(float), vals[:, j], 1e-12, 1e-12), f"{path.name}: values of {k} are {got}, expected {vals[:, j]}")


def bnd(n):
    return [f"bnd_pnt_{k + 1}" for k in range(n)]


def outline(p):
    if isinstance(p, MultiPolygon):
        pts = [q for g in p.geoms for q in g.exterior.coords]
    else:
        pts = list(p.exterior.coords)
    return np.array(pts)[:-1]


@oracle("C31", g_model, 100, 1000)
def csv_tables(c):
    """random models (shuffled labels, commas in labels, selected feature columns, missing and multi-part footprints, no boundary): every saved table read back against the model; saving twice is identical"""
    m = build_model(c)
    b4 = freeze(m)
    t1, t2 = Path(tempfile.mkdtemp()), Path(tempfile.mkdtemp())
    try:
        m.save_to_csv(t1 if c["i"] % 2 else str(t1))
        need(freeze(m) == b4, "saving changed the model")
        m.save_to_csv(t2)
        need(freeze(m) == b4, "saving changed the model")
        f1, f2 = sorted(os.listdir(t1)), sorted(os.listdir(t2))
        need(f1 == f2, "saving twice writes other files")
        for f in f1:
            need((t1 / f).read_bytes() == (t2 / f).read_bytes(), f"saving twice writes another {f}")
        ids, fl, al = c["ids"], c["fl"], c["al"]
        Z = ["z_1", "z_2"]
        table(t1 / "coordinates.csv", ids, Z, c["z"])
        if not c["nocl"]:
            table(t1 / "bounds.csv", bnd(len(c["edge"])), Z, c["edge"])
            table(t1 / "bounds_prunned.csv", bnd(len(c["ecorr"])), Z, c["ecorr"])
        table(t1 / "feature_raw.csv", ids, fl, c["x_raw"][:, c["keep"]])
        table(t1 / "feature_process.csv", ids, fl, c["x"])
        table(t1 / "algorithm_raw.csv", ids, al, c["y_raw"])
        table(t1 / "algorithm_process.csv", ids, al, c["y"])
        table(t1 / "algorithm_bin.csv", ids, al, c["y_bin"])
        table(t1 / "algorithm_svm.csv", ids, al, c["y_hat"])
        table(t1 / "good_algos.csv", ids, ["NumGoodAlgos"], c["num"])
        table(t1 / "beta_easy.csv", ids, ["IsBetaEasy"], c["beta"])
        table(t1 / "portfolio.csv", ids, ["Best_Algorithm"], c["p"])
        table(t1 / "portfolio_svm.csv", ids, ["Best_Algorithm"], c["s0"])
        for j, a in enumerate(al):
            for kind, fp in (("good", c["good"][j]), ("best", c["best"][j])):
                q = t1 / f"footprint_{a}_{kind}.csv"
                if fp is None:
                    need(not q.exists(), f"{q.name} for no footprint")
                else:
                    o = outline(fp)
                    table(q, bnd(len(o)), Z, o)
        fp = read(t1 / "footprint_performance.csv")
        need(list(fp.columns) == ["Row", "Area_Good_Normalised", "Density_Good_Normalised", "Purity_Good",
                                  "Area_Best_Normalised", "Density_Best_Normalised", "Purity_Best"],
             f"footprint_performance.csv: {list(fp.columns)}")
        need(list(fp["Row"]) == al, "footprint_performance.csv: rows")
        for k in fp.columns[1:]:
            need(close(fp[k].astype(float), m.trace.summary[k].astype(float)), f"footprint_performance.csv: {k}")
        pm = read(t1 / "projection_matrix.csv")
        need(list(pm.columns) == ["Row", *fl] and list(pm["Row"]) == ["Z_{1}", "Z_{2}"], "projection_matrix.csv: labels")
        need(close(pm[fl].to_numpy(float), m.pilot.summary[fl].to_numpy(float)), "projection_matrix.csv: values")
        sv = read(t1 / "svm_table.csv")
        need(list(sv.columns) == ["Row", "Avg_Perf_all_instances", "CV_model_accuracy"], "svm_table.csv: columns")
        need(list(sv["Row"]) == [*al, "Oracle", "Selector"], "svm_table.csv: rows")
        for k in sv.columns[1:]:
            need([str(v) for v in sv[k]] == [str(v) for v in m.pythia.summary[k]], f"svm_table.csv: {k}")
    finally:
        shutil.rmtree(t1, ignore_errors=True)
        shutil.rmtree(t2, ignore_errors=True)


@oracle("C31", g_model, 30, 300)
def matlab_file(c):
    """random models: the names of the algorithms in the MATLAB file, in order; model unchanged"""
    from scipy.io import loadmat
    m = build_model(c)
    b4 = freeze(m)
    t = Path(tempfile.mkdtemp())
    try:
        m.save_to_mat(t if c["i"] % 2 else str(t))
        need(freeze(m) == b4, "saving changed the model")
        need((t / "model.mat").is_file(), "model.mat is not written")
        got = [str(v).rstrip() for v in np.ravel(loadmat(t / "model.mat")["data"]["algolabels"][0, 0])]
        need(got == list(c["al"]), f"model.mat names {got}, the model {list(c['al'])}")
    finally:
        shutil.rmtree(t, ignore_errors=True)


@oracle(["C31", "C32"], g_model, 60, 600)
def web_tables(c):
    """random models saved for the web twice: colour tables under the right labels, computed from the right data, model unchanged"""
    m = build_model(c)
    b4 = freeze(m)
    t1 = Path(tempfile.mkdtemp())
    try:
        m.save_for_web(t1)
        need(freeze(m) == b4, "saving changed the model")
        first = {f: (t1 / f).read_bytes() for f in os.listdir(t1)}
        m.save_for_web(t1)
        need(first == {f: (t1 / f).read_bytes() for f in os.listdir(t1)}, "saving twice writes other tables")
        ids, fl, al = c["ids"], c["fl"], c["al"]
        for name, cols, vals, shared in (
                ("feature_raw_color", fl, c["x_raw"][:, c["keep"]], False), ("feature_process_color", fl, c["x"], False),
                ("algorithm_raw_single_color", al, c["y_raw"], False), ("algorithm_process_single_color", al, c["y"], False),
                ("algorithm_raw_color", al, c["y_raw"], True), ("algorithm_process_color", al, c["y"], True),
                ("good_algos_color", ["NumGoodAlgos"], c["num"].reshape(-1, 1), True)):
            df = read(t1 / f"{name}.csv")
            need(list(df.columns) == ["Row", *cols] and list(df["Row"]) == ids, f"{name}: labels {list(df.columns)} {list(df['Row'])}")
            check_colours(df[cols].to_numpy(), vals, shared, name)
        ct = pd.read_csv(t1 / "color_table.csv")
        need(list(ct.columns)[-3:] == ["R", "G", "B"] and len(ct) == 256, "colour table")
        need(ct[["R", "G", "B"]].to_numpy().min() >= 0 and ct[["R", "G", "B"]].to_numpy().max() <= 255, "colour table values")
    finally:
        shutil.rmtree(t1, ignore_errors=True)


def check_colours(got, vals, shared, what):
    got = np.asarray(got)
    vals = np.asarray(vals, float)
    need(got.shape == vals.shape, f"{what}: shape")
    need(all(float(v) == int(v) for v in got.ravel()), f"{what}: not integers")
    got = got.astype(int)
    need(got.min() >= 0 and got.max() <= 255, f"{what}: outside 0 to 255")
    groups = [(got.ravel(), vals.ravel())] if shared else [(got[:, j], vals[:, j]) for j in range(vals.shape[1])]
    for g, v in groups:
        if v.min() == v.max():
            need(len(set(g)) == 1, f"{what}: constant data get several colours")
            continue
        need(all(g[v == v.min()] == 0), f"{what}: the smallest value gets {g[v == v.min()]}")
        need(all(g[v == v.max()] == 255), f"{what}: the largest value gets {g[v == v.max()]}")
        k = np.argsort(v, kind="stable")
        need(all(np.diff(g[k]) >= 0), f"{what}: not monotone")
        for u, w in zip(k, k[1:]):
            need(v[u] != v[w] or g[u] == g[w], f"{what}: equal values, other colours")


def g_col(rng, i):
    n, d = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    k = i % 6
    m = rng.normal(size=(n, d)) * 10.0 ** rng.integers(-6, 7, d)
    if k == 1:
        m = rng.integers(-3, 4, (n, d)).astype(float)
    if k == 2:
        m[:, int(rng.integers(d))] = float(rng.integers(-5, 6))
    if k == 3:
        m = rng.integers(0, 9, (n, d))
    if k == 4:
        m = np.full((n, d), float(rng.integers(-3, 4)))
    if k == 5:
        m = m + 1e6
    return m


@oracle("C32", g_col, 600, 8000)
def colour_scales(m):
    """random matrices (wide ranges, ties, integers, constant columns, one row): both scales"""
    b4 = m.copy()
    for name, shared in (("_colour_scale", False), ("_colour_scale_g", True)):
        f = find(f"instancespace._serialisers:{name}", ["data"])
        check_colours(f(m), b4, shared, name)
        need(same(m, b4), f"{name} changed the data")


# ------------------------------------------------------------------ archive
def g_zip(rng, i):
    names = ["a.csv", "b.png", "model.mat", ".gitignore", "empty.txt", "x.zip", "long name.csv", ".hidden", "output", "A.csv",
             "old.zip.bak", "gitignore", "y.gitignore"]
    files = {k: rng.integers(0, 256, int(rng.integers(0, 400))).astype(np.uint8).tobytes() for k in names if rng.random() < 0.5}
    return dict(files=files, zip=["out.zip", "x.zip", "a.csv.zip", "output.zip"][i % 4], i=i,
                sub={f"s{k}.bin": bytes([k]) * 5 for k in range(int(rng.integers(0, 3)))} if i % 3 == 0 else {})


@oracle("C33", g_zip, 150, 2000)
def archive(c):
    """random result directories in a scratch directory (empty and hidden files, an earlier archive, subdirectories): entries and content, twice, directory unchanged"""
    from instancespace.model import Model
    tmp = Path(tempfile.mkdtemp())
    try:
        d = tmp / ["results", "output"][c["i"] % 2]
        d.mkdir()
        for k, v in c["files"].items():
            (d / k).write_bytes(v)
        if c["sub"]:
            (d / "more").mkdir()
            for k, v in c["sub"].items():
                (d / "more" / k).write_bytes(v)
        want = {k: v for k, v in {**c["files"], **c["sub"]}.items() if k not in (".gitignore", c["zip"])}
        m = build_model(g_model(np.random.default_rng(c["i"]), c["i"]))
        for rep in range(3):
            m.save_zip(c["zip"], str(d) if c["i"] % 2 else d)
            for k, v in c["files"].items():
                if k != c["zip"]:
                    need((d / k).read_bytes() == v, f"{k} was changed")
            need(sorted(os.listdir(d)) == sorted({*c["files"], c["zip"], *(["more"] if c["sub"] else [])}), "files appeared or vanished")
            need(sorted(os.listdir(tmp)) == [d.name], "files outside the directory")
            with zipfile.ZipFile(d / c["zip"]) as z:
                need(z.testzip() is None, "corrupt archive")
                got = [Path(q).name for q in z.namelist() if not q.endswith("/")]
                need(sorted(got) == sorted(want), f"archive {rep} holds {sorted(got)}, saved files {sorted(want)}")
                for q in z.namelist():
                    if not q.endswith("/"):
                        need(z.read(q) == want[Path(q).name], f"content of {q}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
