"""C10-C12: options, metadata and files (real code against independently written expectations)."""
import json
import os
import shutil
import tempfile
from dataclasses import fields
from pathlib import Path

import numpy as np
import pandas as pd

from .base import Skip, find, need, oracle, same

# option -> legacy names, by section
LEGACY = {
    "parallel": {"flag": [], "n_cores": ["ncores"]},
    "perf": {"max_perf": ["maxperf"], "abs_perf": ["absperf"], "epsilon": [], "beta_threshold": ["betathreshold"]},
    "auto": {"preproc": []},
    "bound": {"flag": []},
    "norm": {"flag": []},
    "selvars": {"small_scale_flag": ["smallscaleflag"], "small_scale": ["smallscale"],
                "file_idx_flag": ["fileidxflag"], "file_idx": ["fileidx"], "feats": [], "algos": [],
                "selvars_type": ["type"], "min_distance": ["mindistance"], "density_flag": ["densityflag"]},
    "sifted": {"flag": [], "rho": [], "k": [], "n_trees": ["ntrees"], "max_iter": ["maxiter"], "replicates": [],
               "num_generations": [], "num_parents_mating": [], "sol_per_pop": [], "parent_selection_type": [],
               "k_tournament": [], "keep_elitism": [], "crossover_type": [], "cross_over_probability": [],
               "mutation_type": [], "mutation_probability": [], "stop_criteria": []},
    "pilot": {"x0": [], "alpha": [], "analytic": [], "n_tries": ["ntries"]},
    "cloister": {"p_val": ["pval"], "c_thres": ["cthres"]},
    "pythia": {"cv_folds": ["cvfolds"], "is_poly_krnl": ["ispolykrnl"], "use_weights": ["useweights"],
               "use_grid_search": ["uselibsvm"], "params": []},
    "trace": {"use_sim": ["usesim"], "purity": ["pi"]},
    "outputs": {"csv": [], "web": [], "png": []},
}
CONST = {
    "parallel.flag": "PARALLEL_FLAG", "parallel.n_cores": "PARALLEL_N_CORES",
    "perf.max_perf": "PERFORMANCE_MAX_PERF", "perf.abs_perf": "PERFORMANCE_ABS_PERF",
    "perf.epsilon": "PERFORMANCE_EPSILON", "perf.beta_threshold": "PERFORMANCE_BETA_THRESHOLD",
    "auto.preproc": "AUTO_PREPROC", "bound.flag": "BOUND_FLAG", "norm.flag": "NORM_FLAG",
    "selvars.small_scale_flag": "SELVARS_SMALL_SCALE_FLAG", "selvars.small_scale": "SELVARS_SMALL_SCALE",
    "selvars.file_idx_flag": "SELVARS_FILE_IDX_FLAG", "selvars.file_idx": "SELVARS_FILE_IDX",
    "selvars.density_flag": "SELVARS_DENSITY_FLAG", "selvars.min_distance": "SELVARS_MIN_DISTANCE",
    "selvars.selvars_type": "SELVARS_TYPE", "sifted.flag": "SIFTED_FLAG", "sifted.rho": "SIFTED_RHO",
    "sifted.k": "SIFTED_K", "sifted.n_trees": "SIFTED_NTREES", "sifted.max_iter": "SIFTED_MAX_ITER",
    "sifted.replicates": "SIFTED_REPLICATES", "sifted.num_generations": "SIFTED_NUM_GENERATION",
    "sifted.num_parents_mating": "SIFTED_NUM_PARENTS_MATING", "sifted.sol_per_pop": "SIFTED_SOL_PER_POP",
    "sifted.parent_selection_type": "SIFTED_PARENT_SELECTION_TYPE", "sifted.k_tournament": "SIFTED_K_TOURNAMENT",
    "sifted.keep_elitism": "SIFTED_KEEP_ELITISM", "sifted.crossover_type": "SIFTED_CROSSOVER_TYPE",
    "sifted.cross_over_probability": "SIFTED_CROSSOVER_PROBABILITY",
    "sifted.mutation_type": "SIFTED_MUTATION_TYPE", "sifted.mutation_probability": "SIFTED_MUTATION_PROBABILITY",
    "sifted.stop_criteria": "SIFTED_STOP_CRITERIA", "pilot.analytic": "PILOT_ANALYTICS",
    "pilot.n_tries": "PILOT_N_TRIES", "cloister.p_val": "CLOISTER_P_VAL", "cloister.c_thres": "CLOISTER_C_THRES",
    "pythia.cv_folds": "PYTHIA_CV_FOLDS", "pythia.is_poly_krnl": "PYTHIA_IS_POLY_KRNL",
    "pythia.use_weights": "PYTHIA_USE_WEIGHTS", "pythia.use_grid_search": "PYTHIA_USE_GRID_SEARCH",
    "trace.use_sim": "TRACE_USE_SIM", "trace.purity": "TRACE_PURITY", "outputs.csv": "OUTPUTS_CSV",
    "outputs.web": "OUTPUTS_WEB", "outputs.png": "OUTPUTS_PNG",
}


def o():
    import instancespace.data.options as m
    return m


def default_of(sec, opt):
    import instancespace.data.default_options as d
    if f"{sec}.{opt}" not in CONST:
        return None
    if not hasattr(d, "DEFAULT_" + CONST[f"{sec}.{opt}"]):
        return getattr(getattr(o().InstanceSpaceOptions.default(), sec), opt)
    return getattr(d, "DEFAULT_" + CONST[f"{sec}.{opt}"])


def some_value(rng):
    k = int(rng.integers(9))
    return [0, False, True, int(rng.integers(-9, 1000)), float(rng.normal()), "", f"s{int(rng.integers(99))}",
            [1.5, 2], None][k]


def case_mix(rng, s):
    return "".join(ch.upper() if rng.random() < 0.3 else ch for ch in s)


def g_options(rng, i):
    secs = [s for s in LEGACY if rng.random() < 0.55]
    rng.shuffle(secs)
    d, want = {}, {}
    for s in secs:
        d[s] = {}
        names = [n for n in LEGACY[s] if rng.random() < 0.5]
        rng.shuffle(names)
        for n in names:
            ways = [n, *LEGACY[s][n]]
            key = ways[int(rng.integers(len(ways)))]
            if i % 3 == 0:
                key = case_mix(rng, key)
            v = some_value(rng)
            d[s][key] = v
            want[s, n] = v
    bad = None
    if i % 4 == 1:
        s = list(LEGACY)[int(rng.integers(len(LEGACY)))]
        d.setdefault(s, {})
        k = int(rng.integers(5))
        if k == 0:
            d["unknown" if rng.random() < 0.5 else s.upper()] = {}
            bad = "unknown section"
        elif k == 1:
            other = [n for t in LEGACY for n in [*LEGACY[t], *sum(LEGACY[t].values(), [])]
                     if n not in LEGACY[s] and n not in sum(LEGACY[s].values(), [])]
            d[s][["bogus", "flags", other[int(rng.integers(len(other)))], ""][int(rng.integers(4))]] = 1
            bad = "unknown option"
        elif k == 2:
            tw = [(t, n) for t in LEGACY for n in LEGACY[t] if LEGACY[t][n]]
            s, n = tw[int(rng.integers(len(tw)))]
            d.setdefault(s, {})
            d[s] = {q: v for q, v in d[s].items() if q.lower() not in (n, LEGACY[s][n][0])}
            pair = [(n, 1), (LEGACY[s][n][0], 2)]
            if rng.random() < 0.3:
                pair = [(n, 1), (n.upper(), 1)]
            rng.shuffle(pair)
            for q, v in pair:
                d[s][str(q)] = int(v)
            bad = "option given twice"
        elif k == 3:
            d[s] = [[], 3, "x", None, True, 0, ""][int(rng.integers(7))]
            bad = "section is not an object"
        else:
            d = [[], [1], 3, "x", None, True, [["perf", {}]], 0, ""][int(rng.integers(9))]
            bad = "not an object"
    return {"d": d, "want": [[*k, v] for k, v in want.items()], "bad": bad}


def check_opts(c, got):
    want = {(s, n): v for s, n, v in c["want"]}
    for s in LEGACY:
        rec = getattr(got, s)
        for n in [f.name for f in fields(rec)]:
            v = getattr(rec, n)
            w = want[s, n] if (s, n) in want else default_of(s, n)
            need(type(v) is type(w) and v == w, f"{s}.{n} is {v!r}, expected {w!r}")


@oracle("C10", g_options, 1200, 20000)
def options_from_dict(c):
    """random option objects (own, legacy and mixed-case names; falsy values; unknown, duplicate and ill-formed parts): exact values, defaults elsewhere, rejection as a ValueError"""
    import copy
    d0 = copy.deepcopy(c["d"])
    try:
        got = o().InstanceSpaceOptions.from_dict(c["d"])
    except ValueError:
        need(c["bad"], "a valid options object was rejected")
        return
    finally:
        need(c["d"] == d0, "the given options object changed")
    need(not c["bad"], f"accepted although {c['bad']}")
    check_opts(c, got)


def write_options(path, c, rng_kind):
    text = json.dumps(c["d"])
    if rng_kind == "broken":
        text = text[:-1] if len(text) > 1 else "{"
    data = text.encode()
    if rng_kind == "binary":
        data = b"\xff\xfe\x00" + data
    path.write_bytes(data)


def g_options_file(rng, i):
    c = g_options(rng, i)
    c["kind"] = ["ok", "ok", "broken", "binary", "missing", "directory", "empty"][int(rng.integers(7))]
    c["as_str"] = bool(rng.random() < 0.5)
    return c


@oracle("C10", g_options_file, 300, 3000)
def options_from_file(c):
    """the same objects written to files, and unreadable, truncated, empty, binary or missing files: exactly the options of the file, or None"""
    tmp = Path(tempfile.mkdtemp())
    try:
        p = tmp / "options.json"
        if c["kind"] == "directory":
            p.mkdir()
        elif c["kind"] == "empty":
            p.write_text("")
        elif c["kind"] != "missing":
            write_options(p, c, c["kind"])
        before = p.read_bytes() if p.is_file() else None
        got = o().from_json_file(str(p) if c["as_str"] else p)
        need(before is None or p.read_bytes() == before, "the file was modified")
        if c["kind"] != "ok" or c["bad"]:
            need(got is None, f"options from a bad file ({c['kind']}, {c['bad']})")
        else:
            need(got is not None, "no options from a good file")
            check_opts(c, got)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@oracle("C10", lambda rng, i: {"i": i, "v": [some_value(rng) for _ in range(20)],
                               "secs": [s for s in LEGACY if rng.random() < .5]}, 100, 500)
def option_defaults(c):
    """default() of every section, alone and with some arguments given: given arguments under their own names, documented constants elsewhere"""
    m = o()
    whole = m.InstanceSpaceOptions.default()
    for s in LEGACY:
        rec = getattr(whole, s)
        for f in fields(rec):
            w = default_of(s, f.name)
            v = getattr(rec, f.name)
            need(type(v) is type(w) and v == w, f"default {s}.{f.name} is {v!r}, expected {w!r}")
        import inspect
        par = list(inspect.signature(type(rec).default).parameters)
        take = [p for k, p in enumerate(par) if (c["i"] >> (k % 6)) & 1]
        vals = {p: c["v"][k % 20] for k, p in enumerate(take)}
        r2 = type(rec).default(**vals)
        for f in fields(rec):
            w = vals[f.name] if f.name in vals else default_of(s, f.name)
            need(getattr(r2, f.name) is w or getattr(r2, f.name) == w, f"default({f.name}=...) of {s}")
    some = {s: type(getattr(whole, s)).default(**{list(LEGACY[s])[0 if s != 'pilot' else 3]: 77}) for s in c["secs"]}
    w2 = m.InstanceSpaceOptions.default(**some)
    for s in LEGACY:
        need(getattr(w2, s) == (some[s] if s in some else getattr(whole, s)), f"section {s} of default()")


# ------------------------------------------------------------------ C11
def g_frame(rng, i):
    n = int(rng.integers(1, 7))
    nf, na = int(rng.integers(0, 6)), int(rng.integers(0, 5))
    cols = []
    pre = lambda p: p if i % 3 else case_mix(rng, p)
    used = set()

    def nm(p):
        while True:
            x = f"{pre(p)}{'abcXYZ'[int(rng.integers(6))]}{int(rng.integers(60))}"
            if x not in used:
                used.add(x)
                return x
    for _ in range(nf):
        v = rng.normal(size=n).round(4)
        if rng.random() < 0.3:
            v[rng.random(n) < 0.4] = np.nan
        cols.append((nm("feature_"), v))
    for _ in range(na):
        v = rng.normal(size=n).round(4)
        if rng.random() < 0.2:
            v[rng.random(n) < 0.4] = np.nan
        cols.append((nm("algo_"), v))
    for x in ("my_feature_x", "algorithm", "feat_x", "xalgo_y", "Source2", "instances_old", "feature", "algo"):
        if rng.random() < 0.15:
            cols.append((x, rng.normal(size=n)))
    ids = ["text", "int", "float", "numtext"][i % 4]
    lab = rng.permutation(50)[:n]
    if ids == "text":
        lv = [f"in{int(k)}" for k in lab]
    elif ids == "int":
        lv = [int(k) for k in lab]
    elif ids == "float":
        lv = [float(k) + 0.5 for k in lab]
    else:
        lv = [f"0{int(k)}x" for k in lab]
    cols.append((pre("instances") if i % 2 else "Instances", lv))
    if rng.random() < 0.6:
        cols.append((pre("source") if i % 2 else "Source", [f"src{int(k)}" for k in rng.integers(0, 3, n)]))
    rng.shuffle(cols)
    # rng.shuffle on a list of tuples keeps them intact
    return {"cols": [(str(k), list(v)) for k, v in cols], "n": n, "ids": ids}


def frame(c):
    return pd.DataFrame({k: v for k, v in c["cols"]}, columns=[k for k, _ in c["cols"]])


def check_meta(c, m, exact_labels=True):
    cols = c["cols"]
    feat = [(k, v) for k, v in cols if k.lower().startswith("feature_")]
    algo = [(k, v) for k, v in cols if k.lower().startswith("algo_")]
    lab = next(v for k, v in cols if k.lower() == "instances")
    src = next((v for k, v in cols if k.lower() == "source"), None)
    need(list(m.feature_names) == [k for k, _ in feat], f"feature names {m.feature_names}")
    need(list(m.algorithm_names) == [k for k, _ in algo], f"algorithm names {m.algorithm_names}")
    for got, want, what in ((m.features, feat, "features"), (m.algorithms, algo, "performances")):
        need(got.shape == (c["n"], len(want)), f"shape of the {what} is {got.shape}")
        for j, (k, v) in enumerate(want):
            need(same(np.asarray(got[:, j], float), np.asarray(v, float)), f"values of {k}")
    ids = list(m.instance_labels)
    need(len(ids) == c["n"], "number of instance labels")
    for x, v in zip(ids, lab):
        need(isinstance(x, str) and (x == str(v) or (not isinstance(v, str) and float(x) == v)),
             f"instance label {x!r} for {v!r}")
    need((m.instance_sources is None) == (src is None), "presence of the sources")
    if src is not None:
        need(list(m.instance_sources) == list(src), "sources")


@oracle("C11", g_frame, 500, 6000)
def metadata_from_frame(c):
    """random tables (shuffled columns, mixed-case and near-miss prefixes, text and numeric identifiers, missing values, one to six rows): the partition by prefix, in order, with unchanged values"""
    import instancespace.data.metadata as md
    df = frame(c)
    b4 = df.copy(deep=True)
    m = md.Metadata.from_data_frame(df)
    check_meta(c, m)
    pd.testing.assert_frame_equal(df, b4)


@oracle("C11", g_frame, 150, 1500)
def metadata_from_csv(c):
    """the same tables through a CSV file"""
    import instancespace.data.metadata as md
    tmp = Path(tempfile.mkdtemp())
    try:
        p = tmp / "metadata.csv"
        frame(c).to_csv(p, index=False)
        before = p.read_bytes()
        m = md.from_csv_file(p if c["n"] % 2 else str(p))
        need(p.read_bytes() == before, "the file was modified")
        check_meta(c, m)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ C12
def g_space(rng, i):
    while True:
        c = g_frame(rng, i)
        names = [k.lower() for k, _ in c["cols"]]
        if any(k.startswith("feature_") for k in names) and any(k.startswith("algo_") for k in names):
            break
    oc = g_options(rng, i)
    while oc["bad"] and rng.random() < 0.7:
        oc = g_options(rng, i + int(rng.integers(4)))
    kinds = ["ok"] * 5 + ["missing", "directory", "empty", "binary", "broken"]
    return {"meta": c, "opt": oc, "mk": kinds[int(rng.integers(len(kinds)))],
            "ok": kinds[int(rng.integers(len(kinds)))], "how": i % 2}


@oracle("C12", g_space, 160, 1600)
def space_from_files(c):
    """random metadata and options files in a scratch directory, each possibly missing, empty, binary or ill-formed: an instance space holding exactly their content, or None; the files stay as they were"""
    import instancespace.instance_space as sp
    tmp = Path(tempfile.mkdtemp())
    try:
        mn, on = ("metadata.csv", "options.json") if c["how"] else ("m.csv", "o.json")
        mp, op = tmp / mn, tmp / on
        if not c["how"]:          # decoys
            (tmp / "metadata.csv").write_text("Instances,feature_z,algo_z\nq,1,2\n")
            (tmp / "options.json").write_text("{}")
        if c["mk"] == "directory":
            mp.mkdir()
        elif c["mk"] == "empty":
            mp.write_text("")
        elif c["mk"] == "binary":
            mp.write_bytes(b"\xff\xfe\x81,\x00\n\x9d\xff,3\n")
        elif c["mk"] == "broken":
            mp.write_text('Instances,feature_a,algo_b\n1,2,3,4,5\n1,2\n1,2,3,4,5,6,7\n')
        elif c["mk"] == "ok":
            frame(c["meta"]).to_csv(mp, index=False)
        k = c["ok"]
        if k == "directory":
            op.mkdir()
        elif k == "empty":
            op.write_text("")
        elif k in ("ok", "binary", "broken"):
            write_options(op, c["opt"], k)
        before = {p: p.read_bytes() for p in (mp, op) if p.is_file()}
        listing = sorted(os.listdir(tmp))
        got = sp.instance_space_from_directory(tmp) if c["how"] else sp.instance_space_from_files(mp, op)
        need(listing == sorted(os.listdir(tmp)), "files were created or removed")
        for p, b in before.items():
            need(p.read_bytes() == b, f"{p.name} was modified")
        good = c["mk"] == "ok" and c["ok"] == "ok" and not c["opt"]["bad"]
        if not good:
            need(got is None, f"an instance space from bad files ({c['mk']}, {c['ok']}, {c['opt']['bad']})")
        else:
            need(got is not None, "no instance space from good files")
            check_meta(c["meta"], got.metadata)
            check_opts(c["opt"], got.options)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
