"""C35: the same run gives the same results."""
import dataclasses
import hashlib
import json
import os
import random
import subprocess
import sys
from unittest import mock

import numpy as np
import pandas as pd

from .base import Skip, need, oracle
from .o_data import g_prelim, run_prelim
from .o_outputs import freeze
from .o_sifted import g_sift, sift_input, stub
from .o_space import g_pilot
from .o_trace import g_stage, topts


def shown(v):
    """Everything a stage returns, without the addresses of fitted models."""
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return {k.name: shown(getattr(v, k.name)) for k in dataclasses.fields(v)}
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return {k: shown(getattr(v, k)) for k in v._fields}
    if isinstance(v, (list, tuple)):
        return [shown(x) for x in v]
    if isinstance(v, dict):
        return {str(k): shown(x) for k, x in sorted(v.items(), key=lambda t: str(t[0]))}
    if hasattr(v, "support_vectors_"):
        return [repr(v), shown(np.asarray(v.support_vectors_)), shown(np.asarray(v.dual_coef_))]
    if hasattr(v, "get_params"):
        return repr(v)
    return freeze(v)


def differs(a, b, at="result"):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            r = differs(a[k], b.get(k), f"{at}.{k}")
            if r:
                return r
        return ""
    return "" if a == b else f"{at}: {str(a)[:150]} and {str(b)[:150]}"


def disturb(k):
    """What other code may have done to the shared generators in the meantime."""
    random.seed(k)
    np.random.seed(k % (2 ** 32))
    np.random.random(k % 7)
    random.random()


def result(f, c):
    try:
        return shown(f(c))
    except (AssertionError, Skip, TypeError, AttributeError, ImportError):
        raise
    except OSError as e:
        raise Skip(f"no workers: {e}") from None
    except Exception as e:  # noqa: BLE001
        return repr(type(e))


def twice(f, c, between=None):
    keep = random.getstate(), np.random.get_state()
    try:
        disturb(c["salt"])
        one = result(f, c)
        if between is not None:
            result(f, between)
        disturb(c["salt"] + 12345)
        two = result(f, dict(c, workers=c.get("again", 1)))
    finally:
        random.setstate(keep[0])
        np.random.set_state(keep[1])
    r = differs(one, two)
    need(not r, f"the same run gave two results: {r}")


def salted(g):
    def f(rng, i):
        return dict(g(rng, i), salt=int(rng.integers(1, 10 ** 6)))
    return f


# ---------------------------------------------------------------- preparation
def g_prep(rng, i):
    c = g_prelim(rng, i)
    if i % 3:
        k = int(rng.integers(2, 5))
        for n in ("x", "y", "x_raw", "y_raw"):
            c[n] = np.concatenate([c[n]] * k)
        c["il"] = pd.Series([f"i{q}" for q in range(len(c["x"]))])
        c["s"] = None
        c["sel"] = dict(small_scale_flag=True, small_scale=float(rng.choice([0.3, 0.5, 0.7])))
    return c


@oracle("C35", salted(g_prep), 60, 800)
def preparation_repeats(c):
    """preparation with and without a random subset, twice with other random numbers drawn in between"""
    twice(run_prelim, c)


# ---------------------------------------------------------------- selection
def run_sift(c):
    import contextlib

    from .o_sifted import mods
    o, m = mods()
    inp = sift_input(c)
    inp = inp._replace(sifted_options=dataclasses.replace(inp.sifted_options, replicates=c["reps"], keep_elitism=c["elite"]))
    if c.get("workers", 1) > 1:
        inp = inp._replace(parallel_options=o.ParallelOptions.default(flag=True, n_cores=c["workers"]))
    with contextlib.ExitStack() as st:
        for p in stub(m):
            st.enter_context(p)
        return m.SiftedStage._run(inp)


def g_two(rng, i):
    k = 3 if i % 2 else int(rng.choice([3, 4]))
    c = g_sift(rng, k)
    n, a = c["x"].shape[0], c["y"].shape[1]
    base = c["y"][:, :1]
    c["x"] = base + np.linspace(0.3, 1.2, 8) * rng.normal(size=(n, 8))
    c["feat_labels"] = [f"f{q}" for q in range(8)]
    c["x_raw"] = rng.normal(size=(n, 8))
    if c["dense"]:
        nd = len(c["dd"]["y"])
        c["dd"]["x"], c["dd"]["x_raw"] = rng.normal(size=(nd, 8)), rng.normal(size=(nd, 8))
    c.update(flag=True, rho=0.05, reps=int(rng.integers(1, 3)), elite=int(rng.integers(2)), k=int(rng.integers(2, 5)))
    return c


@oracle("C35", salted(lambda r, i: dict(g_two(r, i), other=g_two(r, i + 1), again=2 if i % 4 == 3 else 1)), 10, 100)
def selection_repeats(c):
    """automatic feature selection (clustering and genetic search of the real libraries), twice with a run on other data in between, the second time also with two workers"""
    twice(run_sift, c, c["other"])


# ---------------------------------------------------------------- projection
def run_pilot(c):
    import instancespace.data.options as o
    import instancespace.stages.pilot as m
    opts = o.PilotOptions.default(analytic=c["mode"] == "analytic", n_tries=c["tries"], x0=c["x0"], alpha=c["alpha"])
    return m.PilotStage._run(m.PilotInput(x=c["x"], y=c["y"], feat_labels=c["fl"], pilot_options=opts))


@oracle("C35", salted(lambda r, i: dict(g_pilot(r, (0, 1, 1, 3)[i % 4]), other=g_pilot(r, 1))), 12, 200)
def projection_repeats(c):
    """analytic and numerical projections, twice with a projection of other data in between"""
    twice(run_pilot, c, c["other"])


# ---------------------------------------------------------------- models
def g_models(rng, i):
    n, a = int(rng.integers(16, 22)), 1 + i % 2
    z = rng.normal(size=(n, 2))
    y = z @ rng.normal(size=(2, a)) + rng.normal(size=(n, a)) * 0.6
    yb = y > np.median(y, axis=0)
    return dict(z=z, y=y, y_bin=yb, y_best=y.min(axis=1), al=[f"a{q}" for q in range(a)], poly=bool(i % 3 == 2), grid=bool(i % 5 != 4),
                weights=bool(i % 2))


def run_models(c):
    import instancespace.data.options as o
    import instancespace.stages.pythia as m
    opts = o.PythiaOptions.default(cv_folds=2, is_poly_krnl=c["poly"], use_weights=c["weights"], use_grid_search=c["grid"])

    def few(cls):
        def make(*a, **k):
            if "n_iter" in k:
                k["n_iter"] = 6
            return cls(*a, **k)
        return make
    import contextlib
    with contextlib.ExitStack() as st:
        for n in ("RandomizedSearchCV", "BayesSearchCV"):
            if hasattr(m, n):
                st.enter_context(mock.patch.object(m, n, few(getattr(m, n))))
        return m.PythiaStage._run(m.PythiaInput(z=c["z"].copy(), y_raw=c["y"].copy(), y_bin=c["y_bin"].copy(), y_best=c["y_best"].copy(),
                                                algo_labels=list(c["al"]), pythia_options=opts,
                                                parallel_options=o.ParallelOptions.default(flag=c.get("workers", 1) > 1, n_cores=c.get("workers", 1))))


@oracle("C35", salted(lambda r, i: dict(g_models(r, i), other=g_models(r, i + 1), again=2 if i % 4 == 1 else 1)), 8, 60)
def models_repeat(c):
    """the models with fewer candidates (random and Bayesian search, both kernels), twice with the models of other data in between, the second time also with two workers"""
    twice(run_models, c, c["other"])


# ---------------------------------------------------------------- footprints
def run_trace(c):
    import instancespace.stages.trace as m
    to, po = topts(c["purity"], c["sim"], c.get("workers", c["cores"]))
    return m.TraceStage._run(m.TraceInputs(z=c["z"].copy(), selection0=c["sel"].copy(), p=c["p"].copy(), beta=c["beta"].copy(),
                                           algo_labels=list(c["al"]), y_hat=c["y_hat"].copy(), y_bin=c["y_bin"].copy(),
                                           trace_options=to, parallel_options=po))


@oracle("C35", salted(lambda r, i: dict(g_stage(r, i), again=1 + i % 3)), 6, 60)
def footprints_repeat(c):
    """the footprints of random instances, twice, with any number of workers"""
    twice(run_trace, c)


# ---------------------------------------------------------------- another process
RUNS = dict(prep=(g_prep, run_prelim), sift=(g_two, run_sift), pilot=(lambda r, i: g_pilot(r, 1), run_pilot),
            models=(g_models, run_models), trace=(g_stage, run_trace))


def sibling(c):
    """Other data with the same names and extents."""
    return {k: v[::-1].copy() if isinstance(v, np.ndarray) and v.ndim else sibling(v) if isinstance(v, dict) else v for k, v in c.items()}


def digests(seed, i, before=False):
    out = {}
    for k, (g, f) in RUNS.items():
        rng = np.random.default_rng([seed, i, len(k)])
        try:
            c = g(rng, i)
            if before:
                result(f, sibling(c))
            out[k] = {q: hashlib.sha256(repr(v).encode()).hexdigest() for q, v in flat(result(f, c)).items()}
        except Skip:
            pass
    return out


def flat(v, at=""):
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            out.update(flat(x, f"{at}.{k}"))
        return out
    return {at: v}


@oracle("C35", lambda r, i: dict(seed=int(r.integers(10 ** 6)), i=i, salt=int(r.integers(1, 10 ** 6))), 2, 12)
def another_process(c):
    """every stage here and in two other processes with other hash seeds and random numbers, one fresh and one after a run on other data with the same names"""
    disturb(c["salt"])
    here = digests(c["seed"], c["i"])
    for q in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(1 + (c["salt"] + q) % 1000), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-m", "concrete.o_repeat", str(c["seed"]), str(c["i"]), str(c["salt"] + 77 * q + 1), str(q)],
                           capture_output=True, text=True, env=env, timeout=120)
        if r.returncode != 0:
            raise Skip("the other process did not run")
        there = json.loads(r.stdout.splitlines()[-1])
        for k in here:
            bad = [n or "outcome" for n in here[k] if here[k][n] != there.get(k, {}).get(n)]
            need(not bad, f"{k} gave other results in another process: {bad}")


if __name__ == "__main__":
    from .base import quiet
    with quiet():
        disturb(int(sys.argv[3]))
        res = digests(int(sys.argv[1]), int(sys.argv[2]), sys.argv[4] == "1")
    print(json.dumps(res))
