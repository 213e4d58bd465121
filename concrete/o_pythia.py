"""C25, C26: predictions and their summary."""
import math
from types import SimpleNamespace
from unittest import mock

import numpy as np

from .base import Known, Skip, close, find, labels, need, oracle, same

ST = "instancespace.stages."


def g_sel(rng, i):
    n, a = int(rng.integers(1, 9)), int(rng.integers(1, 6))
    prec = rng.random(a).round(3)
    if i % 3 == 0:
        prec[rng.random(a) < 0.4] = prec[0]        # ties
    if i % 5 == 1:
        prec[rng.random(a) < 0.3] = 0.0
    if i % 7 == 3:
        prec[0] = 1.0
    return dict(prec=prec.tolist(), y_hat=rng.random((n, a)) < rng.choice([0.15, 0.5, 0.9]),
                y_bin=rng.random((n, a)) < rng.random(a))


def check_sel(prec, y_hat, y_bin, s0, s1):
    n, a = y_hat.shape
    need(len(s0) == n and len(s1) == n, "one selection per instance")
    good = [y_bin[:, j].mean() for j in range(a)]
    for r in range(n):
        cand = [j for j in range(a) if y_hat[r, j]]
        pos = [j for j in cand if prec[j] > 0]
        if not pos:
            if a == 1 and cand:
                continue
            need(s0[r] == -1, f"instance {r}: {s0[r]} is recommended although none is predicted good")
            need(0 <= s1[r] < a and good[int(s1[r])] == max(good), f"instance {r}: default {s1[r]} is not good most often")
        else:
            need(int(s0[r]) in cand and prec[int(s0[r])] == max(prec[j] for j in cand),
                 f"instance {r}: {s0[r]} is not the most precise of {cand}")
            need(s1[r] == s0[r], f"instance {r}: the default replaces a recommendation")


@oracle("C25", g_sel, 1500, 30000)
def selection_rule(c):
    """random predictions and precisions (ties, zeros, one algorithm, none predicted good): the recommendation and its variant with a default"""
    f = find(ST + "pythia:PythiaStage._determine_selections", ["nalgos", "precision", "y_hat", "y_bin"])
    a, b = c["y_hat"].copy(), c["y_bin"].copy()
    s0, s1 = f(c["y_hat"].shape[1], c["prec"], c["y_hat"], c["y_bin"])
    need(same(a, c["y_hat"]) and same(b, c["y_bin"]), "the predictions changed")
    check_sel(c["prec"], a, b, s0, s1)


def g_run(rng, i):
    n, a = int(rng.integers(4, 12)), int(rng.integers(1, 5))
    y_bin = rng.random((n, a)) < 0.5
    for j in range(a):
        y_bin[0, j], y_bin[1, j] = True, False
        rng.shuffle(y_bin[:, j])
    y = rng.normal(5, 4, (n, a))
    y_hat = rng.random((n, a)) < rng.choice([0.2, 0.6, 0.95])
    y_hat[int(rng.integers(n)), :] = True
    if i % 3 == 1:
        y[rng.random((n, a)) < 0.1] = np.nan
        y[0] = 1.0
    return dict(z=rng.normal(3, 5, (n, 2)), y=y, y_bin=y_bin, y_best=rng.normal(size=n), al=labels(rng, a, "algo_"),
                y_hat=y_hat, y_sub=rng.random((n, a)) < 0.5, ph=rng.random((n, a)), ps=rng.random((n, a)),
                cc=(rng.random(a) * 9 + .1).round(4), gg=(rng.random(a) * 3 + .1).round(4), weights=bool(i % 2),
                best2d=bool(i % 4 == 0))


def rate(t, p):
    t, p = np.asarray(t, bool), np.asarray(p, bool)
    tp = int((t & p).sum())
    return (float((t == p).mean()), tp / p.sum() if p.sum() else 0.0, tp / t.sum() if t.sum() else 0.0)


def nmean(v):
    v = [float(x) for x in np.asarray(v).ravel() if not math.isnan(x)]
    return sum(v) / len(v) if v else math.nan


def nstd(v):
    v = [float(x) for x in np.asarray(v).ravel() if not math.isnan(x)]
    if not v:
        return math.nan
    m = sum(v) / len(v)
    return math.sqrt(sum((x - m) ** 2 for x in v) / len(v))


def eq3(got, want, what, tol=1.1e-3):
    if want is None or math.isnan(want):
        need(got == "" or (isinstance(got, float) and math.isnan(got)), f"{what} is {got!r}, expected none")
    else:
        need(got != "" and abs(float(got) - want) <= tol, f"{what} is {got!r}, expected {want}")


def check_summary(df, al, y, y_hat, y_bin, y_best, s0, s1, prec, acc, rec, cc, gg):
    n, a = y_bin.shape
    need(list(df["Algorithms"]) == [*al, "Oracle", "Selector"], f"rows {list(df['Algorithms'])}")
    for j in range(a):
        R = df.iloc[j]
        sel = y[:, j][y_hat[:, j]]
        for col, w in (("Avg_Perf_all_instances", nmean(y[:, j])), ("Std_Perf_all_instances", nstd(y[:, j])),
                       ("Probability_of_good", y_bin[:, j].mean()), ("Avg_Perf_selected_instances", nmean(sel)),
                       ("Std_Perf_selected_instances", nstd(sel)), ("CV_model_accuracy", 100 * acc[j]),
                       ("CV_model_precision", 100 * prec[j]), ("CV_model_recall", 100 * rec[j]),
                       ("BoxConstraint", cc[j]), ("KernelScale", gg[j])):
            eq3(R[col], w, f"{col} of {al[j]}")
    O, S = df.iloc[a], df.iloc[a + 1]
    eq3(O["Avg_Perf_all_instances"], nmean(y_best), "oracle mean")
    eq3(O["Std_Perf_all_instances"], nstd(y_best), "oracle deviation")
    eq3(O["Probability_of_good"], 1.0, "oracle probability of good")
    full = [y[r, int(s1[r])] for r in range(n)]
    for col in ("Avg_Perf_all_instances", "Avg_Perf_selected_instances"):
        eq3(S[col], nmean(full), f"selector {col}")
    for col in ("Std_Perf_all_instances", "Std_Perf_selected_instances"):
        eq3(S[col], nstd(full), f"selector {col}")
    eq3(S["Probability_of_good"], np.mean([y_bin[r, int(s1[r])] for r in range(n)]), "selector probability of good")
    picked = [(r, int(s0[r])) for r in range(n) if s0[r] >= 0]
    tp = sum(bool(y_bin[r, j]) for r, j in picked)
    eq3(S["CV_model_precision"], 100 * (tp / len(picked) if picked else 0.0), "selector precision")
    eq3(S["CV_model_recall"], 100 * (tp / y_bin.sum() if y_bin.sum() else 0.0), "selector recall")
    for row, cols in ((O, ("Avg_Perf_selected_instances", "Std_Perf_selected_instances", "CV_model_accuracy",
                           "CV_model_precision", "CV_model_recall", "BoxConstraint", "KernelScale")),
                      (S, ("CV_model_accuracy", "BoxConstraint", "KernelScale"))):
        for col in cols:
            eq3(row[col], None, col)


@oracle("C26", g_run, 200, 3000)
def summary_table(c):
    """random predictions, selections and performances (missing values, instances without a selection): every entry against its definition"""
    f = find(ST + "pythia:PythiaStage._generate_summary",
             ["nalgos", "algo_labels", "y", "y_hat", "y_bin", "y_best", "selection0", "selection1", "precision",
              "accuracy", "recall", "box_consnt", "k_scale"])
    n, a = c["y_bin"].shape
    rng = np.random.default_rng(int(abs(c["z"][0, 0]) * 1e6))
    s0 = rng.integers(-1, a, n)
    s1 = np.where(s0 < 0, rng.integers(0, a, n), s0)
    m3 = [list(rng.random(a).round(4)) for _ in range(3)]
    b4 = {k: c[k].copy() for k in ("y", "y_hat", "y_bin", "y_best")}
    df = f(a, c["al"], c["y"], c["y_hat"], c["y_bin"], c["y_best"], s0.copy(), s1.copy(), m3[0], m3[1], m3[2],
           list(c["cc"]), list(c["gg"]))
    for k, v in b4.items():
        need(same(c[k], v), f"the caller's {k} changed")
    check_summary(df, c["al"], b4["y"], b4["y_hat"], b4["y_bin"], b4["y_best"], s0, s1, m3[0], m3[1], m3[2],
                  c["cc"], c["gg"])


@oracle("C26", g_run, 300, 3000)
def input_normalisation(c):
    """random coordinates: reported mean and (sample) deviation reproduce the normalised inputs"""
    f = find(ST + "pythia:PythiaStage._compute_znorm", ["z"])
    z0 = c["z"].copy()
    mu, sg, zn = f(c["z"])
    need(same(c["z"], z0), "the coordinates changed")
    need(close(mu, z0.mean(axis=0)), "mean")
    need(close(np.asarray(zn) * np.asarray(sg) + np.asarray(mu), z0, 1e-9), "mu and sigma do not describe the normalisation")
    need(close(np.std(zn, axis=0, ddof=1), np.ones(2)) and close(np.mean(zn, axis=0), np.zeros(2), 0, 1e-9), "not standardised")


def fake_fit(c, seen):
    state = {"j": 0}

    def fit(z, y_bin, w, skf, is_poly_kernel, param_space, use_grid_search, parallel_options):
        import instancespace.stages.pythia as m
        j = state["j"]
        state["j"] += 1
        seen.append(dict(z=np.array(z), y=np.array(y_bin), w=np.array(w), poly=is_poly_kernel, ps=param_space,
                         grid=use_grid_search))
        return m._SvmRes(svm=("svm", j), Ysub=c["y_sub"][:, j], Psub=c["ps"][:, j], Yhat=c["y_hat"][:, j],
                         Phat=c["ph"][:, j], c=float(c["cc"][j]), g=float(c["gg"][j]))
    return fit


@oracle("C26", g_run, 150, 2000)
def stage_with_given_models(c):
    """the whole stage with the training of each model replaced by given predictions: each algorithm's record, selection and summary are its own"""
    import instancespace.data.options as o
    import instancespace.stages.pythia as m
    fit = find(ST + "pythia:PythiaStage._fitmatsvm",
               ["z", "y_bin", "w", "skf", "is_poly_kernel", "param_space", "use_grid_search", "parallel_options"])
    if not hasattr(m, "_SvmRes"):
        raise Skip("_SvmRes is gone")
    n, a = c["y_bin"].shape
    yb = c["y_best"].reshape(-1, 1) if c["best2d"] else c["y_best"]
    seen = []
    b4 = {k: c[k].copy() for k in ("z", "y", "y_bin", "y_best")}
    opts = o.PythiaOptions.default(cv_folds=2, use_weights=c["weights"], use_grid_search=True)
    with mock.patch.object(m.PythiaStage, "_fitmatsvm", staticmethod(fake_fit(c, seen))):
        out = m.PythiaStage._run(m.PythiaInput(z=c["z"], y_raw=c["y"], y_bin=c["y_bin"], y_best=yb,
                                               algo_labels=c["al"], pythia_options=opts,
                                               parallel_options=o.ParallelOptions.default()))
    for k, v in b4.items():
        need(same(c[k], v), f"the caller's {k} changed")
    need(len(seen) == a, f"{len(seen)} models were trained")
    for j, s in enumerate(seen):
        need(same(s["y"], c["y_bin"][:, j]), f"model {j} was trained on another algorithm")
        need(close(s["z"] * np.asarray(out.sigma) + np.asarray(out.mu), c["z"], 1e-9), "inputs of the models")
        if c["weights"]:
            w = np.abs(b4["y"] - nmean(b4["y"]))
            w = np.where(w == 0, w[(w != 0) & ~np.isnan(w)].min(), w)
            w = np.where(np.isnan(w), np.nanmax(w), w)
            need(close(s["w"], w[:, j]), f"weights of model {j}")
        else:
            need(close(s["w"], np.ones(n)), f"weights of model {j}")
    for got, want, what in ((out.y_hat, c["y_hat"], "y_hat"), (out.y_sub, c["y_sub"], "y_sub"),
                            (out.pr0_hat, c["ph"], "pr0_hat"), (out.pr0_sub, c["ps"], "pr0_sub"),
                            (out.box_consnt, c["cc"], "box_consnt"), (out.k_scale, c["gg"], "k_scale")):
        need(same(got, want), f"{what} differs from the models' own")
    need([s for s in out.svm] == [("svm", j) for j in range(a)], "models")
    known = None
    for j in range(a):
        t = c["y_bin"][:, j]
        p = c["y_sub"][:, j]
        cm = [int((~t & ~p).sum()), int((~t & p).sum()), int((t & ~p).sum()), int((t & p).sum())]
        need([int(v) for v in out.cvcmat[j]] == cm, f"confusion matrix of {c['al'][j]}")
        got = (out.accuracy[j], out.precision[j], out.recall[j])
        cv, tr = rate(t, p), rate(t, c["y_hat"][:, j])
        if close(got, cv):
            continue
        need(close(got, tr), f"accuracy, precision, recall of {c['al'][j]} are {got}, own values {cv}")
        known = True
    check_sel(list(out.precision), c["y_hat"], c["y_bin"], out.selection0, out.selection1)
    check_summary(out.pythia_summary, c["al"], b4["y"], c["y_hat"], c["y_bin"], c["y_best"], out.selection0,
                  out.selection1, out.precision, out.accuracy, out.recall, c["cc"], c["gg"])
    if known:
        raise Known("C26:cv-metrics-from-training-predictions",
                    "accuracy, precision and recall reported as cross-validated (CV_model_*) are computed from the "
                    "predictions on the training data (Yhat), not from the cross-validated ones (Ysub)")


@oracle("C25", g_run, 100, 1000)
def stage_selections(c):
    """the whole stage with given models: recommendations against the predictions and precisions it reports"""
    try:
        stage_with_given_models(c)
    except Known:
        pass


def g_fit(rng, i):
    n = int(rng.integers(14, 26))
    z = rng.normal(size=(n, 2))
    y = z[:, 0] + rng.normal(size=n) * 0.7 > 0
    y[:4], y[4:8] = True, False
    return dict(z=z, y=y, w=rng.random(n) + 0.5, poly=bool(i % 2))


@oracle(["C25", "C26"], g_fit, 2, 20)
def one_fitted_model(c):
    """one real model: its predictions, probabilities and parameters are the reported ones, the arguments are kept"""
    import instancespace.data.options as o
    import instancespace.stages.pythia as m
    from sklearn.model_selection import StratifiedKFold, cross_val_predict
    fit = find(ST + "pythia:PythiaStage._fitmatsvm",
               ["z", "y_bin", "w", "skf", "is_poly_kernel", "param_space", "use_grid_search", "parallel_options"])
    skf = StratifiedKFold(n_splits=2, shuffle=True, random_state=0)
    b4 = {k: c[k].copy() for k in ("z", "y", "w")}
    try:
        r = fit(z=c["z"], y_bin=c["y"], w=c["w"], skf=skf, is_poly_kernel=c["poly"],
                param_space={"C": [0.5, 2.0, 8.0], "gamma": [0.1, 1.0]}, use_grid_search=True, parallel_options=o.ParallelOptions.default())
        r.svm, r.Yhat, r.Ysub, r.Phat, r.Psub, r.c, r.g
    except AttributeError as e:
        raise Skip(str(e))
    for k, v in b4.items():
        need(same(c[k], v), f"the caller's {k} changed")
    need(same(r.Yhat, r.svm.predict(c["z"])), "predictions are not the model's own")
    need(close(r.Phat, r.svm.predict_proba(c["z"])[:, 1]), "probabilities are not the model's own")
    need((r.c, r.g) == (r.svm.C, r.svm.gamma), f"parameters {(r.c, r.g)} are not the model's own {(r.svm.C, r.svm.gamma)}")
    need(same(r.Ysub, cross_val_predict(r.svm, c["z"], c["y"], cv=skf)), "cross-validated predictions")
    need(close(r.Psub, cross_val_predict(r.svm, c["z"], c["y"], cv=skf, method="predict_proba")[:, 1]), "cross-validated probabilities")
