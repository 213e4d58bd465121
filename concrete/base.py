"""CPython cross-check and replay of the contracts, on the real code (runs in the repository's venv).

An oracle is a pair of a seeded case generator and a check, both written from the property text.
`Skip` means that a case is outside the precondition or that a private helper it drives no longer
exists under that name (never a verdict).  `Known` reports a listed finding.
"""
from __future__ import annotations

import contextlib
import functools
import hashlib
import importlib
import inspect
import io
import warnings

import numpy as np


class Skip(Exception):
    pass


class Known(Exception):
    def __init__(self, key, what):
        super().__init__(what)
        self.key, self.what = key, what


class Oracle:
    def __init__(self, prop, name, gen, check, quick=200, thorough=2000, rule=""):
        self.prop, self.name, self.gen, self.check = prop, name, gen, check
        self.quick, self.thorough = quick, thorough
        self.rule = rule or (check.__doc__ or "").strip().split("\n")[0]


REG: list[Oracle] = []


def oracle(prop, gen, quick=200, thorough=2000, rule=""):
    def deco(f):
        props = [prop] if isinstance(prop, str) else prop
        for p in props:
            REG.append(Oracle(p, f.__name__, gen, f, quick, thorough, rule))
        return f
    return deco


def rng_for(seed, name, i):
    h = int.from_bytes(hashlib.sha256(name.encode()).digest()[:4], "big")
    return np.random.default_rng([seed, h, i])


def find(path, params=None):
    """module:Qual.name of the real code; Skip when a private helper is gone or takes other arguments."""
    mod, qual = path.split(":")
    try:
        o = importlib.import_module(mod)
        raw = o
        for part in qual.split("."):
            raw, o = o, getattr(o, part)
    except (ImportError, AttributeError):
        raise Skip(f"{path} is gone") from None
    if params is not None:
        try:
            have = set(inspect.signature(o).parameters)
        except (TypeError, ValueError):
            return o
        if not set(params) <= have:
            raise Skip(f"{path} takes other arguments")
        sig = inspect.signature(o)
        extra = [p for p in sig.parameters.values() if p.name not in params and p.name != "self"
                 and p.default is p.empty and p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)]
        if extra:
            raise Skip(f"{path} takes more arguments")
    return o


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield


def same(a, b):
    """Exact equality, NaN equal to NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
    return bool(np.array_equal(a, b))


def close(a, b, rtol=1e-8, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def need(cond, msg):
    if not cond:
        raise AssertionError(msg)


def show(x, lim=400):
    with np.printoptions(threshold=60, precision=17, edgeitems=4):
        s = repr(x)
    return s if len(s) <= lim else s[:lim] + "..."


def labels(rng, n, prefix):
    """Distinct labels in a shuffled order, so that position and name order differ."""
    k = rng.permutation(n)
    if rng.random() < 0.35:      # names which contain one another, differ in case only, ...
        pool = [f"{prefix}{x}" for x in ("a", "ab", "abc", "b", "A", "aa", "a_b", "1", "10", "01", "B a", "é", "x" * 30)]
        if n <= len(pool):
            return [pool[int(v)] for v in rng.permutation(len(pool))[:n]]
    return [f"{prefix}{int(v)}" for v in k]
