"""Shared parts of the drivers: importing the code under test, encoding values for TLC.

A driver reads a list of jobs (JSON), performs each on the real code and appends one
record per job (JSON lines).  It never judges: an exception of the code under test is an
observation (field "err"), and TLC decides what the observation means."""
import contextlib, io, json, os, sys, traceback

REPO = os.environ.get("TENSORD_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if "/opt/vp/plugin" not in sys.path:
    sys.path.insert(0, "/opt/vp/plugin")
import numpy as np
from fractions import Fraction

SCALE = 10 ** 16


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def load_tf():
    import tf1_mode  # noqa: F401  (the shim that gives the code its TensorFlow 1 API)
    import tensorflow as tf
    import tensorD
    assert os.path.abspath(tensorD.__file__).startswith(os.path.abspath(REPO) + os.sep), tensorD.__file__
    return tf


def fx(v):
    """A float as a fixed-point tuple of spec/FxDef.tla."""
    v = float(v)
    if v != v:
        return [2]
    if v in (float("inf"), float("-inf")):
        return [3] if v > 0 else [4]
    if v == 0:
        return [0]
    n = Fraction(v) * SCALE
    m = abs(n)
    m = (m.numerator * 2 + m.denominator) // (2 * m.denominator)   # nearest
    if m == 0:
        return [0]
    out = [1 if n > 0 else -1]
    while m:
        out.append(m % 10000)
        m //= 10000
    return out


def unfx(t):
    if t[0] in (0,):
        return 0.0
    n = 0
    for l in reversed(t[1:]):
        n = n * 10000 + l
    return t[0] * n / SCALE


def fxt(a):
    """An array as a tensor of fixed-point numbers."""
    a = np.asarray(a)
    return {"s": [int(x) for x in a.shape], "d": [fx(v) for v in a.ravel().tolist()]}


class NotIntegral(Exception):
    pass


def intt(a):
    """An array of integral values as a tensor of integers."""
    a = np.asarray(a)
    flat = a.ravel().tolist()
    d = []
    for v in flat:
        if isinstance(v, bool):
            v = int(v)
        if v != v or abs(v) >= 2 ** 31 or int(v) != v:
            return {"s": [int(x) for x in a.shape], "d": [], "bad": repr(v)}
        d.append(int(v))
    return {"s": [int(x) for x in a.shape], "d": d}


def arr(t, dtype):
    """The array of a job's tensor {"s","d"}."""
    return np.array(t["d"], dtype=np.float64).astype(dtype).reshape(t["s"])


def err_name(e):
    return type(e).__name__


def main(run_all):
    """run_all(jobs, emit): performs the jobs, calling emit(record)."""
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    with open(sys.argv[2], "w") as out:
        def emit(rec):
            out.write(json.dumps(rec, separators=(",", ":")) + "\n")
            out.flush()
        run_all(jobs, emit)
