"""Do the seams behave as what they stand for?

`python -m dsim.conformance` makes the same calls in two processes - one with
the real numba and joblib, one with the simulated kernels - and compares values,
result types, exception types and the number of warnings.  It is a test of the
simulator, not a check of a property.
"""
from __future__ import annotations

import itertools
import json
import os
import subprocess
import sys
import warnings

DTYPES = ("float64", "float32", "int64", "int32", "bool", "object",
          "longdouble", "float16", ">f8", "complex128")
LAYOUTS = ("plain", "strided", "reversed", "readonly", "column", "fortran")


def array(kind, layout, n, salt):
    import numpy as np
    base = (np.arange(1, n + 1) * (7 + 2 * salt)) % 11
    if kind == "object":
        from fractions import Fraction
        a = np.array([Fraction(int(v), 2) for v in base], dtype=object)
    elif kind == "bool":
        a = base > 4
    elif "int" in kind:
        a = base.astype(kind)
    else:
        a = (base / 2).astype(kind)
    if layout == "strided":
        b = np.zeros(2 * n, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if layout == "reversed":
        return a[::-1].copy()[::-1]
    if layout == "readonly":
        a.flags.writeable = False
        return a
    if layout == "column":
        return a.reshape(-1, 1)
    if layout == "fortran":
        return np.asfortranarray(a.reshape(-1, 1))
    return a


def calls(dcor):
    m, c, r = (dcor.DistanceCovarianceMethod, dcor.CompileMode,
               dcor.RowwiseMode)
    for fn, method, mode in itertools.product(
            ("distance_covariance_sqr", "u_distance_correlation_sqr"),
            ("avl", "mergesort"), c):
        for kx, ky in [(k, k) for k in DTYPES] + [
                ("float64", "float32"), ("int64", "float64"),
                ("int64", "int32"), ("float64", "object"),
                ("bool", "float64"), ("float32", "longdouble")]:
            for lx, ly in (("plain", "plain"), ("strided", "plain"),
                           ("plain", "readonly"), ("reversed", "strided"),
                           ("column", "plain"), ("fortran", "readonly")):
                yield ("%s %s %s %s/%s %s/%s" % (
                    fn, method, mode.name, kx, ky, lx, ly),
                    lambda fn=fn, method=method, mode=mode, a=(kx, lx),
                    b=(ky, ly): getattr(dcor, fn)(
                        array(*a, 9, 0), array(*b, 9, 1),
                        method=m[method.upper()], compile_mode=mode))
    import numpy as np
    for fn, mode, cm in itertools.product(
            ("distance_covariance", "distance_covariance_sqr",
             "distance_correlation", "u_distance_covariance_sqr"), r, c):
        for k in ("float64", "float32", "int64", "bool", "object",
                  "longdouble", ">f8"):
            for form in ("list", "matrix", "strided", "readonly", "ragged"):
                def go(fn=fn, mode=mode, cm=cm, k=k, form=form):
                    xs = [array(k, "plain", 8, i) for i in range(4)]
                    ys = [array(k, "plain", 8, i + 2) for i in range(4)]
                    if form == "ragged":
                        xs[1], ys[1] = xs[1][:6], ys[1][:6]
                    elif form != "list":
                        xs, ys = np.stack(xs), np.stack(ys)
                        if form == "strided":
                            xs = np.repeat(xs, 2, axis=1)[:, ::2]
                        if form == "readonly":
                            xs.flags.writeable = False
                    return dcor.rowwise(getattr(dcor, fn), xs, ys,
                                        rowwise_mode=mode, compile_mode=cm)
                yield "rowwise %s %s %s %s %s" % (
                    fn, mode.name, cm.name, k, form), go


def outcome(call):
    import numpy as np
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            v = call()
        except Exception as e:
            return ["error", type(e).__name__]
    n = sum("Falling back" in str(w.message) for w in seen)
    a = np.asarray(v)
    return ["value", str(a.dtype), list(a.shape),
            [complex(t).__repr__() for t in a.ravel().tolist()], n]


def run(kind):
    if kind == "seam":
        from . import boot
        boot.boot(0)
        import dcor
    else:
        sys.path.insert(0, os.environ.get("DSIM_REPO", "/repo"))
        import dcor
    return {name: outcome(call) for name, call in calls(dcor)}


def same(a, b):
    if a[:3] != b[:3] or a[-1] != b[-1]:
        return False
    if a[0] == "error":
        return True
    for s, t in zip(a[3], b[3]):
        s, t = complex(s), complex(t)
        if s != t and not (s != s and t != t) \
                and abs(s - t) > 1e-5 * (1 + abs(s)):
            return False
    return True


def main():
    if len(sys.argv) > 1:
        print(json.dumps(run(sys.argv[1])))
        sys.stdout.flush()
        os._exit(0)
    import tempfile
    got = {}
    with tempfile.TemporaryDirectory() as scratch:
        env = dict(os.environ, NUMBA_CACHE_DIR=scratch,
                   PYTHONDONTWRITEBYTECODE="1")
        for kind in ("real", "seam"):
            p = subprocess.run(
                [sys.executable, "-m", "dsim.conformance", kind],
                cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                env=env, capture_output=True, text=True)
            if p.returncode:
                print(p.stderr[-3000:])
                return 2
            got[kind] = json.loads(p.stdout.strip().splitlines()[-1])
    bad = [k for k in got["real"] if not same(got["real"][k], got["seam"][k])]
    for k in bad[:40]:
        print("differs: %s: real %s, simulated %s" % (
            k, got["real"][k], got["seam"][k]))
    print("%d calls compared, %d differ" % (len(got["real"]), len(bad)))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
