"""Arrays, public operations and their documented outcomes."""
from __future__ import annotations

import contextlib
import random

import numpy as np

from . import model
from .model import Exp

# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------

DTYPES = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32,
          "g": np.longdouble, ">f8": np.dtype(">f8"), "frac": object,
          "dec": object}


def converted(spec, data):
    """Data of an array specification, as its element type."""
    if spec["dtype"] not in ("frac", "dec"):
        return data
    import decimal
    import fractions
    make = fractions.Fraction if spec["dtype"] == "frac" else decimal.Decimal
    out = np.empty(np.shape(data), dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = make(float(data[ix]))
    return out


def raw_data(spec):
    """Plain float64 data of an array specification."""
    rng = np.random.RandomState(spec["seed"] % (1 << 32))
    shape = tuple(spec["shape"])
    kind = spec["kind"]
    if kind == "normal":
        d = rng.normal(size=shape)
    elif kind == "dyadic":
        d = rng.randint(-8, 9, size=shape).astype(float)
    elif kind == "ties":
        d = rng.randint(0, 3, size=shape).astype(float)
    elif kind == "const":
        d = np.full(shape, float(rng.randint(-4, 5)))
    elif kind == "zero":
        d = np.zeros(shape)
    elif kind == "nan":
        d = rng.normal(size=shape)
        d.flat[rng.randint(d.size)] = np.nan
    elif kind in ("bigdy", "tinydy"):
        d = rng.randint(-8, 9, size=shape) * 2.0 ** (
            20 if kind == "bigdy" else -20)
    elif kind == "near":          # ties up to the last bits of a float32
        d = rng.randint(0, 3, size=shape) + \
            rng.randint(0, 4, size=shape) * 2.0 ** -23
    elif kind == "special":
        d = rng.normal(size=shape)
        for v in (np.nan, np.inf, -np.inf, -0.0, 5e-324, 1e308):
            if rng.randint(3) == 0:
                d.flat[rng.randint(d.size)] = v
    elif kind == "big":
        d = rng.normal(size=shape) * 1e5
    elif kind == "tiny":
        d = rng.normal(size=shape) * 1e-5
    elif kind == "ramp":
        d = np.arange(float(np.prod(shape))).reshape(shape) % 37
        d = d + rng.randint(0, 5)
    elif kind in ("sym", "symint"):
        if kind == "sym":
            p = rng.normal(size=(shape[0], 2))
        else:
            p = rng.randint(-6, 7, size=(shape[0], 1)).astype(float)
        d = model.dist(p)
    elif kind == "usym":
        p = rng.normal(size=(shape[0], 2))
        d = model.ucenter(model.dist(p))
    else:
        raise ValueError(kind)
    if spec["dtype"] in ("i8", "i4"):
        d = np.round(d * (10 if kind in ("normal", "sym", "usym") else 1))
    return d


class Arr:
    """A caller's array: the object handed over and the memory behind it."""

    def __init__(self, spec, data=None):
        self.spec = spec
        data = converted(spec, raw_data(spec) if data is None else data)
        dt = DTYPES[spec["dtype"]]
        lay = spec.get("layout", "C")
        if lay == "F":
            base = np.array(data, dtype=dt, order="F")
            view = base
        elif lay == "T" and data.ndim == 2:
            base = np.array(data.T, dtype=dt, order="C")
            view = base.T
        elif lay == "step":
            base = np.full((2 * data.shape[0] + 1,) + data.shape[1:], 77, dtype=dt)
            view = base[1::2][:data.shape[0]]
            view[...] = data
        elif lay == "neg":
            base = np.array(data[::-1], dtype=dt, order="C")
            view = base[::-1]
        elif lay == "off":
            base = np.full((data.shape[0] + 5,) + data.shape[1:], 55, dtype=dt)
            view = base[3:3 + data.shape[0]]
            view[...] = data
        elif lay == "col":
            base = np.full(data.shape + (3,), 33, dtype=dt)
            view = base[..., 1]
            view[...] = data
        else:
            base = np.array(data, dtype=dt, order="C")
            view = base
        self.base = base
        self.view = view
        if spec.get("ro"):
            if spec.get("ro") == 1 or view is not base:
                view = view.view()
            view.flags.writeable = False
            if spec.get("ro") == 2:
                base.flags.writeable = False
        self.obj = view
        if spec.get("ns") == "strict":
            import array_api_strict
            self.obj = array_api_strict.asarray(view)
            self.base = self.obj._array
            self.view = self.base
        elif spec.get("ns") == "list":
            self.obj = view.tolist()

    @contextlib.contextmanager
    def thawed(self):
        """The owner lifts the write protection for a moment."""
        frozen = [a for a in (self.base, self.view) if not a.flags.writeable]
        for a in frozen:
            a.flags.writeable = True
        try:
            yield
        finally:
            for a in frozen:
                a.flags.writeable = False

    def writable(self):
        return self.spec.get("ro") != 2 and self.spec.get("ns") != "list"

    def data(self):
        """Current contents, as float64 copy."""
        if self.spec.get("ns") == "list":
            return np.array(self.obj, dtype=float)
        return np.array(self.view, dtype=float)

    def meta(self):
        """Everything but the elements; the last entry, whether writable."""
        a = self.obj
        if self.spec.get("ns") == "strict":
            a = a._array
        elif self.spec.get("ns") == "list":
            return (type(a).__name__, len(a), True)
        return (a.shape, a.strides, a.dtype.str, id(a.base),
                a.flags.writeable)

    def image(self):
        if self.spec.get("ns") == "list":
            return repr(self.obj).encode()
        if self.base.dtype == object:
            return repr(self.base.tolist()).encode()
        return self.base.tobytes()


def arr_spec(rng, shape, *, kind=None, dtype=None, plain=False):
    s = {"shape": list(shape), "seed": rng.randrange(1 << 30)}
    s["kind"] = kind or rng.choices(
        ["normal", "dyadic", "ties", "ramp", "big", "tiny", "const"],
        [50, 18, 12, 8, 4, 4, 4])[0]
    s["dtype"] = dtype or rng.choices(
        ["f8", "i8", "f4", "i4", "g", ">f8"], [78, 8, 5, 4, 3, 2])[0]
    if s["dtype"] == "f4" and s["kind"] in ("big", "tiny"):
        s["kind"] = "normal"
    if s["dtype"] in ("i8", "i4") and s["kind"] in ("big", "tiny"):
        s["kind"] = "dyadic"
    if not plain:
        s["layout"] = rng.choices(
            ["C", "F", "T", "step", "neg", "off", "col"],
            [60, 8, 8, 6, 6, 6, 6])[0]
        s["ro"] = rng.choices([0, 1, 2], [70, 12, 18])[0]
    return s


HUGE = [65, 100, 128, 130, 150, 200, 255, 256, 257, 300, 400, 512, 513, 520]
HUGE = HUGE * 2 + [700, 1001, 1025]


def af_low(p):
    """Observations needed for a well conditioned covariance."""
    return 8 if p <= 3 else 4 * p


def sizes(rng, lo=4, big=None):
    """Heavy-tailed sample size."""
    k = rng.random()
    if k < 0.40:
        n = rng.randint(lo, max(lo, 9))
    elif k < 0.60:
        n = rng.choice([4, 8, 16])
    elif k < 0.90:
        n = rng.randint(lo, 32)
    elif k < 0.985 or big is False:
        n = rng.randint(33, 90)
    else:
        n = rng.randint(100, 300)
    if big:
        n = min(n, big)
    return max(n, lo)


# --------------------------------------------------------------------------
# operations
# --------------------------------------------------------------------------

PAIR = ["distance_covariance", "distance_covariance_sqr",
        "u_distance_covariance_sqr", "distance_correlation",
        "distance_correlation_sqr", "u_distance_correlation_sqr",
        "distance_stats", "distance_stats_sqr", "u_distance_stats_sqr"]
AF = ["distance_correlation_af_inv", "distance_correlation_af_inv_sqr"]
ENERGY = ["energy_distance", "energy_test_statistic"]
PARTIAL = ["partial_distance_covariance", "partial_distance_correlation"]
MATRIX = ["double_centered", "u_centered", "mean_product", "u_product",
          "u_projection", "u_complementary_projection"]
TTEST = ["distance_correlation_t_statistic", "distance_correlation_t_test"]
TESTS = ["distance_covariance_test", "partial_distance_covariance_test",
         "energy_test"]
ROWFN = ["distance_covariance", "distance_covariance_sqr",
         "u_distance_covariance_sqr", "distance_correlation",
         "distance_correlation_sqr", "u_distance_correlation_sqr"]
ALL = PAIR + AF + ENERGY + PARTIAL + MATRIX + TTEST + TESTS + [
    "pairwise_distances", "rowwise"]


def lookup(dcor, name):
    for mod in (dcor, dcor.independence, dcor.homogeneity, dcor.distances):
        f = getattr(mod, name, None)
        if f is not None:
            return f
    raise AttributeError(name)


def op_kwargs(dcor, op, env, tag):
    """Translate the JSON keyword arguments of an operation."""
    kw = dict(op.get("kw", {}))
    out = {}
    for k, v in kw.items():
        if k == "method":
            out[k] = v if op.get("method_str") else \
                dcor.DistanceCovarianceMethod[v.upper()]
        elif k == "compile_mode":
            out[k] = dcor.CompileMode[v]
        elif k == "rowwise_mode":
            out[k] = dcor.RowwiseMode[v]
        elif k == "estimation_stat":
            out[k] = v if op.get("est_str") else dcor.EstimationStatistic[
                {"U": "U_STATISTIC", "V": "V_STATISTIC"}.get(v.upper(), v.upper())]
        elif k == "average":
            if v is not None:
                out[k] = env.average(v, tag)
        elif k == "function":
            out[k] = lookup(dcor, v)
            if op.get("rowfn"):
                from .probes import RowFn
                out[k] = RowFn(out[k], tag)
        elif k == "random_state":
            out[k] = env.source(v, tag)
        elif k == "exponent":
            out[k] = v
        else:
            out[k] = v
    return out


def is_u(op):
    return op.get("kw", {}).get("estimation_stat", "V").upper() in (
        "U", "U_STATISTIC")


def eps_of(specs):
    return model.EPS["f4" if any(s["dtype"] == "f4" for s in specs) else "f8"]


def _univariate(shape):
    return len(shape) == 1 or shape[1] == 1


def fast_possible(op, specs):
    kw = op.get("kw", {})
    return all(_univariate(s["shape"]) for s in specs) and \
        all(s["shape"][0] > 3 for s in specs) and kw.get("exponent", 1) == 1 \
        and all(s.get("ns") != "strict" for s in specs)


def uses_kernel(op, specs):
    """Does the operation go through a compiled-or-not fast algorithm?"""
    m = op.get("kw", {}).get("method", "auto")
    return fast_possible(op, specs) and m in ("auto", "avl", "mergesort")


def natural_reject(specs):
    """Do the compiled kernels refuse these arrays?"""
    return any(s["dtype"] != "f8" for s in specs)


# -- expected values --------------------------------------------------------

def pair_expected(fn, x, y, exponent, eps):
    unb = fn.startswith("u_")
    if fn in ("distance_covariance_sqr", "u_distance_covariance_sqr"):
        return Exp(model.dcov_sqr(x, y, exponent, unb),
                   model.dcov_tol(x, y, exponent, eps, unb))
    if fn == "distance_covariance":
        return model.root(Exp(model.dcov_sqr(x, y, exponent),
                              model.dcov_tol(x, y, exponent, eps, False)))
    st = model.stats_sqr(x, y, exponent, unb, eps)
    if fn.endswith("stats_sqr"):
        return st
    if fn == "distance_stats":
        return tuple(model.root(e) for e in st)
    if fn in ("distance_correlation_sqr", "u_distance_correlation_sqr"):
        return st[1]
    if fn == "distance_correlation":
        return model.root(st[1])
    raise ValueError(fn)


def energy_expected(fn, x, y, ex, avg, u, eps):
    v = model.energy_distance(x, y, ex, avg, u)
    n, m = len(x), len(y)
    sc = model._max(model.dist(np.concatenate(
        [model.d2(x), model.d2(y)]), None, ex))
    if fn == "energy_test_statistic":
        v *= n * m / (n + m)
        sc *= n * m / (n + m)
    return Exp(v, eps * 10 * sc + 1e-300)


SKIP = "skip"


def expected(op, datas, specs):
    """('val', Exp | tuple) | ('perm', PermTest) | ('exc', type name)."""
    fn = op["fn"]
    kw = op.get("kw", {})
    ex = kw.get("exponent", 1)
    eps = eps_of(specs)
    if fn in PAIR:
        if kw.get("compile_mode") == "COMPILE_CPU" and natural_reject(specs):
            return "exc", "TypeError"
        return "val", pair_expected(fn, datas[0], datas[1], ex, eps)
    if fn in AF:
        sx, sy = model.af_scale(datas[0]), model.af_scale(datas[1])
        if sx is None or sy is None:
            return SKIP, None
        e = pair_expected("distance_correlation_sqr", sx, sy, 1, max(eps, 1e-9))
        return "val", e if fn.endswith("sqr") else model.root(e)
    if fn in ENERGY:
        return "val", energy_expected(fn, datas[0], datas[1], ex,
                                      kw.get("average"), is_u(op), eps)
    if fn in PARTIAL:
        return _partial(fn, datas, eps)
    if fn in ("double_centered", "u_centered"):
        a = datas[0]
        v = model.dcenter(a) if fn == "double_centered" else model.ucenter(a)
        return "val", Exp(v, eps * 10 * (model._max(a) + 1e-300))
    if fn in ("mean_product", "u_product"):
        a, b = datas
        sc = eps * 10 * (model._max(a) * model._max(b) + 1e-300)
        if fn == "mean_product":
            return "val", Exp(float(np.mean(a * b)), sc)
        n = a.shape[0]
        return "val", Exp(model.uprod(a, b), sc * n / abs(n - 3))
    if fn in ("u_projection", "u_complementary_projection"):
        a, b = datas
        aa = model.uprod(a, a)
        if aa == 0 and not np.any(a):
            p = np.zeros_like(a)
        elif aa < 1e-6 * model._max(a) ** 2:
            return SKIP, None
        else:
            p = model.uprod(b, a) / aa * a
        v = p if fn == "u_projection" else b - p
        return "val", Exp(v, eps * 1e4 * (model._max(b) + model._max(p)) + 1e-300)
    if fn in TTEST:
        return _ttest(fn, datas, eps)
    if fn == "pairwise_distances":
        y = datas[1] if len(datas) > 1 else None
        v = model.dist(datas[0], y, ex)
        sc = model._max(v) + model._max(datas[0]) ** ex * 1e-3
        return "val", Exp(v, eps * 10 * sc + (1e-7 * sc if ex != 1 else 0) + 1e-300)
    if fn == "distance_covariance_test":
        t = model.dcov_test(datas[0], datas[1], ex, eps)
        t.exact = t.exact and eps == model.EPS["f8"]
        return "perm", t
    if fn == "partial_distance_covariance_test":
        t = model.pdcov_test(*datas, exponent=ex, eps=eps)
        return ("perm", t) if t is not None else (SKIP, None)
    if fn == "energy_test":
        t = model.energy_test(datas, ex, kw.get("average"), is_u(op), eps)
        t.exact = t.exact and eps == model.EPS["f8"]
        return "perm", t
    raise ValueError(fn)


def _partial(fn, datas, eps):
    mats = [model.ucenter(model.dist(d)) for d in datas]
    a, b, c = mats
    sc = [max(model.dist_scale(d), 1e-300) for d in datas]
    aa, bb, cc = (model.uprod(m, m) for m in mats)
    zero = [not np.any(m) for m in mats]     # exactly, for constant data
    if not zero[2] and cc < 1e-4 * sc[2] ** 2:
        return SKIP, None
    if fn == "partial_distance_covariance":
        if zero[2]:
            pa, pb = a, b
        else:
            pa = a - model.uprod(a, c) / cc * c
            pb = b - model.uprod(b, c) / cc * c
        return "val", Exp(model.uprod(pa, pb), eps * 1e4 * sc[0] * sc[1])
    if not zero[0] and aa < 1e-4 * sc[0] ** 2 or \
            not zero[1] and bb < 1e-4 * sc[1] ** 2:
        return SKIP, None

    def r(p, q, pp, qq):
        if pp == 0 or qq == 0:
            return 0.0
        return float(np.clip(model.uprod(p, q) / np.sqrt(pp * qq), -1, 1))
    rxy, rxz, ryz = r(a, b, aa, bb), r(a, c, aa, cc), r(b, c, bb, cc)
    den = np.sqrt(1 - rxz ** 2) * np.sqrt(1 - ryz ** 2)
    if den < 1e-3:
        return SKIP, None
    return "val", Exp((rxy - rxz * ryz) / den, eps * 1e5 / den)


def _ttest(fn, datas, eps):
    import scipy.stats
    e = pair_expected("u_distance_correlation_sqr", datas[0], datas[1], 1, eps)
    if e.skip:
        return SKIP, None
    r = float(e.value)
    if abs(r) > 0.99:
        return SKIP, None
    n = len(datas[0])
    v = n * (n - 3) / 2
    t = np.sqrt(v - 1) * r / np.sqrt(1 - r * r)
    tt = np.sqrt(v - 1) * e.tol / (1 - r * r) ** 1.5 * 2 + 1e-12
    if fn == "distance_correlation_t_statistic":
        return "val", Exp(t, tt)
    p = 1 - scipy.stats.t.cdf(t, df=v - 1)
    return "val", (Exp(p, tt + 1e-9), Exp(t, tt))


def leaves(value):
    """Flatten a result into a list of plain arrays, in documented order."""
    if type(value).__name__ == "Stats" and hasattr(value, "covariance_xy"):
        return [_np(value.covariance_xy), _np(value.correlation_xy),
                _np(value.variance_x), _np(value.variance_y)]
    if hasattr(value, "pvalue") and hasattr(value, "statistic"):
        return [_np(value.pvalue), _np(value.statistic)]
    return [_np(value)]


def _np(a):
    if hasattr(a, "_array"):
        a = a._array
    return np.asarray(a, dtype=float)


def buffers(value):
    """Arrays (not scalars) inside a result."""
    out = []
    if type(value).__name__ == "Stats" and hasattr(value, "covariance_xy"):
        vals = [value.covariance_xy, value.correlation_xy, value.variance_x,
                value.variance_y]
    elif hasattr(value, "pvalue") and hasattr(value, "statistic"):
        vals = [value.statistic]
    else:
        vals = [value]
    for v in vals:
        if hasattr(v, "_array"):
            v = v._array
        if isinstance(v, np.ndarray):
            out.append(v)
    return out


def matches(exp, value):
    """None if value is as expected, else a description."""
    exps = list(exp) if isinstance(exp, tuple) else [exp]
    try:
        got = leaves(value)
    except (TypeError, ValueError) as e:
        return "result of type %s is not numeric" % type(value).__name__
    if len(got) != len(exps):
        return "result has %d parts, expected %d" % (len(got), len(exps))
    for i, (e, g) in enumerate(zip(exps, got)):
        if g.shape != e.shape:
            return "part %d has shape %s, expected %s" % (i, g.shape, e.shape)
        if e.skip:
            continue
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - e.value) <= e.tol) | (g == e.value)
                    | (np.isnan(g) & np.isnan(e.value)))
        if np.any(bad):
            ix = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
            return "part %d%s is %r, expected %r (tolerance %.3g)" % (
                i, list(ix) if ix else "", float(g[ix]), float(e.value[ix]),
                e.tol)
    return None


def row_expected(kw, x, y, eps):
    if kw["function"] == "energy_distance":
        return energy_expected("energy_distance", x, y,
                               kw.get("exponent", 1), None, False, eps)
    return pair_expected(kw["function"], x, y, kw.get("exponent", 1), eps)


def rowwise_expected(op, datas, specs):
    """Model of a row-wise call: the pair function on each pair."""
    kw = op["kw"]
    eps = eps_of(specs)
    vals, tol = [], 0.0
    for x, y in zip(*datas):
        e = row_expected(kw, np.asarray(x), np.asarray(y), eps)
        if e.skip:
            return SKIP, None
        vals.append(float(e.value))
        tol = max(tol, e.tol)
    return "val", Exp(np.asarray(vals), 2 * tol)


# -- generation -------------------------------------------------------------

EXACT = ["dyadic", "ties", "const"] * 4 + ["bigdy", "tinydy", "near"]
F8_ONLY = ("bigdy", "tinydy", "near")


class Gen:
    """Generates operations over a pool of array specifications."""

    def __init__(self, rng, *, strict=0.05, big=None, plain=False, lists=0.0,
                 objects=0.02, huge=0.015, nans=False, special=0.0,
                 vary=True):
        self.rng = rng
        self.special, self.vary = special, vary
        self.objects, self.huge, self.nans = objects, huge, nans
        self.arrays = {}
        # swarm: some runs work with many columns, some with large samples
        self.dims = rng.choices([3, 6, 13], [93, 4, 3])[0]
        self.scale = rng.random() < 0.04
        if self.scale:
            self.huge = 0.25
        self.strict, self.big, self.plain, self.lists = strict, big, plain, lists

    def size(self, lo=4, big=None):
        if self.scale and self.rng.random() < 0.6:
            return self.rng.choice(HUGE)
        return sizes(self.rng, lo, big)

    def dim(self, lo=1):
        return self.rng.randint(lo, self.dims)

    def add(self, spec):
        name = "a%d" % len(self.arrays)
        self.arrays[name] = spec
        return name

    def array(self, shape, **kw):
        if self.special and kw.get("kind") not in ("sym", "symint", "usym") and \
                kw.get("dtype") in (None, "f8") and 0 not in shape and \
                self.rng.random() < self.special:
            kw = dict(kw, kind="special", dtype="f8")
        return self.add(arr_spec(self.rng, shape, plain=self.plain, **kw))

    def exponent(self):
        return self.rng.choices([1, 0.5, 1.5, 1.25, 0.9, 2],
                                [64, 9, 14, 7, 6, 2])[0]

    def large(self, n, more=1):
        """Now and then a large sample (vectorised functions only)."""
        if n is None and self.rng.random() < self.huge * more:
            return self.rng.choice(HUGE)
        return n

    def call(self, fn=None, n=None, family=None):
        rng = self.rng
        if fn is None:
            if family is None:
                family = rng.choices(
                    [PAIR, AF, ENERGY, PARTIAL, MATRIX, TTEST, TESTS,
                     ["pairwise_distances"], ["rowwise"]],
                    [28, 5, 10, 9, 14, 5, 14, 7, 8])[0]
            fn = rng.choice(family)
        return getattr(self, "_" + self._kind(fn))(fn, n)

    @staticmethod
    def _kind(fn):
        for name, fam in (("pair", PAIR), ("af", AF), ("energy", ENERGY),
                          ("partial", PARTIAL), ("matrix", MATRIX),
                          ("ttest", TTEST), ("test", TESTS)):
            if fn in fam:
                return name
        return {"pairwise_distances": "dist", "rowwise": "rowwise"}[fn]

    def _ns(self, names, p=None, lists=False):
        """Turn the arrays of one call into another namespace, sometimes."""
        if any(self.arrays[a]["dtype"] in ("frac", "dec") for a in names):
            return "numpy"
        if self.lists and lists and self.rng.random() < self.lists:
            for a in names:
                self.arrays[a].update(ns="list", dtype="f8", ro=0, layout="C")
            return "list"
        if self.rng.random() < (self.strict if p is None else p):
            for a in names:
                s = self.arrays[a]
                s["ns"] = "strict"
                s["dtype"] = "f8"
                s["ro"] = 0
                s["layout"] = "C"
            return "strict"
        return "numpy"

    def _pair(self, fn, n):
        rng = self.rng
        uni = rng.random() < 0.7
        unb = fn.startswith("u_")
        kw = {}
        n = n or self.size(4 if (uni or unb) else 2, self.big)
        if uni:
            sh = [[n], [n]]
            for s in sh:
                if rng.random() < 0.3:
                    s.append(1)
        else:
            sh = [[n, rng.randint(1, self.dims + 1)] for _ in "xy"]
        dt = None
        if rng.random() < 0.75:
            dt = "f8"
        kind = None
        obj = None
        if rng.random() < self.objects:
            obj = rng.choice(["frac", "dec"])
            n = min(n, 12)
            for s in sh:
                s[0] = n
        names = [self.array(sh[0], dtype=dt, kind=kind)]
        if rng.random() < 0.06:
            names.append(names[0])
        else:
            names.append(self.array(sh[1], dtype=dt))
        op = {"do": "call", "fn": fn, "args": names, "kw": kw}
        specs = [self.arrays[a] for a in names]
        if obj:
            for s in specs:
                s["dtype"] = obj
                s["kind"] = rng.choice(["dyadic", "ties", "ramp"])
        self._ns(names, self.strict if rng.random() < 0.7 else 0)
        if not obj and (not uni or rng.random() < 0.15):
            e = self.exponent()
            if e != 1:
                kw["exponent"] = e
        if fast_possible(op, specs):
            m = rng.choices([None, "auto", "naive", "avl", "mergesort"],
                            [25, 10, 10, 30, 25])[0]
            c = rng.choices([None, "AUTO", "NO_COMPILE", "COMPILE_CPU"],
                            [40, 20, 20, 20])[0]
            if c == "COMPILE_CPU" and (m == "naive" or obj):
                c = "AUTO"
        else:
            m = rng.choices([None, "auto", "naive"], [50, 20, 30])[0]
            c = rng.choices([None, "AUTO", "NO_COMPILE"], [60, 20, 20])[0]
        if m:
            kw["method"] = m
            op["method_str"] = rng.random() < 0.5
        if c:
            kw["compile_mode"] = c
        return op

    def _af(self, fn, n):
        rng = self.rng
        p, q = self.dim(), self.dim()
        n = max(self.large(n, 5) or sizes(rng, 8), 8, af_low(max(p, q)))
        names = [self.array([n, p], kind="normal", dtype="f8"),
                 self.array([n, q], kind="normal", dtype="f8")]
        self._ns(names)
        return {"do": "call", "fn": fn, "args": names, "kw": {}}

    def _avg_est(self, kw, op):
        rng = self.rng
        if rng.random() < 0.35:
            kw["average"] = rng.choice(["mean", "median", "max", "min+max"])
        if rng.random() < 0.5:
            op["est_str"] = rng.random() < 0.6
            kw["estimation_stat"] = rng.choice(
                ["U", "V", "u", "v", "u_statistic", "V_STATISTIC"])

    def _energy(self, fn, n):
        rng = self.rng
        p = rng.choice([None, 1, 2, self.dims])
        n1 = self.large(n) or sizes(rng, 2, self.big)
        n2 = self.large(n) or sizes(rng, 2, self.big)
        sh = (lambda k: [k] if p is None else [k, p])
        dt = "f8" if rng.random() < 0.8 else None
        names = [self.array(sh(n1), dtype=dt), self.array(sh(n2), dtype=dt)]
        kw = {}
        op = {"do": "call", "fn": fn, "args": names, "kw": kw}
        self._avg_est(kw, op)
        if self._ns(names, lists=True) == "strict" and \
                kw.get("average") == "median":
            kw["average"] = "max"
        e = self.exponent()
        if e != 1:
            kw["exponent"] = e
        return op

    def _partial(self, fn, n):
        rng = self.rng
        n = max(self.large(n, 3) or sizes(rng, 6, 100), 6)
        names = [self.array([n] if rng.random() < 0.3 else [n, self.dim()],
                            kind=rng.choice(["normal", "normal", "ramp", "big"]),
                            dtype="f8" if rng.random() < 0.85 else "i8")
                 for _ in range(3)]
        if rng.random() < 0.12:
            self.arrays[names[rng.choice([0, 1, 2, 2, 2])]]["kind"] = "const"
        self._ns(names, self.strict if fn == "partial_distance_covariance"
                 else 0, lists=True)
        return {"do": "call", "fn": fn, "args": names, "kw": {}}

    def _matrix(self, fn, n):
        rng = self.rng
        n = max(self.large(n) or sizes(rng, 4, self.big), 4)
        dt = "f8" if rng.random() < 0.75 else None
        if fn == "double_centered" and rng.random() < 0.12:
            n = rng.choice([1, 2, 3])
        if fn in ("double_centered", "u_centered"):
            names = [self.array([n, n], kind=rng.choice(["sym", "symint"]),
                                dtype=dt)]
            op = {"do": "call", "fn": fn, "args": names, "kw": {}}
            ns = self._ns(names)
            if rng.random() < 0.3:
                s = self.arrays[names[0]]
                if rng.random() < 0.25:
                    s.update(dtype="f8", ro=0)       # centred in place
                    op["out"] = names[0]
                else:
                    out = {"shape": [n, n], "kind": "const", "dtype": "f8",
                           "seed": 1, "layout": rng.choice("CF"), "ro": 0}
                    if ns == "strict":
                        out.update(ns="strict", layout="C")
                    op["out"] = self.add(out)
            return op
        k = "usym" if "proj" in fn else rng.choice(["sym", "symint", "usym"])
        dt = "f8" if k == "usym" else dt
        if k == "usym" and n < 5:
            n = 5
        names = [self.array([n, n], kind=k, dtype=dt),
                 self.array([n, n], kind=k, dtype=dt)]
        if rng.random() < 0.12:
            self.arrays[names[rng.choice([0, 0, 1])]]["kind"] = "zero"
        self._ns(names)
        return {"do": "call", "fn": fn, "args": names, "kw": {}}

    def _ttest(self, fn, n):
        rng = self.rng
        big = self.large(n, 5)
        n = big or sizes(rng, 5, 60)
        lo = 2 if big and n > 150 else 1
        names = [self.array([n, self.dim(lo)], kind="normal", dtype="f8")
                 for _ in "xy"]
        return {"do": "call", "fn": fn, "args": names, "kw": {}}

    def _dist(self, fn, n):
        rng = self.rng
        p = rng.choice([None, 1, 2, self.dims])
        n1 = self.large(n) or sizes(rng, 1, self.big)
        names = [self.array([n1] if p is None else [n1, p])]
        if rng.random() < 0.6:
            n2 = self.large(None) or sizes(rng, 1, self.big)
            if rng.random() < 0.25:
                n2 = n1
            names.append(self.array([n2] if p is None else [n2, p]))
        self._ns(names, self.strict * 2, lists=True)
        kw = {}
        e = self.exponent()
        if e != 1:
            kw["exponent"] = e
        return {"do": "call", "fn": fn, "args": names, "kw": kw}

    def _rowwise(self, fn, n, k=None):
        rng = self.rng
        f = rng.choice(ROWFN)
        n = n or sizes(rng, 4, 60)
        if k is None and rng.random() < 0.02:
            n, k = rng.choice([65, 100, 129]), rng.randint(1, 2)
        k = rng.randint(1, 7) if k is None else k
        op = {"do": "call", "fn": "rowwise", "kw": {"function": f}}
        mode = rng.choices([None, "AUTO", "NAIVE", "OPTIMIZED"],
                           [45, 20, 20, 15])[0]
        dt = "f8" if rng.random() < 0.7 else rng.choice(["i8", "f4", "i4", "g"])
        shape_kind = rng.choices(["2d", "list", "3d", "ragged", "multi", "mixed"],
                                 [35, 25, 12, 12, 8, 8])[0]
        if mode == "OPTIMIZED" and (shape_kind in ("ragged", "multi", "mixed")
                                    or dt == "g"):
            mode = "AUTO"
        if k == 0:
            shape_kind, mode = "list", None if mode == "OPTIMIZED" else mode
        op["rows"] = shape_kind
        if mode != "OPTIMIZED" and rng.random() < 0.2:
            if rng.random() < 0.5:
                op["kw"]["exponent"] = rng.choice([0.5, 1.5])
            elif shape_kind in ("2d", "list"):
                op["kw"]["method"] = rng.choice(["naive", "avl", "mergesort"])
        elif mode != "OPTIMIZED" and shape_kind in ("list", "ragged", "multi") \
                and rng.random() < 0.08:
            f = op["kw"]["function"] = "energy_distance"
            shape_kind = "list" if shape_kind == "multi" else shape_kind
        tiny = dt == "f8" and rng.random() < 0.06
        kd = (lambda: "tiny" if tiny else rng.choices(
                                  ["normal", "dyadic", "ties", "ramp", "const",
                                   "nan" if self.nans and dt == "f8" else "ramp",
                                   "tiny" if dt == "f8" else "ramp",
                                   "big" if dt == "f8" else "ramp"],
                                  [60, 15, 10, 15, 5, 4, 5, 3])[0])
        if shape_kind == "2d":
            op["args"] = [self.array([k, n], dtype=dt, kind=kd()) for _ in "xy"]
        elif shape_kind == "3d":
            op["args"] = [self.array([k, n, 1], dtype=dt, kind=kd())
                          for _ in "xy"]
        else:
            xs, ys = [], []
            # pairs of differing element types
            vary = self.vary and dt != "g" and rng.random() < 0.12
            if vary:
                dt = "vary"
            for i in range(k):
                ni = n if shape_kind != "ragged" else max(4, n + rng.randint(-3, 5))
                if shape_kind == "multi":
                    sx, sy = [ni, 2], [ni, 3]
                elif shape_kind == "mixed":
                    sx = [ni] if rng.random() < 0.5 else [ni, 1]
                    sy = [ni] if rng.random() < 0.5 else [ni, 1]
                else:
                    sx, sy = [ni], [ni]
                d = rng.choice(["f8", "i8", "i4", "f4"]) if vary else dt
                kind = kd() if not vary else rng.choice(
                    ["normal", "dyadic", "ties", "ramp"])
                xs.append(self.array(sx, dtype=d, kind=kind))
                ys.append(self.array(sy, dtype=d if rng.random() < 0.7 or not vary
                                     else "f8", kind=kind))
            op["args"] = [xs, ys]
            op["tuple_args"] = rng.random() < 0.15
        c = None
        if shape_kind != "multi" and dt == "f8" and len(op["kw"]) == 1 and \
                f in ROWFN:
            c = rng.choices([None, "AUTO", "COMPILE_CPU", "COMPILE_PARALLEL",
                             "NO_COMPILE"], [40, 15, 15, 20, 10])[0]
            if c == "COMPILE_PARALLEL" and (
                    mode == "NAIVE" or shape_kind in ("ragged", "mixed")):
                c = None
            if c == "NO_COMPILE" and mode == "OPTIMIZED" or k == 0:
                c = None
        if c:
            op["kw"]["compile_mode"] = c
        if mode:
            op["kw"]["rowwise_mode"] = mode
        return op

    def _test(self, fn, n, R=None):
        rng = self.rng
        exact = rng.random() < 0.4
        kw = {}
        op = {"do": "call", "fn": fn, "kw": kw}
        dt = "f8" if rng.random() < 0.85 else rng.choice(["i8", "f4", "g"])
        if fn == "energy_test":
            ns = rng.choices([2, 3, 4, 6], [58, 28, 10, 4])[0]
            p = None if exact else rng.choice([None, 1, max(2, self.dims - 1)])
            kd = rng.choice(EXACT) if exact else None
            dt = "f8" if kd in F8_ONLY else dt
            names = []
            m = n or (rng.choice([2, 4, 8]) if exact else None)
            for _ in range(ns):
                k = m or min(sizes(rng, 2, False), 24)
                if not m and rng.random() < self.huge * 2:
                    k, R = rng.choice([33, 50, 64, 65, 100, 129]), min(R or 9, 9)
                if n is None and rng.random() < 0.05:
                    k = 1
                names.append(self.array([k] if p is None else [k, p], dtype=dt,
                                        kind=kd))
            self._avg_est(kw, op)
            if is_u(op) and any(self.arrays[a]["shape"][0] == 1 for a in names):
                kw["estimation_stat"] = "V"
            if self._ns(names, self.strict) == "strict" and \
                    kw.get("average") == "median":
                kw["average"] = "max"
        elif fn == "distance_covariance_test":
            k = n or (rng.choice([4, 8, 16]) if exact else min(sizes(rng, 3, False), 40))
            if n is None and rng.random() < 0.03:
                k = rng.choice([1, 2])
            if n is None and rng.random() < self.huge * 0.5:
                k, R = rng.choice(HUGE), min(R or 4, 4)
            kd = rng.choice(EXACT) if exact else None
            dt = "f8" if kd in F8_ONLY else dt
            if kd == "near" and n is None:
                k = rng.choice([4, 8])
            p = (lambda: [k] if exact or rng.random() < 0.4
                 else [k, self.dim()])
            names = [self.array(p(), dtype=dt, kind=kd),
                     self.array(p(), dtype=dt, kind=kd if rng.random() < .8 and kd != "near"
                                else "dyadic")]
            self._ns(names, lists=True)
        else:
            k = max(n or min(sizes(rng, 5, False), 30), 5)
            if n is None and rng.random() < self.huge:
                k, R = rng.choice(HUGE), min(R or 4, 4)
            if n is None and rng.random() < 0.04:
                k = 4
            names = [self.array([k, self.dim()], dtype=dt,
                                kind=rng.choice(["normal", "ramp"]))
                     for _ in range(3)]
            if rng.random() < 0.08:
                self.arrays[names[2]]["kind"] = "const"
            self._ns(names, lists=True)
        op["args"] = names
        if self.nans and not exact and rng.random() < 0.05 and all(
                self.arrays[a].get("ns") is None for a in names):
            self.arrays[rng.choice(names)].update(kind="nan", dtype="f8")
        if not exact:
            e = self.exponent()
            if e != 1:
                kw["exponent"] = e
        if R is None:
            R = rng.choices([0, 1, 2, rng.randint(3, 9), rng.randint(10, 40),
                             rng.randint(41, 120)], [6, 6, 6, 40, 32, 10])[0]
        kw["num_resamples"] = R
        kw["random_state"] = {"kind": "int", "seed": rng.randrange(1 << 31)}
        return op
