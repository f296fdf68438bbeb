"""Caller-side objects handed to the library: random sources, averaging
functions and the exceptions they raise.  All are picklable; counters and
faults live in the running Env, keyed by the operation's tag."""
from __future__ import annotations

import numpy as np

from . import kernel

SITE_CB, SITE_RNG = 3, 4


class CallbackFailed(Exception):
    """Raised by a caller-supplied callable."""


class SourceFailed(Exception):
    """Raised by a caller-supplied random source."""


class CallbackTypeError(TypeError):
    """A caller-supplied callable failing with a TypeError."""


class CallbackAttributeError(AttributeError):
    pass


class CallbackValueError(ValueError):
    pass


class CallbackMemoryError(MemoryError):
    pass


class Alarm(Exception):
    """Raised by a signal handler of the caller."""


CALLBACK_ERRORS = {
    "custom": CallbackFailed, "type": CallbackTypeError,
    "attr": CallbackAttributeError, "value": CallbackValueError,
    "memory": CallbackMemoryError, "interrupt": KeyboardInterrupt,
    "stopiter": StopIteration, "zero": ZeroDivisionError,
    "notimpl": NotImplementedError, "source": SourceFailed,
    "index": IndexError, "key": KeyError, "runtime": RuntimeError,
    "os": OSError, "timeout": TimeoutError, "assert": AssertionError,
    "float": FloatingPointError, "eof": EOFError, "import": ImportError,
    "linalg": np.linalg.LinAlgError, "recursion": RecursionError,
    "warning": RuntimeWarning, "overflow": OverflowError,
    "buffer": BufferError, "name": NameError, "exit": SystemExit,
}


def apply_avg(kind, a):
    """The averages used by the workload, on a NumPy array of any shape."""
    if kind in (None, "mean", "np.mean"):
        return np.mean(a)
    if kind in ("median", "np.median"):
        return np.median(a)
    if kind == "max":
        return np.max(a)
    if kind == "min+max":
        return (np.min(a) + np.max(a)) / 2
    raise ValueError(kind)


class Avg:
    """An averaging function supplied by the caller."""

    def __init__(self, kind, tag):
        self.kind, self.tag = kind, tag

    def __call__(self, a):
        sim, th = kernel.sim_thread()
        if th is not None:
            sim.yield_point(SITE_CB)
            sim.env.callback(self.tag or th.tag)
        if isinstance(a, np.ndarray):
            return apply_avg(self.kind, a)
        import array_api_strict as xp
        if self.kind in (None, "mean"):
            return xp.mean(a)
        if self.kind == "max":
            return xp.max(a)
        return (xp.min(a) + xp.max(a)) / 2


class RowFn:
    """A dependency function supplied by the caller."""

    def __init__(self, function, tag):
        self.function, self.tag = function, tag

    def __call__(self, x, y, **kw):
        sim, th = kernel.sim_thread()
        if th is not None:
            sim.yield_point(SITE_CB)
            sim.env.callback(self.tag or th.tag)
        return self.function(x, y, **kw)


def project(fn, a, b):
    return fn(a)(b)


class SourceLog:
    """Draws from one source, in order."""

    def __init__(self):
        self.draws = []       # (tag, n, tuple)


def _perm(obj, base, x):
    sim, th = kernel.sim_thread()
    if th is None:
        return base(x)
    sim.yield_point(SITE_RNG)
    sim.env.source_draw(obj.name, th)
    script = obj.script
    k = len(obj.log.draws)
    th.quiet += 1             # a draw and its log entry are one step
    try:
        if script and k < len(script) and script[k] is not None and \
                isinstance(x, (int, np.integer)):
            out = scripted(script[k], int(x))
        else:
            out = base(x)
        obj.log.draws.append((th.tag, len(out), tuple(
            np.asarray(out).ravel().tolist())))
    finally:
        th.quiet -= 1
    sim.yield_point(SITE_RNG)
    return out


def scripted(what, n):
    if isinstance(what, list):          # explicit permutation, reduced to n
        p = [i for i in what if i < n]
        p += [i for i in range(n) if i not in set(p)]
        return np.asarray(p)
    if what == "id":
        return np.arange(n)
    if what == "rev":
        return np.arange(n)[::-1].copy()
    if what == "rot":
        return np.roll(np.arange(n), 1)
    if what == "swap":
        p = np.arange(n)
        if n > 1:
            p[0], p[-1] = p[-1], p[0]
        return p
    raise ValueError(what)


class ProbeRS(np.random.RandomState):
    def __init__(self, name, seed, script=None):
        super().__init__(seed)
        self.name, self.script, self.log = name, script, SourceLog()

    def permutation(self, x):
        return _perm(self, super().permutation, x)

    def __reduce__(self):
        r = np.random.RandomState(0)
        r.set_state(self.get_state())
        return r.__reduce__()

    def __deepcopy__(self, memo):
        r = np.random.RandomState(0)
        r.set_state(self.get_state())
        return r

    def __copy__(self):
        return self.__deepcopy__(None)


class ProbeGen(np.random.Generator):
    def __init__(self, name, seed, script=None):
        super().__init__(np.random.PCG64(seed))
        self.name, self.script, self.log = name, script, SourceLog()

    def permutation(self, x, axis=0):
        return _perm(self, super().permutation, x)

    def __deepcopy__(self, memo):
        g = np.random.Generator(np.random.PCG64(0))
        g.bit_generator.state = self.bit_generator.state
        return g

    def __copy__(self):
        return self.__deepcopy__(None)

    def __reduce__(self):
        return self.__deepcopy__(None).__reduce__()
