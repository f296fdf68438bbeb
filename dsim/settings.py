"""Process-wide and per-thread settings a library must leave alone."""
from __future__ import annotations

import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import warnings

import joblib
import numpy as np


def _digest(b):
    return hashlib.blake2b(b, digest_size=8).hexdigest()


def np_random():
    st = np.random.get_state()
    return _digest(st[1].tobytes() + repr(st[2:]).encode())


def py_random():
    return hash(random.getstate())


def thread_part():
    """Settings kept per thread."""
    cfg = getattr(joblib.parallel._backend, "config", None)
    if cfg is None:
        cfg = joblib.parallel.default_parallel_config
    ctx = decimal.getcontext()
    return {
        "numpy.geterr": dict(np.geterr()),
        "numpy.geterrcall": np.geterrcall(),
        "numpy.getbufsize": np.getbufsize(),
        "joblib configuration": {
            k: (type(v).__name__ if k == "backend" else repr(v))
            for k, v in sorted(cfg.items())},
        "decimal context": (ctx.prec, ctx.rounding),
    }


def global_part():
    import numba
    np_opts = np.get_printoptions()
    from joblib import parallel as jp
    out = {
        "numpy.printoptions": {k: repr(v) for k, v in np_opts.items()},
        "warnings.filters": list(warnings.filters),
        "warnings.showwarning": warnings.showwarning,
        "warnings.formatwarning": warnings.formatwarning,
        "warnings.defaultaction": warnings.defaultaction,
        "numpy.random state": np_random(),
        "random state": py_random(),
        "joblib default backend": jp.DEFAULT_BACKEND,
        "joblib default n_jobs": jp.default_parallel_config["n_jobs"],
        "joblib backends": sorted(jp.BACKENDS),
        "joblib backend classes": list(jp.BACKENDS.values()),
        "numba threads": numba.get_num_threads(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [signal.getsignal(s) for s in
                            (signal.SIGINT, signal.SIGTERM, signal.SIGALRM,
                             signal.SIGCHLD, signal.SIGUSR1, signal.SIGFPE)],
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "sys.path": list(sys.path),
        "std streams": (sys.stdout, sys.stderr),
        "excepthooks": (sys.excepthook, threading.excepthook),
        "logging": (logging.root.level, logging.root.disabled,
                    logging.root.manager.disable, list(logging.root.handlers)),
        "thread stack size": threading.stack_size(),
        "cpu affinity": sorted(os.sched_getaffinity(0)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "temporary directory": tempfile.tempdir,
        "socket timeout": socket.getdefaulttimeout(),
        "resource limits": [resource.getrlimit(r) for r in (
            resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK,
            resource.RLIMIT_CPU, resource.RLIMIT_DATA)],
        "numba configuration": {
            k: repr(getattr(numba.config, k, None)) for k in (
                "NUMBA_NUM_THREADS", "THREADING_LAYER", "DISABLE_JIT",
                "CACHE_DIR", "OPT")},
        "int digits limit": sys.get_int_max_str_digits(),
    }
    with open("/proc/self/status") as f:
        out["umask"] = [ln for ln in f if ln.startswith("Umask")]
    try:
        from array_api_strict import get_array_api_strict_flags
        out["array_api_strict flags"] = repr(get_array_api_strict_flags())
    except ImportError:
        pass
    return out


def diff(a, b):
    """Names of the settings that differ, with both values."""
    out = []
    for k in a:
        if a[k] != b.get(k):
            out.append("%s: %.120r -> %.120r" % (k, a[k], b.get(k)))
    return out


CATS = {"UserWarning": UserWarning, "RuntimeWarning": RuntimeWarning,
        "DeprecationWarning": DeprecationWarning, "Warning": Warning}


def benign_init(rng):
    """Initial settings that turn no warning into an error."""
    init = random_init(rng)
    init["err"] = {k: "ignore" if v == "raise" else v
                   for k, v in init["err"].items()}
    init["filters"] = [f for f in init["filters"] if f[0] != "error"]
    init["gc"] = False
    if rng.random() < 0.3:
        init["print"] = rng.choice([1, 2, 4])
    return init


def random_init(rng):
    """Initial settings other than the defaults."""
    init = {"err": {}, "filters": []}
    if rng.random() < 0.6:
        for k in ("divide", "over", "under", "invalid"):
            init["err"][k] = rng.choice(["ignore", "warn", "raise", "call", "call"])
        if rng.random() < 0.7:
            init["err"]["under"] = "ignore"
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 3)):
            init["filters"].append([
                rng.choice(["error", "ignore", "always", "once", "module",
                            "default"]), rng.choice(sorted(CATS))])
    if rng.random() < 0.3:
        init["bufsize"] = rng.choice([4096, 8192, 16384])
    if rng.random() < 0.3:
        init["threads"] = rng.randint(1, 6)
    if rng.random() < 0.2:
        init["env"] = {"OMP_NUM_THREADS": "3", "DSIM_MARK": "x"}
    init["gc"] = rng.random() < 0.7
    return init


def _errcall(kind, flag):
    pass


def apply(init):
    """Process-wide part (main thread)."""
    for action, cat in init.get("filters", ()):
        warnings.simplefilter(action, CATS[cat])
    if "threads" in init:
        import numba
        numba.set_num_threads(init["threads"])
    if init.get("print"):
        np.set_printoptions(precision=init["print"], threshold=3, suppress=True,
                            floatmode="fixed")
    for k, v in init.get("env", {}).items():
        os.environ[k] = v
    if init.get("gc"):
        # enabled, but no collection ever happens
        gc.set_threshold((1 << 31) - 1)
        gc.enable()


def apply_thread(init):
    err = init.get("err")
    if err:
        np.seterrcall(_errcall)
        np.seterr(**err)
    if "bufsize" in init:
        np.setbufsize(init["bufsize"])
