"""Seams for threads, locks, clocks and OS entropy.

``install()`` must run before numpy, joblib, numba or dcor are imported: they
then pick up cooperative locks and threads.  Outside a simulated thread every
replacement behaves like the original.
"""
from __future__ import annotations

import _thread
import os
import queue
import secrets
import threading
import time

from . import kernel

_real_allocate = _thread.allocate_lock
_real_start = threading._start_new_thread
_real_sentinel = threading._set_sentinel
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_real_randbits = secrets.randbits
_real_urandom = os.urandom

SITE_LOCK, SITE_SLEEP = 1, 2


class SimLock:
    """A lock that blocks cooperatively inside simulated threads."""

    __slots__ = ("_l", "__weakref__")

    def __init__(self):
        self._l = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        sim, th = kernel.sim_thread()
        if th is None or th.quiet and not self._l.locked():
            return self._l.acquire(blocking, timeout)
        sim.yield_point(SITE_LOCK)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        sim.count("lock_waits")
        lk = self._l
        while True:
            ok = sim.block(lambda: not lk.locked(),
                           None if timeout is None or timeout < 0 else timeout)
            if not ok:
                return False
            if lk.acquire(False):
                return True

    def release(self):
        self._l.release()
        sim, th = kernel.sim_thread()
        if th is not None:
            sim.yield_point(SITE_LOCK)

    def locked(self):
        return self._l.locked()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._l = _real_allocate()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def _start_new_thread(function, args=(), kwargs=None):
    sim, th = kernel.sim_thread()
    if th is None:
        return _real_start(function, args, kwargs or {})
    sim.count("threads_started_by_library")
    t = sim.spawn(lambda: function(*args, **(kwargs or {})), "libthread",
                  daemon=False)
    return t.ident


def _set_sentinel():
    sim, th = kernel.sim_thread()
    if th is None:
        return _real_sentinel()
    lk = SimLock()
    th.sentinel = lk
    return lk


def _sleep(dt):
    sim, th = kernel.sim_thread()
    if th is None:
        return _real_sleep(dt)
    if sim.env is not None:
        sim.env.on_sleep(th)
    th.site = SITE_SLEEP
    sim.sleep(dt)


def _clock(real, off, wall=False):
    def clock():
        sim, th = kernel.sim_thread()
        if th is None:
            return real()
        if wall and sim.env is not None:
            return sim.now + off + sim.env.clock_offset()
        return sim.now + off
    return clock


def _randbits(k):
    sim, th = kernel.sim_thread()
    if th is None or sim.env is None:
        return _real_randbits(k)
    sim.count("os_entropy_reads")
    return sim.env.entropy(k)


def _urandom(n):
    sim, th = kernel.sim_thread()
    if th is None or sim.env is None:
        return _real_urandom(n)
    sim.count("os_entropy_reads")
    return sim.env.entropy(8 * n).to_bytes(n, "little")


def _quiet_imports():
    """No preemption while a module is being imported (import locks)."""
    import _frozen_importlib as fi
    real = fi._find_and_load

    def _find_and_load(name, import_):
        sim, th = kernel.sim_thread()
        if th is None:
            return real(name, import_)
        th.quiet += 1
        try:
            return real(name, import_)
        finally:
            th.quiet -= 1
    fi._find_and_load = _find_and_load


def install():
    _quiet_imports()
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading.RLock = threading._PyRLock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _sleep
    time.time = _clock(_real_time, 1.6e9, True)
    time.monotonic = _clock(_real_monotonic, 0.0)
    time.perf_counter = _clock(_real_perf, 0.0)
    time.time_ns = lambda: int(time.time() * 1e9)
    time.monotonic_ns = lambda: int(time.monotonic() * 1e9)
    time.perf_counter_ns = lambda: int(time.perf_counter() * 1e9)
    threading._time = time.monotonic
    queue.time = time.monotonic
    secrets.randbits = _randbits
    os.urandom = _urandom
