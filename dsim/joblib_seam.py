"""Seam for joblib: simulated worker pools behind joblib's backend registry.

joblib's own dispatching, batching, retrieval and abort code is the real one.
"threads": workers share memory.  "processes": tasks and results cross as
pickles, each worker has private dcor module state (see world.py), workers can
be killed; large arrays (in some runs, all matrices) arrive as joblib's memory
maps do: one mapping per array, shared by the workers, read-only by default.
"""
from __future__ import annotations

import collections
import io
import pickle

import cloudpickle
import numpy as np

from . import kernel

SITE_WORKER = 5


class Job:
    __slots__ = ("func", "callback", "tag", "num", "result", "exc", "done",
                 "pool")

    def __init__(self, func, callback, tag, num, pool):
        self.func, self.callback, self.tag = func, callback, tag
        self.num, self.pool = num, pool
        self.result = self.exc = None
        self.done = False

    # future-like
    def get(self, timeout=None):
        sim, _ = kernel.sim_thread()
        if not sim.block(lambda: self.done, timeout):
            raise TimeoutError()
        if self.exc is not None:
            raise self.exc
        return self.result

    def cancel(self):
        return False


class Pool:
    def __init__(self, sim, flavour, n, tag):
        self.sim, self.flavour, self.n = sim, flavour, n
        self.queue = collections.deque()
        self.results = collections.deque()
        self.closed = False
        self.broken = None
        self.running = {}
        self.maps = {}
        self.mmap_mode, self.max_nbytes = "r", 1 << 20
        self.submitted = 0
        self.workers = []
        self.num = sim.env.pool_no
        sim.env.pool_no += 1
        sim.env.all_pools.append(self)
        for i in range(n):
            world = None
            if flavour == "processes":
                world = sim.env.take_world()
            self.workers.append(sim.spawn(
                self._worker(i, world), "%s%d.%d" % (flavour[:4], self.num, i),
                tag=tag, daemon=True, world=world))
        self.handler = sim.spawn(self._handler, "results%d" % self.num,
                                 tag=tag, daemon=True)

    def submit(self, func, callback):
        sim = self.sim
        _, th = kernel.sim_thread()
        job = Job(func, callback, th.tag, sim.env.next_job(th.tag), self)
        self.submitted += 1
        sim.count("tasks_submitted")
        if self.broken is not None:
            job.exc = self.broken
            self.results.append(job)
        else:
            self.queue.append(job)
        sim.yield_point(SITE_WORKER)
        return job

    def _worker(self, i, world):
        def loop():
            sim, env = self.sim, self.sim.env
            _, me = kernel.sim_thread()
            while True:
                sim.block(lambda: self.queue or self.closed)
                if not self.queue:
                    return
                job = self.queue.popleft()
                self.running[i] = job
                me.tag = job.tag
                me.site = SITE_WORKER
                stall = env.stall(job.tag, job.num)
                if stall:
                    sim.count("fault:worker_stall")
                    sim.block(None, stall)
                sim.yield_point(SITE_WORKER)
                try:
                    if self.flavour == "processes":
                        job.result = self._remote(job, me, world)
                    else:
                        job.result = job.func()
                except BaseException as e:
                    job.exc = e
                me.quiet = me.depth = me.gu = 0
                sim.yield_point(SITE_WORKER)
                self.running.pop(i, None)
                self.results.append(job)
                job = None
                sim.yield_point(SITE_WORKER)
        return loop

    def _dump(self, job):
        small = self.sim.env.readonly_tasks
        pool = self

        class Pickler(cloudpickle.Pickler):
            def persistent_id(self, obj):
                if type(obj) not in (np.ndarray, np.memmap) or \
                        obj.dtype.hasobject or pool.max_nbytes is None or \
                        pool.mmap_mode is None:
                    return None
                if obj.nbytes <= pool.max_nbytes and not (small and obj.ndim > 1):
                    return None
                key = (job.tag, id(obj))
                if key not in pool.maps:
                    order = "F" if obj.flags.fnc else "C"
                    pool.maps[key] = (obj, bytearray(obj.tobytes(order)), order)
                    pool.sim.count("arrays_mapped")
                return key

        f = io.BytesIO()
        Pickler(f).dump(job.func)
        return f.getvalue()

    def _mapped(self, key):
        obj, buf, order = self.maps[key]
        if self.mmap_mode == "c":
            buf = bytearray(buf)
        elif self.mmap_mode == "r":
            buf = bytes(buf)
        return np.ndarray.__new__(np.memmap, obj.shape, obj.dtype, buffer=buf,
                                  order=order)

    def _remote(self, job, me, world):
        sim, env = self.sim, self.sim.env
        me.quiet += 1
        try:
            blob = self._dump(job)
        finally:
            me.quiet -= 1
        sim.count("task_bytes", len(blob))
        job.func = None if not env.keep_func else job.func
        sim.yield_point(SITE_WORKER)
        env.maybe_lose_worker(me, self, job, "before")
        me.quiet += 1
        try:
            func = world.loads(blob, self._mapped)
        finally:
            me.quiet -= 1
        exc = None
        try:
            res = func()
        except BaseException as e:
            exc = e
        env.maybe_lose_worker(me, self, job, "after")
        me.quiet += 1
        try:
            if exc is not None:
                blob = world.dumps(("exc", exc))
                while exc is not None:      # nothing of it crosses
                    exc.__traceback__ = None
                    exc = exc.__context__
            else:
                blob = world.dumps(("ok", res))
            kind, val = pickle.loads(blob)
        finally:
            me.quiet -= 1
        if kind == "exc":
            raise val
        return val

    def _handler(self):
        sim = self.sim
        _, me = kernel.sim_thread()
        while True:
            sim.block(lambda: self.results or (self.closed and not self.running
                                               and not self.queue))
            if not self.results:
                return
            job = self.results.popleft()
            me.tag = job.tag
            job.done = True
            if job.callback is not None:
                job.callback(job)
            job.func = job.callback = job = None
            sim.yield_point(SITE_WORKER)

    def break_(self, exc, culprit=None):
        """A worker process died: all outstanding work fails."""
        self.broken = exc
        jobs = list(self.queue)
        self.queue.clear()
        for i in sorted(self.running):
            jobs.append(self.running[i])
        self.running.clear()
        self.closed = True
        for job in sorted(jobs, key=lambda j: j.num):
            job.exc = exc
            self.results.append(job)
        for w in self.workers:
            if w is not culprit:
                self.sim.kill(w)

    def abort(self):
        self.queue.clear()
        self.closed = True
        if self.flavour == "processes":
            for w in self.workers:
                self.sim.kill(w)
            for job in list(self.running.values()) + list(self.results):
                job.func = job.callback = None
            self.running.clear()
            self.results.clear()
        else:
            _, me = kernel.sim_thread()
            self.sim.block(lambda: not self.running or (
                me in self.workers and len(self.running) == 1))

    def close(self):
        self.closed = True

    def ended(self):
        return all(t.state == kernel.DONE for t in self.workers + [self.handler])


def make_backends():
    from joblib import parallel as jp
    from joblib._parallel_backends import (
        FallbackToBackend, ParallelBackendBase, SequentialBackend,
        AutoBatchingMixin, ThreadingBackend)

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = True
        supports_inner_max_num_threads = True
        supports_return_generator = True
        supports_timeout = True
        flavour = "processes"
        _pool = None

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            sim, th = kernel.sim_thread()
            if th is None:
                return 1
            if th.world is not None:
                return 1
            cpus = sim.env.cpus
            if n_jobs < 0:
                return max(cpus + 1 + n_jobs, 1)
            return n_jobs

        def configure(self, n_jobs=1, parallel=None, prefer=None, require=None,
                      **kw):
            n_jobs = self.effective_n_jobs(n_jobs)
            if n_jobs == 1:
                raise FallbackToBackend(
                    SequentialBackend(nesting_level=self.nesting_level))
            self.parallel = parallel
            self._n_jobs = n_jobs
            self._mmap = kw.get("mmap_mode", "r"), kw.get("max_nbytes", 1 << 20)
            return n_jobs

        def _get_pool(self):
            sim, th = kernel.sim_thread()
            if self._pool is None or self._pool.closed:
                env = sim.env
                if self.flavour == "processes":
                    self._pool = env.process_pool(self._n_jobs, th.tag)
                    self._pool.maps.clear()
                    self._pool.mmap_mode, self._pool.max_nbytes = self._mmap
                else:
                    self._pool = Pool(sim, "threads", self._n_jobs, th.tag)
            return self._pool

        def submit(self, func, callback=None):
            return self._get_pool().submit(func, callback)

        def apply_async(self, func, callback=None):
            return self.submit(func, callback)

        def retrieve_result_callback(self, out):
            if out.exc is not None:
                raise out.exc
            return out.result

        def compute_batch_size(self):
            sim, th = kernel.sim_thread()
            return sim.env.batch_size(self.flavour)

        def batch_completed(self, batch_size, duration):
            pass

        def terminate(self):
            pool, self._pool = self._pool, None
            if pool is None:
                return
            sim, th = kernel.sim_thread()
            if pool.flavour == "threads":
                pool.close()
            else:
                sim.env.release_pool(pool)

        def abort_everything(self, ensure_ready=True):
            pool, self._pool = self._pool, None
            if pool is not None:
                sim, th = kernel.sim_thread()
                if pool.flavour == "processes":
                    sim.env.drop_pool(pool)
                pool.abort()

        def reset_batch_stats(self):
            pass

        def __reduce__(self):
            return SequentialBackend, ()

    class SimProcesses(SimBackend):
        flavour = "processes"
        uses_threads = False
        supports_sharedmem = False

        def get_nested_backend(self):
            return SequentialBackend(
                nesting_level=(self.nesting_level or 0) + 1), None

    class SimThreads(SimBackend):
        flavour = "threads"
        uses_threads = True
        supports_sharedmem = True
        supports_inner_max_num_threads = False

        def get_nested_backend(self):
            level = (self.nesting_level or 0) + 1
            if level > 1:
                return SequentialBackend(nesting_level=level), None
            return SimThreads(nesting_level=level), None

    return SimProcesses, SimThreads


def install():
    from joblib import parallel as jp
    procs, threads = make_backends()
    jp.BACKENDS["loky"] = procs
    jp.BACKENDS["multiprocessing"] = procs
    jp.BACKENDS["threading"] = threads
