"""Executes one simulated run described by a JSON specification."""
from __future__ import annotations

import gc
import hashlib
import json
import os
import pickle
import random
import struct
import sys
import warnings

import joblib
import numpy as np

from . import kernel, model, probes, seams, settings, tracer, workload
from .joblib_seam import Pool
from .kernel import Sim, make_policy
from .numba_seam import REJECT_TEXT
from .workload import Arr

DCOR = None
WORLDS = []

FAULT_EXC = {"memory": MemoryError, "interrupt": KeyboardInterrupt,
             "float": FloatingPointError, "runtime": RuntimeError,
             "os": OSError, "exit": SystemExit, "alarm": probes.Alarm,
             "recursion": RecursionError}
MARK = "injected by the simulator"


class Outcome:
    __slots__ = ("ok", "value", "exc", "args", "fault", "warned", "where",
                 "op", "text", "chain")

    def __init__(self):
        self.ok = False
        self.value = self.exc = self.args = self.fault = self.where = None
        self.warned = 0
        self.text = ""
        self.chain = []

    def show(self):
        if self.ok:
            try:
                return "returned %s" % ([v.tolist() if v.size < 6 else "array%s" % (v.shape,)
                                         for v in workload.leaves(self.value)],)
            except Exception:
                return "returned %r" % (type(self.value),)
        return "raised %s(%s)" % (self.exc.__name__, self.text)


class Env:
    def __init__(self, spec):
        self.spec = spec
        self.prop = spec["prop"]
        self.seed = spec["seed"]
        k = spec.get("knobs", {})
        self.knobs = k
        self.opcodes = bool(k.get("opcodes"))
        self.gu_stride = int(k.get("gu_stride", 1))
        self.gu_threads = int(k.get("gu_threads", 1))
        self.cpus = int(k.get("cpus", 4))
        self.readonly_tasks = bool(k.get("ro_tasks"))
        self.keep_func = True
        self.pool_no = 0
        self.worlds = list(WORLDS)
        self.free_pools = []
        self.all_pools = []
        self.jobs = {}
        self.batches = {}
        self.cb = {}
        self.draws = {}
        self.kev = {}
        self.refusals = {}
        self.sleeps = {}
        self.entropy_n = 0
        self.clock_at = 0.0
        self.harness_error = None
        self.opfault = {}       # tag -> fault dict armed
        self.fired = {}         # tag -> exception instance raised
        self.lost = set()       # tags which lost a worker
        self.gu_calls = 0
        self.arrays = {}
        self.sources = {}
        self.projs = {}
        self.averages = {}
        self.solo_cache = {}
        self.active = {}        # tag -> op being executed
        self.outcomes = {}      # tag -> Outcome
        self.warn_log = {}
        self.checker = None

    # -- randomness (stateless: derived from what is asked for) ----------
    def _rng(self, *what):
        return random.Random("%s:%s" % (self.seed, ":".join(map(str, what))))

    def entropy(self, k):
        self.entropy_n += 1
        return self._rng("entropy", self.entropy_n).getrandbits(k)

    def clock_offset(self):
        """The wall clock is set forward or back now and then."""
        if not self.knobs.get("clock"):
            return 0.0
        new = self._rng("clock", self.sim.step // self.knobs["clock"]).choice(
            [0.0, 0.0, 1.0, -1.0, 3600.0, -3600.0, 1e7, -1e7])
        if new != self.clock_at:
            self.clock_at = new
            self.sim.count("fault:clock_jump")
        return new

    # -- tracer / threads -------------------------------------------------
    def thread_died(self, th, e):
        import traceback
        if self.harness_error is None:
            self.harness_error = "thread %s died: %s" % (
                th.name, "".join(traceback.format_exception(e))[-3000:])
        self.sim.stop()

    def on_sleep(self, th):
        f = self.opfault.get(th.tag)
        if f and f["kind"] == "intr_sleep" and th.client:
            n = self.sleeps.get(th.tag, 0)
            self.sleeps[th.tag] = n + 1
            if n == f["at"]:
                e = KeyboardInterrupt(MARK)
                self.fired[th.tag] = e
                self.sim.count("fault:interrupt_while_waiting")
                raise e

    # -- numba ------------------------------------------------------------
    def _kev(self, tag):
        return self.kev.setdefault(
            tag, {"accept": 0, "reject": 0, "mismatch": 0, "rowwise": 0})

    def kernel_event(self, th, what, name):
        self._kev(th.tag)[what] += 1
        self.sim.count("kernel:" + what)

    def kernel_enter(self, th, name):
        ev = self._kev(th.tag)
        n = ev["accept"] + ev["reject"]
        f = self.opfault.get(th.tag)
        if f and f["kind"] == "reject" and n in f["ords"]:
            ev["reject"] += 1
            self.sim.count("fault:kernel_reject")
            text = REJECT_TEXT + "(%s, %s)" % (name, MARK)
            self.refusals.setdefault(th.tag, []).append(text)
            raise TypeError(text)
        ev["accept"] += 1
        self.sim.count("kernel:accept")

    def split(self, n, t):
        self.gu_calls += 1
        rng = self._rng("split", self.gu_calls, n, t)
        if self.knobs.get("gu_even"):
            cuts = [n * i // t for i in range(t + 1)]
        else:
            cuts = sorted([0, n] + [rng.randint(0, n) for _ in range(t - 1)])
        return cuts

    # -- joblib -----------------------------------------------------------
    def take_world(self):
        if not self.worlds:
            self.worlds = list(WORLDS)
            self.sim.count("worlds_recycled")
        return self.worlds.pop(0)

    def next_job(self, tag):
        n = self.jobs.get(tag, 0)
        self.jobs[tag] = n + 1
        return n

    def stall(self, tag, num):
        p = self.knobs.get("stall", 0)
        if not p:
            return 0
        rng = self._rng("stall", tag, num)
        if rng.random() >= p:
            return 0
        return rng.choice([1e-4, 1e-2, 0.5, 3.0, 60.0, 4000.0]) * rng.random()

    def maybe_lose_worker(self, me, pool, job, phase):
        f = self.opfault.get(job.tag)
        if f and f["kind"] == "lose" and f["phase"] == phase and \
                f["job"] == job.num and job.tag not in self.lost:
            self.lose(me, pool, job.tag)

    def lose(self, me, pool, tag):
        from joblib.externals.loky.process_executor import (
            TerminatedWorkerError)
        self.lost.add(tag)
        self.sim.count("fault:worker_lost")
        pool.break_(TerminatedWorkerError(
            "A worker process managed by the executor was unexpectedly "
            "terminated (%s)" % MARK), me)
        self.sim.kill(me)

    def batch_size(self, flavour):
        b = self.knobs.get("batch", 1)
        if b != "vary":
            return b
        n = self.batches[flavour] = self.batches.get(flavour, 0) + 1
        return self._rng("batch", flavour, n).choice([1, 1, 2, 3, 5, 8])

    def process_pool(self, n, tag):
        for p in self.free_pools:
            if p.n == n and not p.closed and p.broken is None:
                self.free_pools.remove(p)
                self.sim.count("process_pool_reused")
                return p
        return Pool(self.sim, "processes", n, tag)

    def release_pool(self, pool):
        pool.maps.clear()
        if pool.broken is None and not pool.closed and \
                self.knobs.get("reuse", 1):
            self.free_pools.append(pool)
        else:
            pool.close()

    def drop_pool(self, pool):
        if pool in self.free_pools:
            self.free_pools.remove(pool)

    # -- caller-side objects ----------------------------------------------
    def average(self, kind, tag):
        if kind == "bad":
            return 3
        if kind.startswith("np."):
            return getattr(np, kind[3:])
        if self.knobs.get("share_cb"):
            # one function of the caller for all calls
            if kind not in self.averages:
                self.averages[kind] = probes.Avg(kind, None)
            return self.averages[kind]
        return probes.Avg(kind, tag)

    def callback(self, tag):
        n = self.cb.get(tag, 0)
        self.cb[tag] = n + 1
        self.hold(tag, "callback", n)
        self.nested(tag, "callback", n)
        f = self.opfault.get(tag)
        if f and f["kind"] == "callback" and n == f["at"]:
            e = probes.CALLBACK_ERRORS[f["exc"]](MARK, n)
            self.fired[tag] = e
            self.sim.count("fault:callback:" + type(e).__name__)
            raise e

    def hold(self, tag, where, n):
        """A callable of the caller that does not return for a long time."""
        op = self.active.get(tag)
        h = op and op.get("hold")
        if h and h["where"] == where and h["at"] == n and \
                hasattr(self.checker, "held"):
            self.checker.held(op, tag, where)

    def source_draw(self, name, th):
        tag = th.tag
        n = self.draws.get(tag, 0)
        self.draws[tag] = n + 1
        self.hold(tag, "source", n)
        self.nested(tag, "source", n)
        f = self.opfault.get(tag)
        if f and f["kind"] == "rng" and n == f["at"]:
            e = probes.CALLBACK_ERRORS[f["exc"]](MARK, n)
            self.fired[tag] = e
            self.sim.count("fault:random_source:" + type(e).__name__)
            raise e

    def source(self, v, tag):
        k = v["kind"]
        if k == "none":
            return None
        if k == "bad":
            return "no random state"
        if k == "int":
            return v["seed"]
        if k == "npint":
            return np.int64(v["seed"])
        if k == "array":
            return list(v["seed"])
        return self.sources[v["name"]]

    def make_source(self, name, s):
        k = s["kind"]
        if k == "rs":
            return probes.ProbeRS(name, s["seed"], s.get("script"))
        if k == "gen":
            return probes.ProbeGen(name, s["seed"], s.get("script"))
        if k == "plain_rs":
            return np.random.RandomState(s["seed"])
        if k == "plain_gen":
            return np.random.Generator(np.random.PCG64(s["seed"]))
        if k == "mt_gen":
            return np.random.Generator(np.random.MT19937(s["seed"]))
        if k == "bitgen":
            return np.random.MT19937(s["seed"])
        if k == "global":
            return np.random.mtrand._rand
        raise ValueError(k)

    # -- arrays ------------------------------------------------------------
    def arr(self, name):
        return self.arrays[name]

    def names(self, op):
        out = []
        for a in op["args"]:
            out += a if isinstance(a, list) else [a]
        return out

    def build_args(self, op):
        args = [[self.arrays[n].obj for n in a] if isinstance(a, list)
                else self.arrays[a].obj for a in op["args"]]
        if op.get("tuple_args"):
            args = [tuple(a) if isinstance(a, list) else a for a in args]
        return args

    # -- one public call ---------------------------------------------------
    def invoke(self, op, tag, kw, args, dcor=None):
        """The library call itself."""
        fn = op["fn"]
        dcor = dcor or DCOR
        if op.get("proj"):
            return self.projs[op["proj"]](*args)
        if fn in ("u_projection", "u_complementary_projection"):
            return workload.lookup(dcor, fn)(args[0])(args[1])
        f = workload.lookup(dcor, fn)
        if fn == "rowwise":
            kw = dict(kw)
            return f(kw.pop("function"), args[0], args[1], **kw)
        if op.get("out"):
            kw = dict(kw, out=self.arrays[op["out"]].obj)
        return f(*args, **kw)

    def nested(self, tag, where, n):
        """A call made from inside a callable the caller supplied."""
        op = self.active.get(tag)
        inner = op and op.get("inner")
        if not inner or inner["where"] != where or n not in inner["at"]:
            return
        sim, th = kernel.sim_thread()
        dcor = th.world.dcor if th.world is not None else DCOR
        sub = inner["op"]
        exp = self.checker.expect(sub)
        if sub.get("inner"):
            self.active[tag + "/"] = sub
        kw = workload.op_kwargs(dcor, sub, self, tag + "/")
        args = self.build_args(sub)
        out = Outcome()
        out.op = sub
        try:
            out.value = self.invoke(sub, tag, kw, args, dcor)
            out.ok = True
        except Exception as e:
            out.exc, out.args, out.text = type(e), _safe_args(e), str(e)[:200]
        sim.count("nested_calls")
        sim.count("call:" + sub["fn"])
        self.checker.nested(sub, tag, where, exp, out)

    def do_call(self, op, tag):
        sim, th = kernel.sim_thread()
        out = Outcome()
        out.op = op
        th.tag = tag
        th.warned = []
        kw = workload.op_kwargs(DCOR, op, self, tag)
        args = self.build_args(op)
        fault = op.get("fault")
        if fault:
            self.opfault[tag] = fault
            if fault["kind"] == "signal":
                sim.faults[tag] = tracer.Visit(
                    fault["k"], lambda: self.nested(tag, "signal", 0))
            elif fault["kind"] in ("stmt", "lose_mid") and \
                    fault.get("k") is not None:
                cls = FAULT_EXC.get(fault.get("exc"), MemoryError)
                if fault["kind"] == "lose_mid":
                    def make():
                        me = kernel.sim_thread()[1]
                        for p in self.all_pools:
                            if me in p.workers:
                                self.lose(me, p, tag)
                        return MemoryError(MARK)
                else:
                    def make():
                        return cls(MARK)
                sim.faults[tag] = tracer.FaultState(
                    fault["k"], make, client_only=fault.get("who") == "client",
                    worker_only=fault.get("who") == "worker")
        cfg = op.get("backend") or op.get("cfg_jobs")
        self.active[tag] = op
        try:
            if cfg:
                conf = {}
                if op.get("backend"):
                    conf["backend"] = op["backend"]
                if op.get("cfg_jobs"):
                    conf["n_jobs"] = op["cfg_jobs"]
                with joblib.parallel_config(**conf):
                    out.value = self.invoke(op, tag, kw, args)
            else:
                out.value = self.invoke(op, tag, kw, args)
            out.ok = True
        except BaseException as e:
            out.exc, out.args = type(e), _safe_args(e)
            out.text = str(e)[:200]
            link = e
            while link is not None and len(out.chain) < 10:
                out.chain.append(str(link))
                link = link.__cause__ or link.__context__
            link = None
            if os.environ.get("DSIM_DEBUG"):
                import traceback
                traceback.print_exc()
            e = None
        th.quiet = th.depth = th.gu = 0
        fs = sim.faults.pop(tag, None)
        out.fault = self.fired.get(tag)
        if fs is not None and fs.fired is not None:
            out.fault, out.where = fs.fired, fs.where
            fs.fired = True     # parked threads may still refer to fs
        if self.opfault.pop(tag, None):
            sim.count("faults_armed")
        self.active.pop(tag, None)
        out.warned = len(th.warned)
        th.tag = None
        self.outcomes[tag] = out
        del args, kw
        sim.count("calls")
        sim.count("call:" + op["fn"])
        if not out.ok:
            sim.count("calls_failed")
        return out


def _safe_args(e):
    try:
        return repr(e.args)[:400]
    except Exception:
        return "?"


# --------------------------------------------------------------------------

def build(spec):
    """Env with the caller's objects in place (no simulated thread yet)."""
    env = Env(spec)
    for name, s in spec["arrays"].items():
        env.arrays[name] = Arr(s)
    for name, s in spec.get("sources", {}).items():
        env.sources[name] = env.make_source(name, s)
    for name, p in spec.get("projs", {}).items():
        env.projs[name] = workload.lookup(DCOR, p["fn"])(env.arrays[p["arg"]].obj)
    return env


def install_warning_hook(env):
    warnings.resetwarnings()
    warnings.simplefilter("always")

    def show(message, category, filename, lineno, file=None, line=None):
        sim, th = kernel.sim_thread()
        if th is not None:
            th.warned.append((category.__name__, str(message)[:80]))

    warnings.showwarning = show


def run_sim(spec, *, counting=False, sched=None, clients=None, checker=None):
    """Run the specification in this (disposable) process."""
    gc.disable()
    install_warning_hook(None)
    np.random.seed(spec.get("gseed", spec["seed"]) % (1 << 31))
    random.seed(spec.get("gseed", spec["seed"]))
    init = spec.get("init")
    env = build(spec)
    if init:
        settings.apply(init)
    policy = make_policy(sched or spec.get("sched", {}), spec["seed"])
    sim = Sim(policy, step_cap=spec.get("step_cap", 1_500_000))
    sim.env, env.sim = env, sim
    sim.observe_every = spec.get("knobs", {}).get("observe_every", 1)
    if counting:
        sim.counting = {}
    if env.opcodes and not counting:
        tracer.opcodes()
    kernel.ACTIVE = sim
    chk = checker(env, sim, spec) if checker else None
    env.checker = chk
    if chk is not None:
        chk.before()

    def client(ci, steps):
        def body():
            sim_, th = kernel.sim_thread()
            if init:
                settings.apply_thread(init)
            if chk is not None:
                chk.client_start(ci)
            for si, step in enumerate(steps):
                tag = "%d.%d" % (ci, si)
                sim.yield_point(6)
                if step["do"] == "call":
                    st = chk.pre(step, tag, th) if chk is not None else None
                    out = env.do_call(step, tag)
                    if chk is not None:
                        chk.post(step, tag, th, st, out)
                elif chk is not None:
                    chk.other(step, tag, th)
            if chk is not None:
                chk.client_end(ci)
        return body

    for ci, steps in enumerate(clients if clients is not None
                               else spec["clients"]):
        sim.spawn(client(ci, steps), "client%d" % ci, client=True)
    sim.run()
    if sim.violation is None and env.harness_error is None and chk is not None:
        try:
            chk.after()
        except Stop:
            pass
    return sim, env, chk


class Stop(Exception):
    pass


# -- solo runs: one call alone, in a fresh fork ------------------------------

def solo(spec, op, *, counting=False, arrays=None, gseed=None):
    """Outcome of a single call in a fresh copy of the process.

    Must be called before the simulation of this process starts."""
    s = dict(spec)
    s["clients"] = [[op]]
    s["sched"] = {"policy": "none"}
    s.pop("init", None)
    if arrays is not None:
        s["arrays"] = arrays
    if gseed is not None:
        s["gseed"] = gseed

    def body():
        sim, env, _ = run_sim(s, counting=counting)
        if env.harness_error:
            return {"error": env.harness_error}
        o = env.outcomes.get("0.0")
        if o is None or sim.violation is not None:
            return {"error": None, "ok": None}
        res = {"ok": o.ok, "exc": o.exc.__name__ if o.exc else None,
               "text": o.text, "warned": o.warned, "kev": env.kev.get("0.0"),
               "cb": env.cb.get("0.0", 0), "draws": env.draws.get("0.0", 0),
               "jobs": env.jobs.get("0.0", 0),
               "sites": (sim.counting or {}).get("0.0", []), "leaves": None}
        if o.ok:
            try:
                res["leaves"] = workload.leaves(o.value)
            except (TypeError, ValueError):
                pass
        return res
    return in_fork(body)


def in_fork(body, timeout=None):
    """Run body() in a forked child and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ("ok", body())
            except BaseException:
                import traceback
                res = ("err", traceback.format_exc())
            data = pickle.dumps(res)
            view = memoryview(struct.pack("<Q", len(data)) + data)
            while view:
                view = view[os.write(w, view):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    try:
        import select
        end = None if timeout is None else seams._real_monotonic() + timeout
        while True:
            if end is not None:
                left = end - seams._real_monotonic()
                if left <= 0 or not select.select([r], [], [], left)[0]:
                    os.kill(pid, 9)
                    return {"timeout": True}
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if len(buf) < 8:
        return {"crash": True}
    kind, res = pickle.loads(buf[8:])
    if kind == "err":
        raise RuntimeError("child failed:\n" + res)
    return res


def fork_child(sim, env, th, ops, judge, limit=60.0):
    """Fork here and now, as seen by the one thread that survives in the
    child; run ops there.  Returns what judge() said of each."""
    r, w = os.pipe()
    th.quiet += 1           # the interpreter's own at-fork handlers
    pid = os.fork()
    if pid:
        th.quiet -= 1
    else:
        def report(msg):
            data = pickle.dumps(msg)
            view = memoryview(struct.pack("<Q", len(data)) + data)
            while view:
                view = view[os.write(w, view):]
            os._exit(0)

        doing = [None]
        try:
            os.close(r)
            for t in sim.live:
                if t is not th:
                    t.state = kernel.DONE
            sim.live = [th]
            sim.by_ident = {kernel._thread.get_ident(): th}
            th.quiet -= 1
            sim.policy = kernel.Policy()
            sim.faults.clear()
            sim.observers.clear()
            env.active.clear()
            env.opfault.clear()
            env.free_pools, env.all_pools = [], []

            def stop():
                report(("stop", doing[0], sim.violation))

            sim.stop = sim._deadlock = stop
            out = []
            for i, op in enumerate(ops):
                doing[0] = i
                tag = "f.%d" % i
                exp = env.checker.expect(op)
                res = env.do_call(op, tag)
                out.append((judge(op, tag, exp, res),
                            res.exc.__name__ if res.exc else None))
            report(("done", out, None))
        except BaseException:
            import traceback
            report(("err", traceback.format_exc(), None))
        finally:
            os._exit(1)
    os.close(w)
    buf = b""
    import select
    end = seams._real_monotonic() + limit
    try:
        while True:
            left = end - seams._real_monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, 9)
                return "hang", None, None
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if len(buf) < 8:
        return "err", "the forked child died", None
    return pickle.loads(buf[8:])


# -- resolving relative faults -------------------------------------------

def resolve(spec):
    """Replace relative statement-fault positions by absolute ones, using a
    dry run of the call in question."""
    for ci, steps in enumerate(spec["clients"]):
        for si, op in enumerate(steps):
            f = op.get("fault")
            if op.get("do") != "call" or not f or f["kind"] not in (
                    "stmt", "lose_mid", "signal") or f.get("k") is not None:
                continue
            plain = {k: v for k, v in op.items() if k != "fault"}
            s = dict(spec, sources={k: v for k, v in
                                    spec.get("sources", {}).items()})
            res = solo(s, plain, counting=True)
            if res.get("error"):
                raise RuntimeError(res["error"])
            sites = res.get("sites") or []
            who = f.get("who", "any")
            if who == "client":
                sites = [x for x in sites if x[1]]
            elif who == "worker":
                sites = [x for x in sites if not x[1]]
            if not sites:
                f["k"] = 10 ** 9
                continue
            rng = random.Random("fault:%s:%d:%d" % (spec["seed"], ci, si))
            if f.get("mode") == "site":
                pick = rng.choice(sorted({x[0] for x in sites}))
                where = [i for i, x in enumerate(sites) if x[0] == pick]
                f["k"] = rng.choice(where)
            else:
                f["k"] = rng.randrange(len(sites))
    return spec


def execute(spec):
    """Run a specification with its property's checker; returns a report."""
    from . import checks
    spec = resolve(json.loads(json.dumps(spec)))
    checker = checks.CHECKERS[spec["prop"]]
    pre = checks.prepare(spec)

    def make(env, sim, sp):
        c = checker(env, sim, sp)
        c.pre_data = pre
        return c

    sim, env, chk = run_sim(spec, checker=make)
    rep = {
        "violation": sim.violation,
        "error": env.harness_error,
        "spec": spec,
        "steps": sim.step,
        "time": sim.now - sim.start_time,
        "switches": sim.switches,
        "hash": sim.trace_hash,
        "pairs": sorted(sim.pairs),
        "stats": sim.stats,
        "threads": len(sim.threads),
        "history": chk.history_digest() if chk is not None else "",
        "nontrivial": chk.nontrivial(),
    }
    return rep
