"""The simulation kernel: one runnable thread at a time, chosen by a policy.

Real Python threads are used as coroutines: every simulated thread is parked
on its own lock and exactly one is released at any time.  Which one runs next
is decided only here, at *decision points*:

* voluntary ones: ``yield_point`` (statements or bytecodes of /repo/dcor, lock
  operations, callbacks, random draws);
* forced ones: the running thread blocks, sleeps or ends.

Every decision point increments ``step``.  A decision that differs from the
default (voluntary: keep running; forced: lowest-numbered runnable thread) is
recorded as ``[step, thread]``; replaying these records reproduces the run.
Time is virtual: it advances by ``tick`` per step and jumps to the next timer
when nothing can run.
"""
from __future__ import annotations

import _thread
import math
import random
import sys
import zlib

RUNNABLE, BLOCKED, DONE = 0, 1, 2

ACTIVE = None  # the Sim of this process, if a run is in progress


class SimThread:
    __slots__ = ("idx", "name", "sem", "state", "pred", "wake", "fn", "ident",
                 "tag", "depth", "gu", "prio", "site", "quiet", "client",
                 "daemon", "sentinel", "backoff", "slept_at", "world", "warned")

    def __init__(self, idx, name, fn, tag):
        self.idx = idx
        self.name = name
        self.fn = fn
        self.tag = tag
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = RUNNABLE
        self.pred = None
        self.wake = None
        self.ident = None
        self.depth = 0         # nesting of simulated compiled kernels
        self.gu = 0            # inside a simulated parallel row kernel
        self.prio = 0.0
        self.site = 0
        self.quiet = 0         # >0: no yield points (harness code)
        self.client = False
        self.daemon = False    # the run does not wait for it
        self.sentinel = None   # lock released when the thread ends
        self.backoff = 0
        self.slept_at = -1
        self.world = None      # private module state of a worker process
        self.warned = []       # warnings issued by this thread


class Policy:
    """Default policy: never preempt, lowest index on forced switches."""

    def start(self, sim):
        pass

    def on_spawn(self, sim, th):
        pass

    def voluntary(self, sim, cur):
        return None

    def forced(self, sim, ready):
        return ready[0]


class RandomWalk(Policy):
    """Preempt with probability p at each decision point."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def start(self, sim):
        self._next(sim)

    def _next(self, sim):
        gap = 1
        p = self.p
        if p < 1.0:
            u = self.rng.random()
            gap = 1 + int(math.log(max(u, 1e-12)) / math.log(1.0 - p))
        self.at = sim.step + gap

    def voluntary(self, sim, cur):
        if sim.step < self.at:
            return None
        self._next(sim)
        ready = [t for t in sim.ready() if t is not cur]
        return self.rng.choice(ready) if ready else None

    def forced(self, sim, ready):
        return self.rng.choice(ready)


class PCT(Policy):
    """Priority scheduling with d random priority changes."""

    def __init__(self, rng, depth, span):
        self.rng = rng
        self.points = sorted(rng.randrange(1, span) for _ in range(depth))
        self.low = 0.0

    def on_spawn(self, sim, th):
        th.prio = 1.0 + self.rng.random()

    def voluntary(self, sim, cur):
        if self.points and sim.step >= self.points[0]:
            self.points.pop(0)
            self.low -= 1.0
            cur.prio = self.low
            best = max(sim.ready(), key=lambda t: (t.prio, -t.idx))
            return best if best is not cur else None
        return None

    def forced(self, sim, ready):
        return max(ready, key=lambda t: (t.prio, -t.idx))


class Burst(Policy):
    """Long quiet stretches separated by bursts of dense preemption."""

    def __init__(self, rng, quiet, burst):
        self.rng, self.quiet, self.burst = rng, quiet, burst

    def start(self, sim):
        self.mode, self.until = 0, 1 + self.rng.randrange(self.quiet)

    def voluntary(self, sim, cur):
        if sim.step >= self.until:
            self.mode ^= 1
            span = self.burst if self.mode else self.quiet
            self.until = sim.step + 1 + self.rng.randrange(span)
        if not self.mode or self.rng.random() < 0.4:
            return None
        ready = [t for t in sim.ready() if t is not cur]
        return self.rng.choice(ready) if ready else None

    def forced(self, sim, ready):
        return self.rng.choice(ready)


class RoundRobin(Policy):
    def __init__(self, rng, q):
        self.q = q
        self.off = rng.randrange(q)

    def voluntary(self, sim, cur):
        if (sim.step + self.off) % self.q:
            return None
        ready = sim.ready()
        later = [t for t in ready if t.idx > cur.idx]
        nxt = later[0] if later else ready[0]
        return nxt if nxt is not cur else None


class Replay(Policy):
    """Follow recorded decisions; default decision everywhere else."""

    def __init__(self, switches):
        self.sw = {int(s): int(i) for s, i in switches}

    def _want(self, sim, ready):
        i = self.sw.get(sim.step)
        if i is None:
            return None
        for t in ready:
            if t.idx == i:
                return t
        return None

    def voluntary(self, sim, cur):
        if sim.step not in self.sw:
            return None
        return self._want(sim, sim.ready())

    def forced(self, sim, ready):
        return self._want(sim, ready) or ready[0]


def make_policy(spec, seed):
    kind = spec.get("policy", "none")
    rng = random.Random("policy:%s" % (spec.get("seed", seed),))
    if kind == "walk":
        return RandomWalk(rng, spec["p"])
    if kind == "pct":
        return PCT(rng, spec["d"], spec["span"])
    if kind == "burst":
        return Burst(rng, spec["quiet"], spec["burst"])
    if kind == "rr":
        return RoundRobin(rng, spec["q"])
    if kind == "replay":
        return Replay(spec["switches"])
    return Policy()


def random_sched(rng):
    """A scheduling policy specification, swarm style."""
    k = rng.random()
    s = rng.randrange(1 << 30)
    if k < 0.45:
        return {"policy": "walk", "seed": s,
                "p": rng.choice([0.003, 0.01, 0.03, 0.1, 0.3, 0.6])}
    if k < 0.65:
        return {"policy": "pct", "seed": s, "d": rng.randrange(1, 6),
                "span": rng.choice([60, 200, 800, 3000])}
    if k < 0.85:
        return {"policy": "burst", "seed": s, "quiet": rng.choice([20, 100, 500]),
                "burst": rng.choice([4, 10, 40])}
    return {"policy": "rr", "seed": s, "q": rng.choice([1, 2, 3, 7, 23, 101])}


class Sim:
    def __init__(self, policy, *, step_cap=4_000_000, tick=1e-6):
        self.policy = policy
        self.step_cap = step_cap
        self.tick = tick
        self.step = 0
        self.now = 1_000_000.0
        self.start_time = self.now
        self.threads = []
        self.live = []
        self.by_ident = {}
        self.switches = []
        self.stats = {}
        self.trace_hash = 0
        self.pairs = set()
        self.sites = set()
        self.violation = None
        self.observers = []
        self.observe_every = 1
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.stopped = False
        self.in_observer = False
        self.faults = {}       # op tag -> FaultState (tracer.py)
        self.counting = None   # op tag -> list of eligible sites (dry run)
        self.env = None        # the executing engine

    # -- bookkeeping -----------------------------------------------------
    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def fail(self, kind, detail):
        """Record a violation and stop the run (never returns)."""
        if self.violation is None:
            self.violation = {"kind": kind, "detail": detail,
                              "step": self.step,
                              "time": round(self.now - self.start_time, 6)}
        self.stop()

    def stop(self):
        """End the run from inside a simulated thread: never returns."""
        if not self.stopped:
            self.stopped = True
            self.finished.release()
        park_forever()

    # -- threads ---------------------------------------------------------
    def spawn(self, fn, name, tag=None, client=False, daemon=False, world=None):
        me = self.current()
        if me is not None:
            if tag is None:
                tag = me.tag
            if world is None:
                world = me.world
        th = SimThread(len(self.threads), name, fn, tag)
        th.client = client
        th.daemon = daemon
        th.world = world
        self.threads.append(th)
        self.live.append(th)
        self.policy.on_spawn(self, th)
        started = _thread.allocate_lock()
        started.acquire()

        def boot():
            th.ident = _thread.get_ident()
            self.by_ident[th.ident] = th
            started.release()
            th.sem.acquire()
            if self.stopped:
                park_forever()
            try:
                th.fn()
            except BaseException as e:  # a bug of the harness, or SystemExit
                if not isinstance(e, SystemExit) and self.env is not None:
                    self.env.thread_died(th, e)
            finally:
                self._end(th)

        _thread.start_new_thread(boot, ())
        started.acquire()
        return th

    def _end(self, th):
        th.state = DONE
        th.fn = th.pred = None
        self.live.remove(th)
        self.by_ident.pop(th.ident, None)
        if th.sentinel is not None and th.sentinel.locked():
            th.sentinel.release()
        self._leave(th)

    def kill(self, th):
        """th's (simulated) process is gone: it never runs again."""
        if th.state == DONE:
            return
        th.state = DONE
        th.fn = th.pred = None
        self.live.remove(th)
        if th is self.current():
            self._leave(th)
            park_forever()

    def current(self):
        return self.by_ident.get(_thread.get_ident())

    def ready(self):
        out = []
        now = self.now
        for t in self.live:
            st = t.state
            if st == RUNNABLE:
                out.append(t)
            elif st == BLOCKED:
                if (t.wake is not None and t.wake <= now) or (
                        t.pred is not None and t.pred()):
                    out.append(t)
        return out

    def _choose_forced(self):
        while True:
            ready = self.ready()
            if ready:
                break
            wakes = [t.wake for t in self.live
                     if t.state == BLOCKED and t.wake is not None]
            if not wakes:
                return None
            self.now = max(self.now, min(wakes))
        self.step += 1
        if len(ready) == 1:
            return ready[0]
        pick = self.policy.forced(self, ready)
        if pick is not ready[0]:
            self.switches.append([self.step, pick.idx])
        return pick

    def _hand_over(self, a, b):
        self.count("context_switches")
        self.pairs.add((a.site, b.site))
        self.trace_hash = zlib.crc32(
            b"%d:%d>%d:%d" % (a.idx, a.site, b.idx, b.site), self.trace_hash)
        b.state = RUNNABLE
        b.sem.release()

    def _leave(self, th):
        """th has ended: hand over to somebody, or finish the run."""
        if self.stopped:
            return
        if all(t.daemon for t in self.live):
            self.stopped = True
            self.finished.release()
            return
        nxt = self._choose_forced()
        if nxt is None:
            self._deadlock()
            return
        self._hand_over(th, nxt)

    def _deadlock(self):
        who = ", ".join(t.name for t in self.live)
        # idle threads of the library do not matter once the clients are done
        idle = all(t.daemon or t.name == "libthread" for t in self.live)
        if self.violation is None and not idle:
            self.violation = {
                "kind": "deadlock", "step": self.step,
                "time": round(self.now - self.start_time, 6),
                "detail": "no thread can ever run again: " + who}
        if not self.stopped:
            self.stopped = True
            self.finished.release()

    def _switch_to(self, me, nxt):
        self._hand_over(me, nxt)
        me.sem.acquire()
        if self.stopped:
            park_forever()

    def yield_point(self, site=0):
        """Voluntary decision point of the running thread."""
        me = self.by_ident.get(_thread.get_ident())
        if me is None or me.quiet:
            return
        self.step += 1
        self.now += self.tick
        if site:
            me.site = site
        if self.observers and not self.in_observer and (
                self.step % self.observe_every == 0):
            self.in_observer = True
            for ob in self.observers:
                ob()
            self.in_observer = False
        if self.step > self.step_cap:
            self.fail("no-progress",
                      "the run did not finish within %d steps" % self.step_cap)
        nxt = self.policy.voluntary(self, me)
        if nxt is not None and nxt is not me:
            self.switches.append([self.step, nxt.idx])
            self.count("preemptions")
            self._switch_to(me, nxt)

    def block(self, pred, timeout=None):
        """Block until pred() holds; False if the virtual timeout passed."""
        me = self.current()
        deadline = None if timeout is None else self.now + max(timeout, 0.0)
        while True:
            if pred is not None and pred():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            me.state = BLOCKED
            me.pred = pred
            me.wake = deadline
            if self.step > self.step_cap:
                self.fail("no-progress", "the run did not finish within %d "
                          "steps" % self.step_cap)
            nxt = self._choose_forced()
            if nxt is None:
                self._deadlock()
                park_forever()
            if nxt is not me:
                self._switch_to(me, nxt)
            me.state = RUNNABLE
            me.pred = me.wake = None

    def sleep(self, dt):
        """Virtual sleep.  A thread that polls alone oversleeps more and more
        (sleep gives a lower bound only), so polling loops stay cheap."""
        me = self.current()
        self.count("virtual_sleeps")
        if self.step - me.slept_at <= 2:
            me.backoff = min(me.backoff + 1, 30)
        else:
            me.backoff = 0
        self.block(None, max(dt, self.tick) * (1 << me.backoff))
        me.slept_at = self.step

    # -- driver ----------------------------------------------------------
    def run(self):
        """Called by the (non-simulated) main thread."""
        global ACTIVE
        ACTIVE = self
        self.policy.start(self)
        if not self.threads:
            return
        first = self._choose_forced()
        first.sem.release()
        self.finished.acquire()


def park_forever():
    lk = _thread.allocate_lock()
    lk.acquire()
    lk.acquire()


def sim_thread():
    """(sim, thread) of the calling thread, or (None, None)."""
    s = ACTIVE
    if s is None:
        return None, None
    t = s.by_ident.get(_thread.get_ident())
    return (s, t) if t is not None else (None, None)
