"""One checker per property: observers during the run, checks over the
recorded history."""
from __future__ import annotations

import copy
import enum
import gc
import hashlib
import os
import pickle
import random
import tracemalloc
import weakref

import numpy as np

from . import kernel, model, probes, settings, workload, world
from .workload import Arr


def _sha(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
    return h.hexdigest()


def n_obs(op, env):
    specs = [env.spec["arrays"][a] for a in env.names(op)]
    if op["fn"] == "energy_test":
        return sum(s["shape"][0] for s in specs)
    return specs[0]["shape"][0]


def fixed_stream(v, n, r):
    """Permutations of a seed-like source (a RandomState seeded with it)."""
    rs = np.random.RandomState(v["seed"])
    return [rs.permutation(n) for _ in range(r)]


class Checker:
    NEEDS = ()           # solo information computed before the run
    hang_is_violation = True   # deadlock, or a real hang
    steps_bounded = False      # reaching the step cap breaks the property

    def __init__(self, env, sim, spec):
        self.env, self.sim, self.spec = env, sim, spec
        self.history = []
        self.pre_data = {}
        self.evaluated = 0
        self.main_done = False

    # hooks
    def before(self):
        pass

    def client_start(self, ci):
        pass

    def client_end(self, ci):
        pass

    def pre(self, op, tag, th):
        return None

    def post(self, op, tag, th, st, out):
        self.record(op, tag, out)
        self.check(op, tag, th, st, out)

    def check(self, op, tag, th, st, out):
        pass

    def other(self, step, tag, th):
        raise ValueError(step["do"])

    def nested(self, op, tag, where, exp, out):
        pass

    def after(self):
        pass

    def nontrivial(self):
        return self.evaluated > 0

    # helpers
    def fail(self, kind, detail):
        sim, th = kernel.sim_thread()
        if th is not None:
            self.sim.fail(kind, detail)
        if self.sim.violation is None:
            self.sim.violation = {
                "kind": kind, "detail": detail, "step": self.sim.step,
                "time": round(self.sim.now - self.sim.start_time, 6)}
        from .engine import Stop
        raise Stop()

    def record(self, op, tag, out):
        if out.ok:
            try:
                d = _sha(*[v.tobytes() for v in workload.leaves(out.value)])
            except (TypeError, ValueError):
                d = type(out.value).__name__
        else:
            d = out.exc.__name__ + (out.args or "")
        self.history.append((tag, out.ok, d))

    def history_digest(self):
        return _sha(self.history)

    def expect(self, op):
        """Documented outcome for the arguments' present contents."""
        env = self.env
        if op.get("bad"):
            return workload.SKIP, None
        specs = [env.spec["arrays"][a] for a in env.names(op)]
        if op.get("proj"):
            p = env.spec["projs"][op["proj"]]
            a = env.arr(p["arg"]).data()
            b = env.arr(op["args"][0]).data()
            return workload.expected(dict(op, fn=p["fn"]), [a, b], specs)
        if op["fn"] == "rowwise":
            return workload.rowwise_expected(
                op, [[env.arr(n).data() for n in a] if isinstance(a, list)
                     else env.arr(a).data() for a in op["args"]], specs)
        datas = [env.arr(n).data() for n in env.names(op)]
        return workload.expected(op, datas, specs)

    def perms(self, op, tag, st=None):
        """Permutations this call drew, or None if unknown."""
        v = op["kw"].get("random_state", {"kind": "none"})
        n, r = n_obs(op, self.env), op["kw"].get("num_resamples", 0)
        if v["kind"] in ("int", "npint", "array"):
            return fixed_stream(v, n, r)
        if v["kind"] == "none":
            return None
        src = self.env.sources[v["name"]]
        if hasattr(src, "log"):
            draws = [d[2] for d in src.log.draws if d[0] == tag]
            if len(draws) == r and all(len(d) == n for d in draws):
                return draws
            return None
        return None

    def judge_perm(self, op, tag, test, out, perms):
        r = op["kw"].get("num_resamples", 0)
        try:
            p = float(out.value.pvalue)
            s = float(np.asarray(workload._np(out.value.statistic)))
        except (AttributeError, TypeError, ValueError) as e:
            return "is not a test result (%s)" % e
        if test.observed != test.observed:
            if s == s:
                return "statistic is %r, expected nan" % s
        elif not abs(s - test.observed) <= test.tol * 10:
            return "statistic is %r, expected %r" % (s, test.observed)
        if perms is None:
            k = p * (r + 1)
            if abs(k - round(k)) > 1e-6 or not 1 <= round(k) <= r + 1:
                return "p-value %r is not (1 + k)/(1 + %d)" % (p, r)
            return None
        lo, hi = test.interval(perms)
        k = p * (r + 1) - 1
        if abs(k - round(k)) > 1e-6 or not lo <= round(k) <= hi:
            want = "%d" % lo if lo == hi else "%d..%d" % (lo, hi)
            return "p-value %r means %.6g greater resamples of %d, expected %s" \
                % (p, k, r, want)
        return None

    def judge(self, op, tag, exp, out, perms=None):
        """None, or how the outcome deviates from the documented one."""
        kind, e = exp
        if kind == "skip":
            return None
        if kind == "exc":
            if out.ok or out.exc.__name__ != e:
                return "%s, expected %s" % (out.show(), e)
            return None
        if not out.ok:
            return out.show()
        if kind == "perm":
            return self.judge_perm(op, tag, e, out, perms)
        return workload.matches(e, out.value)

    def where(self, op, tag):
        return "call %s %s" % (tag, describe(op, self.spec))


def describe(op, spec):
    args = []
    for a in op.get("args", ()):
        for n in (a if isinstance(a, list) else [a]):
            s = spec["arrays"].get(n, {})
            args.append("%s%s:%s" % (n, tuple(s.get("shape", ())),
                                     s.get("dtype", "?")))
    kw = {k: v for k, v in op.get("kw", {}).items()}
    for k in ("backend", "cfg_jobs", "out", "proj", "fault"):
        if op.get(k):
            kw[k] = op[k]
    return "%s(%s; %s)" % (op.get("fn"), ", ".join(args[:8]), kw)


# --------------------------------------------------------------------------

class C01(Checker):
    steps_bounded = True

    def check(self, op, tag, th, st, out):
        twin = self.pre_data["twin"].get(tag)
        if not twin or not twin.get("ok"):
            return
        self.evaluated += 1
        if not out.ok:
            self.fail("parallel-error", "%s %s, the serial test returned p=%r"
                      % (self.where(op, tag), out.show(),
                         float(twin["leaves"][0])))
        try:
            got = workload.leaves(out.value)
        except (TypeError, ValueError):
            got = []
        if len(got) != 2:
            self.fail("parallel-result", "%s returned %r" % (
                self.where(op, tag), type(out.value)))
        p, s = float(got[0]), got[1]
        p0, s0 = float(twin["leaves"][0]), twin["leaves"][1]
        r = op["kw"].get("num_resamples", 0)
        if s.shape != s0.shape or not np.allclose(s, s0, rtol=1e-11, atol=0,
                                                  equal_nan=True):
            kind, e = self.expect(op)
            if kind != "perm" or abs(float(s) - float(s0)) > e.tol:
                self.fail("parallel-statistic", "%s: statistic %r, serial %r" % (
                    self.where(op, tag), s.tolist(), s0.tolist()))
        if abs(p - p0) * (r + 1) > 1e-6:
            # Equal up to resamples tied with the observation up to rounding?
            kind, e = self.expect(op)
            slack = 0
            if kind == "perm" and not e.exact:
                perms = self.perms(op, tag)
                if perms is not None:
                    lo, hi = e.interval(perms)
                    slack = hi - lo
                elif op["kw"]["random_state"]["kind"] == "none":
                    slack = r
            if abs(p - p0) * (r + 1) > slack + 1e-6:
                self.fail("parallel-verdict", "%s: p-value %r, serial test %r" % (
                    self.where(op, tag), p, p0))


class C02(Checker):
    def pre(self, op, tag, th):
        return self.expect(op)

    def check(self, op, tag, th, st, out):
        kind, e = st
        if kind != "perm":
            return
        self.evaluated += 1
        why = self.judge(op, tag, st, out, self.perms(op, tag))
        if why:
            self.fail("p-value", "%s: %s" % (self.where(op, tag), why))


def _src_state(src):
    """Comparable state of a random source object."""
    if isinstance(src, np.random.RandomState):
        st = src.get_state(legacy=False)
    elif isinstance(src, np.random.Generator):
        st = src.bit_generator.state
    else:
        st = src.state
    return _norm(st)


def _spawned(src):
    """Number of child streams a generator has handed out."""
    bg = getattr(src, "bit_generator", src)
    return getattr(getattr(bg, "seed_seq", None), "n_children_spawned", None)


def _norm(st):
    if isinstance(st, dict):
        return tuple((k, _norm(v)) for k, v in sorted(st.items())
                     if k not in ("gauss", "has_gauss"))
    if isinstance(st, np.ndarray):
        return st.tobytes()
    return st


def _clone_source(src):
    if isinstance(src, np.random.RandomState):
        r = np.random.RandomState(0)
        r.set_state(src.get_state(legacy=False))
        return r
    if isinstance(src, np.random.Generator):
        bg = type(src.bit_generator)()
        bg.state = src.bit_generator.state
        return np.random.Generator(bg)
    bg = type(src)()
    bg.state = src.state
    return np.random.RandomState(bg)


class C03(Checker):
    def before(self):
        self.np0, self.py0 = settings.np_random(), settings.py_random()
        self.uses_global = any(s["kind"] == "global" for s in
                               self.spec.get("sources", {}).values())
        if not self.uses_global:
            every = [0]

            def watch():
                every[0] += 1
                if every[0] % 3:
                    return
                self.globals_ok("while calls were in progress")
            self.sim.observers.append(watch)
        self.clones = {n: _clone_source(s) for n, s in self.env.sources.items()}
        self.spawned = {n: _spawned(s) for n, s in self.env.sources.items()}
        self.users = {}
        for ci, steps in enumerate(self.spec["clients"]):
            for si, op in enumerate(steps):
                v = op.get("kw", {}).get("random_state", {})
                if v.get("name"):
                    self.users.setdefault(v["name"], []).append(
                        ("%d.%d" % (ci, si), op, ci))

    def globals_ok(self, when):
        if self.uses_global:
            if settings.py_random() != self.py0:
                self.fail("global-random", "Python's global generator changed "
                          + when)
            return
        if settings.np_random() != self.np0:
            self.fail("global-random", "NumPy's global generator changed " + when)
        if settings.py_random() != self.py0:
            self.fail("global-random", "Python's global generator changed " + when)

    def pre(self, op, tag, th):
        return self.expect(op)

    def check(self, op, tag, th, st, out):
        self.evaluated += 1
        self.globals_ok("by or during " + self.where(op, tag))
        v = op["kw"].get("random_state", {"kind": "none"})
        r, n = op["kw"].get("num_resamples", 0), n_obs(op, self.env)
        if v["kind"] in ("int", "npint", "array"):
            if out.ok and st[0] == "perm":
                why = self.judge(op, tag, st, out, self.perms(op, tag))
                if why:
                    self.fail("seeded-draws", "%s does not use the stream of "
                              "its seed: %s" % (self.where(op, tag), why))
            return
        if v["kind"] == "none":
            a, b = self.pre_data["entropy"].get(tag, (None, None))
            if a and b and a.get("ok") and b.get("ok") and \
                    float(a["leaves"][0]) != float(b["leaves"][0]):
                self.fail("global-random", "%s without a source reads a global "
                          "generator: p-value %r or %r for the same entropy, "
                          "depending on its state" % (
                              self.where(op, tag), float(a["leaves"][0]),
                              float(b["leaves"][0])))
            return
        if v["kind"] == "bad":
            return
        name = v["name"]
        if len({u[2] for u in self.users[name]}) > 1:
            return                        # shared between clients: see after()
        # private (or used in turn): the source advanced by 0..r draws
        clone = self.clones[name]
        src = self.env.sources[name]
        if self.spec["sources"][name].get("script"):
            return
        target = _src_state(src)
        perms = []
        hits = []
        if _clone_state(clone) == target:
            hits.append(0)
        if not out.ok or r == 0:
            probe = _clone_source_of_clone(clone)
            for i in range(r):
                probe.permutation(n)
                if _clone_state(probe) == target:
                    hits.append(i + 1)
                    break
            if not hits:
                self.fail("source-state", "after %s (%s) the source is not any "
                          "number of draws further on" % (
                              self.where(op, tag), out.show()))
            clone = _clone_source_of_clone(clone)
            for i in range(hits[-1]):
                clone.permutation(n)
        else:
            for i in range(r):
                perms.append(clone.permutation(n))
            if _clone_state(clone) != target:
                self.fail("source-state", "after %s the source is not exactly "
                          "%d permutations further on" % (
                              self.where(op, tag), r))
            if st[0] == "perm":
                why = self.judge(op, tag, st, out, perms)
                if why:
                    self.fail("source-draws", "%s did not use the permutations "
                              "drawn from its source: %s" % (
                                  self.where(op, tag), why))
        self.clones[name] = clone

    def after(self):
        self.globals_ok("by the end of the run")
        for n, k in self.spawned.items():
            if _spawned(self.env.sources[n]) != k:
                self.fail("source-state", "the source %s has handed out child "
                          "streams (%s before, %s now): its later ones are "
                          "others" % (n, k, _spawned(self.env.sources[n])))
        for name, users in self.users.items():
            if len({u[2] for u in users}) <= 1:
                continue
            src = self.env.sources[name]
            if not hasattr(src, "log") or self.spec["sources"][name].get("script"):
                continue
            outs = [(t, op, self.env.outcomes.get(t)) for t, op, _ in users]
            if any(o is None for _, _, o in outs):
                continue
            log = src.log.draws
            clone = self.clones[name]
            all_ok = all(o.ok for _, _, o in outs)
            total = sum(op["kw"].get("num_resamples", 0) for _, op, _ in outs)
            sizes = {n_obs(op, self.env) for _, op, _ in outs}
            if all_ok and len(sizes) == 1:
                # whoever drew, exactly `total` permutations were taken
                n = sizes.pop()
                probe = _clone_source_of_clone(clone)
                stream = [tuple(probe.permutation(n).tolist())
                          for _ in range(total)]
                if _clone_state(probe) != _src_state(src):
                    self.fail("shared-source", "%d tests sharing a source with "
                              "%d resamples altogether left it elsewhere than "
                              "%d draws further on" % (len(outs), total, total))
            if len(log) != total and all_ok:
                continue          # drawn by other means than permutation()
            probe = _clone_source_of_clone(clone)
            for i, (t, n, perm) in enumerate(log):
                if tuple(probe.permutation(n).tolist()) != perm:
                    self.fail("shared-source", "draw %d of the shared source is "
                              "not the %d-th of its stream" % (i, i))
            for t, op, o in outs:
                mine = [d[2] for d in log if d[0] == t]
                r = op["kw"].get("num_resamples", 0)
                if o.ok and len(mine) != r:
                    self.fail("shared-source", "%s drew %d permutations" % (
                        self.where(op, t), len(mine)))
                st = self.expect(op)
                if o.ok and st[0] == "perm":
                    why = self.judge_perm(op, t, st[1], o, mine)
                    if why:
                        self.fail("shared-source", "%s did not use exactly its "
                                  "own draws: %s" % (self.where(op, t), why))


def _clone_state(c):
    return _src_state(c)


def _clone_source_of_clone(c):
    return _clone_source(c)


class ValueChecker(Checker):
    """Outcome equals the documented one for the present arguments."""

    kind = "value"

    def pre(self, op, tag, th):
        return self.expect(op)

    def check(self, op, tag, th, st, out):
        if st[0] == "skip":
            return
        self.evaluated += 1
        perms = self.perms(op, tag) if st[0] == "perm" else None
        why = self.judge(op, tag, st, out, perms)
        if why:
            self.fail(self.kind, "%s: %s" % (self.where(op, tag), why))


class Keeper:
    """Results handed out earlier, with the bytes they had."""

    def __init__(self, chk):
        self.chk, self.items = chk, []

    def keep(self, tag, op, value):
        bufs = workload.buffers(value)
        self.items.append((tag, op, value,
                           [np.array(v, copy=True) for v in
                            workload.leaves(value)], bufs))

    def verify(self, when):
        for tag, op, value, old, _ in self.items:
            new = workload.leaves(value)
            for a, b in zip(old, new):
                if a.shape != b.shape or a.tobytes() != b.tobytes():
                    self.chk.fail("result-changed", "the value returned by %s "
                                  "has changed %s" % (
                                      self.chk.where(op, tag), when))


class C04(ValueChecker):
    kind = "concurrent-value"

    def before(self):
        self.keeper = Keeper(self)

    def check(self, op, tag, th, st, out):
        super().check(op, tag, th, st, out)
        if out.ok:
            try:
                self.keeper.keep(tag, op, out.value)
            except (TypeError, ValueError):
                pass

    def after(self):
        self.keeper.verify("after it was returned")


class C05(Checker):
    hang_is_violation = False

    def before(self):
        env = self.env
        self.images = {n: a.image() for n, a in env.arrays.items()}
        self.metas = {n: a.meta() for n, a in env.arrays.items()}
        self.outs = {op["out"] for steps in self.spec["clients"]
                     for op in steps if op.get("out")}
        self.watch = [n for n in env.arrays if n not in self.outs]
        self.sim.observers.append(self.observe)

    def observe(self):
        # only what is in use by calls in flight
        for tag, op in self.env.active.items():
            self.scan(op, "during")

    def pre(self, op, tag, th):
        return self.expect(op) if op.get("out") else None

    def scan(self, op, when):
        env = self.env
        for n in set(env.names(op)):
            if n in self.outs:
                continue
            if env.arrays[n].image() != self.images[n]:
                self.fail("input-modified", "input %s was modified %s %s" % (
                    n, when, describe(op, self.spec)))
            meta = env.arrays[n].meta()
            if meta[:-1] != self.metas[n][:-1]:
                self.fail("input-modified", "the shape, strides or type of input "
                          "%s were modified %s %s: %s -> %s" % (
                              n, when, describe(op, self.spec),
                              self.metas[n][:-1], meta[:-1]))

    def check(self, op, tag, th, st, out):
        self.evaluated += 1
        env = self.env
        self.scan(op, "after")
        if op.get("out"):
            a = env.arrays[op["out"]]
            if out.ok and out.value is not a.obj:
                self.fail("output-argument", "%s returned another object than "
                          "its output argument" % self.where(op, tag))
            if out.ok:
                why = self.judge(op, tag, st, out)
                if why:
                    self.fail("output-argument", "%s: the output argument holds "
                              "a wrong result: %s" % (self.where(op, tag), why))
        if not out.ok and out.fault is None and tag in self.pre_data["rw"]:
            twin = self.pre_data["rw"][tag]
            if twin.get("ok"):
                self.fail("read-only-refused", "%s %s, but accepts writable "
                          "arrays" % (self.where(op, tag), out.show()))

    def after(self):
        for n in self.env.arrays:
            if n in self.watch and self.env.arrays[n].image() != self.images[n]:
                self.fail("input-modified",
                          "array %s is modified at the end of the run" % n)
            if self.env.arrays[n].meta() != self.metas[n]:
                self.fail("input-modified", "the shape, type or flags of array "
                          "%s are modified at the end of the run: %s -> %s" % (
                              n, self.metas[n], self.env.arrays[n].meta()))


class C06(Checker):
    def pre(self, op, tag, th):
        return self.expect(op)

    def check(self, op, tag, th, st, out):
        if out.fault is not None:
            self.evaluated += 1
            f = out.fault
            if out.ok:
                self.fail("error-lost", "%s returned a result although %s(%s) "
                          "was raised inside it%s" % (
                              self.where(op, tag), type(f).__name__, f,
                              " at " + out.where if out.where else ""))
            if out.exc is not type(f) or out.args != repr(f.args)[:400]:
                self.fail("error-changed", "%s %s although %s%r was raised inside "
                          "it%s" % (self.where(op, tag), out.show(),
                                    type(f).__name__, f.args,
                                    " at " + out.where if out.where else ""))
            return
        if st[0] == "skip":
            return
        why = self.judge(op, tag, st, out,
                         self.perms(op, tag) if st[0] == "perm" else None)
        if why:
            self.fail("after-failure", "%s after earlier failures: %s" % (
                self.where(op, tag), why))


class C07(Checker):
    def check(self, op, tag, th, st, out):
        if op["fn"] != "rowwise":
            return
        ref = self.pre_data["pairs"].get(tag)
        if ref is None:
            return
        self.evaluated += 1
        if ref["mode"] == "refuse":
            if ref["refusal"] and (out.ok or
                                   out.exc.__name__ != ref["refusal"]):
                self.fail("row-refusal", "%s %s; the function refuses each pair "
                          "alone (%s)" % (self.where(op, tag), out.show(),
                                          ref["refusal"]))
            return
        if not out.ok:
            if ref["mode"] == "must":
                self.fail("row-error", "%s %s" % (self.where(op, tag), out.show()))
            return
        try:
            got = workload._np(out.value)
        except (TypeError, ValueError):
            self.fail("row-value", "%s returned a non-numeric %s" % (
                self.where(op, tag), type(out.value)))
        k = len(ref["values"])
        if got.shape != (k,):
            self.fail("row-shape", "%s returned shape %s for %d pairs" % (
                self.where(op, tag), got.shape, k))
        for i, (v, tol) in enumerate(zip(ref["values"], ref["tols"])):
            if v is None:
                continue
            if v != v:
                if got[i] == got[i]:
                    self.fail("row-value", "%s: entry %d is %r, the pair alone "
                              "gives nan" % (self.where(op, tag), i,
                                             float(got[i])))
                continue
            if tol is None:
                continue
            if not abs(float(got[i]) - v) <= tol:
                self.fail("row-value", "%s: entry %d is %r, the pair alone gives "
                          "%r" % (self.where(op, tag), i, float(got[i]), v))


class C08(Checker):
    def pre(self, op, tag, th):
        return self.expect(dict(op, kw={k: v for k, v in op["kw"].items()
                                        if k != "compile_mode"}))

    def check(self, op, tag, th, st, out):
        if op["fn"] == "rowwise" or st[0] == "skip":
            return
        self.evaluated += 1
        ev = self.env.kev.get(tag) or {"accept": 0, "reject": 0, "mismatch": 0}
        refused = ev["reject"] + ev["mismatch"]
        mode = op["kw"].get("compile_mode", "AUTO")
        w = self.where(op, tag)
        if mode == "AUTO":
            why = self.judge(op, tag, st, out)
            if why:
                self.fail("fallback" if refused else "around-rejection",
                          "%s, %d kernel calls refused: %s" % (w, refused, why))
            if refused and not out.warned:
                self.fail("no-warning", "%s: a refused kernel call was absorbed "
                          "without a warning" % w)
        elif mode == "COMPILE_CPU":
            if refused:
                if out.ok or not issubclass(out.exc, TypeError):
                    self.fail("substituted", "%s %s although the compiled kernel "
                              "refused the call" % (w, out.show()))
                texts = self.env.refusals.get(tag, [])
                if not any(t in c for t in texts for c in out.chain):
                    self.fail("substituted", "%s %s, not the compiled kernel's "
                              "refusal (%s)" % (w, out.show(), texts[0][:120]))
            else:
                why = self.judge(op, tag, st, out)
                if why:
                    self.fail("around-rejection", "%s: %s" % (w, why))
                if out.ok and not ev["accept"]:
                    self.fail("substituted", "%s %s without using a compiled "
                              "kernel" % (w, out.show()))
        else:
            why = self.judge(op, tag, st, out)
            if why:
                self.fail("around-rejection", "%s: %s" % (w, why))
        base = self.pre_data["base"].get(tag)
        if base and not ev["reject"] and base.get("kev") is not None or \
                base and not ev["reject"] and base.get("ok"):
            b = base.get("kev") or {"accept": 0, "mismatch": 0}
            if (b["accept"], b["mismatch"]) != (ev["accept"], ev["mismatch"]):
                self.fail("implementation-changed", "%s used compiled kernels %d "
                          "times (%d refused); in a fresh process %d (%d refused)"
                          % (w, ev["accept"], ev["mismatch"], b["accept"],
                             b["mismatch"]))


class C09(Checker):
    def before(self):
        self.keeper = Keeper(self)
        self.values = {}

    def pre(self, op, tag, th):
        return self.expect(op)

    def check(self, op, tag, th, st, out):
        env = self.env
        if out.fault is None and st[0] != "skip":
            self.evaluated += 1
            perms = self.perms(op, tag) if st[0] == "perm" else None
            why = self.judge(op, tag, st, out, perms)
            if why:
                self.fail("history", "%s: %s" % (self.where(op, tag), why))
        if out.ok:
            bufs = workload.buffers(out.value)
            outobj = env.arrays[op["out"]].base if op.get("out") else None
            for b in bufs:
                if outobj is not None and np.shares_memory(b, outobj):
                    continue
                for n, a in env.arrays.items():
                    if isinstance(a.base, np.ndarray) and a.spec.get("ns") != \
                            "list" and np.may_share_memory(b, a.base):
                        self.fail("aliasing", "the result of %s shares memory "
                                  "with the caller's array %s" % (
                                      self.where(op, tag), n))
                for t2, op2, _, _, bufs2 in self.keeper.items:
                    for b2 in bufs2:
                        if np.may_share_memory(b, b2):
                            self.fail("aliasing", "the results of %s and %s "
                                      "share memory" % (
                                          self.where(op, tag),
                                          self.where(op2, t2)))
            if op.get("keep") and outobj is None:
                self.keeper.keep(tag, op, out.value)
        self.keeper.verify("during a later step (%s)" % tag)

    def other(self, step, tag, th):
        env = self.env
        do = step["do"]
        if do == "mutate":
            a = env.arrays.get(step["arr"])
            if a is not None and a.spec.get("ns") != "list":
                with a.thawed():
                    mutate(a, step)
                self.sim.count("caller_mutations")
        elif do == "realloc":
            old = env.arrays[step["arr"]].spec
            spec = dict(old, seed=step["seed"])
            if step.get("dtype"):
                spec["dtype"] = step["dtype"]
            env.arrays[step["arr"]] = None
            env.arrays[step["arr"]] = Arr(spec)
            self.sim.count("caller_reallocations")
        elif do == "scribble":
            for i, (t, op, value, _, bufs) in enumerate(self.keeper.items):
                if t == step["of"]:
                    for b in bufs:
                        if b.flags.writeable:
                            b[...] = -12345.678
                    del self.keeper.items[i]
                    self.sim.count("caller_scribbles")
                    break
        elif do == "forget":
            self.keeper.items = [x for x in self.keeper.items
                                 if x[0] != step["of"]]
        else:
            raise ValueError(do)

    def after(self):
        self.keeper.verify("by the end of the run")


def mutate(a, step):
    """The caller changes its own array in place."""
    rng = random.Random("mutate:%s" % step["seed"])
    v = a.view if a.view.flags.writeable else a.base
    how = step["how"]
    spec = a.spec
    fresh = workload.converted(
        spec, workload.raw_data(dict(spec, seed=step["seed"])))
    sym = spec["kind"] in ("sym", "symint", "usym")
    if sym or how == "refill" or spec["kind"] == "zero":
        a.view[...] = fresh
    elif how == "one":
        ix = tuple(rng.randrange(s) for s in v.shape)
        a.view[ix] = fresh[ix] + 1
    elif how == "swap":
        if v.shape[0] > 1:
            i, j = rng.sample(range(v.shape[0]), 2)
            tmp = np.array(a.view[i])
            a.view[i] = a.view[j]
            a.view[j] = tmp
    elif how == "scale":
        a.view[...] = np.asarray(a.view) * 2
    else:
        raise ValueError(how)


class C10(Checker):
    steps_bounded = True

    def pre(self, op, tag, th):
        return self.expect(op)

    def check(self, op, tag, th, st, out):
        self.evaluated += 1
        w = self.where(op, tag)
        if out.fault is not None and out.ok:
            self.fail("incomplete-verdict", "%s %s although %s(%s) was raised "
                      "while evaluating a resample%s" % (
                          w, out.show(), type(out.fault).__name__, out.fault,
                          " at " + out.where if out.where else ""))
        if out.ok and st[0] == "perm":
            why = self.judge(op, tag, st, out, self.perms(op, tag))
            if why:
                self.fail("incomplete-verdict", "%s%s: %s" % (
                    w, " (a worker was lost)" if tag in self.env.lost else "",
                    why))


class C11(Checker):
    hang_is_violation = False

    def before(self):
        self.glob = settings.global_part()
        self.mine = {}

    def client_start(self, ci):
        self.mine[ci] = settings.thread_part()

    def check(self, op, tag, th, st, out):
        self.evaluated += 1
        if world.IMPORT_DIFF:
            self.fail("settings-changed", "by importing dcor: %s" %
                      "; ".join(world.IMPORT_DIFF))
        ci = int(tag.split(".")[0])
        d = settings.diff(self.mine[ci], settings.thread_part())
        if d:
            self.fail("settings-changed", "after %s (%s): %s" % (
                self.where(op, tag), out.show(), "; ".join(d)))
        if not self.env.active:
            self.globals("after %s (%s)" % (self.where(op, tag), out.show()))

    def globals(self, when):
        d = settings.diff(self.glob, settings.global_part())
        if d:
            self.fail("settings-changed", "%s: %s" % (when, "; ".join(d)))

    def after(self):
        self.globals("at the end of the run")


class C12(ValueChecker):
    kind = "enclosing-value"
    steps_bounded = True

    def check(self, op, tag, th, st, out):
        super().check(op, tag, th, st, out)
        if out.ok and "projection" not in op["fn"]:
            self.transfer(op, out.value, "the result")

    def nested(self, op, tag, where, exp, out):
        self.evaluated += 1
        if exp[0] == "skip":
            return
        perms = self.perms(op, tag) if exp[0] == "perm" else None
        why = self.judge(op, tag, exp, out, perms)
        if why:
            self.fail("nested-value", "%s called by the %s of call %s: %s" % (
                describe(op, self.spec), where, tag, why))

    def other(self, step, tag, th):
        """Public calls as the tasks of the caller's own pool."""
        import joblib
        from . import engine
        env = self.env
        ops = [(op, self.expect(op)) for op in step["ops"]]
        ops = [(op, e) for op, e in ops if e[0] in ("val", "perm")]
        th.tag = tag
        tasks = []
        for op, _ in ops:
            kw = workload.op_kwargs(engine.DCOR, op, env, tag)
            args = env.build_args(op)
            f = workload.lookup(engine.DCOR, op["fn"])
            if "projection" in op["fn"]:
                f, args = probes.project, [f] + args
            elif op["fn"] == "rowwise":
                args = [kw.pop("function")] + args
            tasks.append(joblib.delayed(f)(*args, **kw))
            if "projection" not in op["fn"]:
                self.transfer(op, [f] + [v for v in kw.values() if isinstance(
                    v, enum.Enum)], "the function and options")
            self.sim.count("call:" + op["fn"])
        w = "a pool of %d %s workers" % (step["jobs"], step["backend"])
        try:
            with joblib.parallel_config(backend=step["backend"]):
                vals = joblib.Parallel(n_jobs=step["jobs"])(tasks)
        except Exception as e:
            self.fail("pool-error", "calls %s in %s: raised %s(%s)" % (
                [op["fn"] for op, _ in ops], w, type(e).__name__, str(e)[:200]))
        th.tag = None
        self.sim.count("calls", len(ops))
        for (op, e), v in zip(ops, vals):
            self.evaluated += 1
            out = engine.Outcome()
            out.ok, out.value, out.op = True, v, op
            self.record(op, tag, out)
            perms = self.perms(op, tag) if e[0] == "perm" else None
            why = self.judge(op, tag, e, out, perms)
            if why:
                self.fail("pool-value", "%s in %s: %s" % (
                    describe(op, self.spec), w, why))
            out.value = self.transfer(op, v, "the result")
            why = self.judge(op, tag, e, out, perms)
            if why:
                self.fail("transfer", "%s, result pickled and unpickled: %s" % (
                    describe(op, self.spec), why))

    def transfer(self, op, value, what):
        """The value after a standard pickling round trip."""
        try:
            new = pickle.loads(pickle.dumps(value))
        except Exception as e:
            self.fail("transfer", "%s: %s cannot be pickled: %s(%s)" % (
                describe(op, self.spec), what, type(e).__name__, str(e)[:200]))
        if isinstance(value, list) and any(
                a is not b for a, b in zip(value, new)):
            self.fail("transfer", "%s: %s are other objects when unpickled" % (
                describe(op, self.spec), what))
        self.sim.count("standard_pickles")
        return new


class C13(ValueChecker):
    kind = "value"
    steps_bounded = True
    LONG = 1e8

    def before(self):
        self.left = {ci for ci, steps in enumerate(self.spec["clients"])
                     if not any(op.get("hold") for op in steps)}
        self.waiting = 0

    def client_end(self, ci):
        self.left.discard(ci)

    def held(self, op, tag, where):
        """Returns when all other clients are done."""
        self.sim.count("fault:callback_stalled")
        self.evaluated += 1
        if not self.sim.block(lambda: not self.left, self.LONG):
            self.fail("held-up", "while the %s of %s was waiting, the calls of "
                      "client(s) %s did not finish: %s" % (
                          where, self.where(op, tag), sorted(self.left),
                          "; ".join("%s %s" % (t, describe(o, self.spec))
                                    for t, o in sorted(self.env.active.items())
                                    if t != tag)))


class C14(Checker):
    hang_is_violation = False

    def before(self):
        self.seen = {}            # series -> memory, descriptors, per call
        self.single = len(self.spec["clients"]) == 1
        for n in self.env.arrays:
            self.env.arrays[n] = None
        if self.single and any(op.get("series") is not None
                               for op in self.spec["clients"][0]):
            tracemalloc.start(1)

    def pre(self, op, tag, th):
        for n in self.env.names(op) + ([op["out"]] if op.get("out") else []):
            if self.env.arrays[n] is None:
                self.env.arrays[n] = Arr(self.spec["arrays"][n])

    def post(self, op, tag, th, st, out):
        self.record(op, tag, out)
        self.evaluated += 1
        env, sim = self.env, self.sim
        refs = []
        for n in sorted(set(env.names(op) + ([op["out"]] if op.get("out")
                                             else []))):
            a = env.arrays[n]
            for o in (a.base, a.view, a.obj):
                if isinstance(o, np.ndarray):
                    refs.append((weakref.ref(o), "the argument %s" % n))
            env.arrays[n] = a = o = None
        if out.ok:
            for b in workload.buffers(out.value):
                while isinstance(b, np.ndarray):
                    refs.append((weakref.ref(b), "the result"))
                    b = b.base
            b = None
        out.value = out.fault = None
        shown = out.show() if not out.ok else "returned"
        env.outcomes.pop(tag, None)
        env.fired.pop(tag, None)
        mine = [t for t in sim.live if t.name == "libthread"]
        sim.block(lambda: all(p.ended() for p in env.all_pools if p.closed),
                  1e4)
        if mine:
            sim.block(lambda: all(t.state == kernel.DONE for t in mine), 1e4)
        if self.single and mine:
            left = [t for t in mine if t.state != kernel.DONE]
            if left:
                self.fail("left-behind", "after %s (%s) a thread started by the "
                          "call is still running" % (self.where(op, tag), shown))
        if self.single and not op.get("fault"):
            if any(p.flavour == "threads" and not p.closed
                   for p in env.all_pools):
                self.fail("left-behind", "after %s (%s) the threads of its pool "
                          "are still there" % (self.where(op, tag), shown))
        # (a collection by another thread may be at work on the same objects,
        # and what it finalises may need threads)
        for _ in range(3):
            th.quiet += 1
            gc.collect()
            th.quiet -= 1
            if all(r() is None for r, _ in refs) or sim.block(
                    lambda: all(r() is None for r, _ in refs), 1e4):
                break
        for r, what in refs:
            if r() is not None:
                self.fail("kept-alive", "after %s (%s), %s is still referenced, "
                          "although the caller dropped it" % (
                              self.where(op, tag), shown, what))
        self.sim.count("objects_released", len(refs))
        sid = op.get("series")
        if self.single and sid is not None:
            snap = tracemalloc.take_snapshot().filter_traces(
                [tracemalloc.DomainFilter(True, np.lib.tracemalloc_domain)])
            mem = sum(t.size for t in snap.traces)
            fds = len(os.listdir("/proc/self/fd"))
            snap = None
            log = self.seen.setdefault(sid, [])
            log.append((mem, fds))
            # the memory of a worker process that was ended is gone, but the
            # simulator's thread for it still has it
            ended = any(p.flavour == "processes" and p.closed
                        for p in env.all_pools)
            if len(log) == op["of_series"] and not (op.get("fault") and ended):
                d = [(b[0] - a[0], b[1] - a[1])
                     for a, b in zip(log[1:], log[2:])]
                if len(d) >= 3 and all(x[0] >= 32 for x in d):
                    self.fail("memory-grows", "each of %d calls %s on new data "
                              "leaves array memory behind (%s bytes)" % (
                                  len(log), self.where(op, tag),
                                  [x[0] for x in d]))
                if len(d) >= 3 and all(x[1] > 0 for x in d):
                    self.fail("left-behind", "each of %d calls %s leaves open "
                              "files behind" % (len(log), self.where(op, tag)))
            if len(log) == op["of_series"] + 2 and not (
                    op.get("fault") and ended):
                a, b = log[-3][0], log[-1][0]
                if a - b >= 32:
                    self.fail("memory-kept", "calls like %s keep arrays of the "
                              "size of the data of the latest one (%d bytes, "
                              "%d after one with less data)" % (
                                  self.where(op, tag), a, b))


class C15(ValueChecker):
    kind = "parent-value"

    def other(self, step, tag, th):
        """The process forks while the other threads are wherever they are."""
        from . import engine
        self.sim.count("fault:fork")
        if self.env.active:
            self.sim.count("forks_during_calls")
        self.evaluated += 1

        def judge(op, tag, exp, out):
            perms = self.perms(op, tag) if exp[0] == "perm" else None
            return self.judge(op, tag, exp, out, perms)
        kind, a, b = engine.fork_child(self.sim, self.env, th, step["ops"],
                                       judge)
        busy = "; ".join("%s %s" % (t, describe(o, self.spec))
                         for t, o in sorted(self.env.active.items()))
        busy = "forked while in progress: " + busy if busy else "forked"
        if kind == "err":
            raise RuntimeError(a)
        if kind == "hang":
            self.fail("child-hang", "a child process %s never finished" % busy)
        if kind == "stop":
            self.fail("child-stuck", "%s never finished in a child process %s: %s"
                      % (describe(step["ops"][a], self.spec), busy,
                         (b or {}).get("detail", "no thread can run again")))
        self.sim.count("calls_in_children", len(a))
        for op, (why, _) in zip(step["ops"], a):
            self.sim.count("call:" + op["fn"])
            if why:
                self.fail("child-value", "%s in a child process %s: %s" % (
                    describe(op, self.spec), busy, why))
        self.history.append((tag, True, repr([x[1] for x in a])))


CHECKERS = {c.__name__: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09,
                                    C10, C11, C12, C13, C14, C15)}


# -- solo information --------------------------------------------------------

def prepare(spec):
    """Reference executions in fresh forks, before the simulation starts."""
    from .engine import solo
    prop = spec["prop"]
    data = {"twin": {}, "rw": {}, "pairs": {}, "base": {}, "entropy": {}}

    def run(op, **kw):
        res = solo(spec, op, **kw)
        if res.get("error"):
            raise RuntimeError(res["error"])
        return res

    for ci, steps in enumerate(spec["clients"]):
        for si, op in enumerate(steps):
            if op.get("do") != "call":
                continue
            tag = "%d.%d" % (ci, si)
            if prop == "C01":
                o = {k: v for k, v in op.items()
                     if k not in ("backend", "cfg_jobs", "fault")}
                o["kw"] = dict(op["kw"], n_jobs=1)
                data["twin"][tag] = run(o)
            elif prop == "C03":
                # no source given: the same entropy, other global generators
                if op["kw"].get("random_state", {}).get("kind") == "none" and \
                        not op.get("fault"):
                    data["entropy"][tag] = (
                        run(op), run(op, gseed=spec["seed"] + 12345))
            elif prop == "C05":
                names = [n for a in op["args"]
                         for n in (a if isinstance(a, list) else [a])]
                if any(spec["arrays"][n].get("ro") for n in names) and \
                        spec.get("rw_twin", True):
                    arrays = {n: (dict(s, ro=0) if n in names else s)
                              for n, s in spec["arrays"].items()}
                    o = {k: v for k, v in op.items() if k != "fault"}
                    data["rw"][tag] = run(o, arrays=arrays)
            elif prop == "C07" and op["fn"] == "rowwise":
                data["pairs"][tag] = pair_reference(spec, op)
            elif prop == "C08":
                o = {k: v for k, v in op.items() if k != "fault"}
                data["base"][tag] = run(o)
    return data


def flat(x):
    """A constant variable whose distances are computed without rounding."""
    x = np.asarray(x, float)
    return bool(np.all(x == x.flat[0]) and x.flat[0] == np.round(x.flat[0])
                and abs(x.flat[0]) < 1000)


def pair_reference(spec, op):
    """The dependency function applied to each pair alone (fresh process)."""
    from . import engine
    from .engine import in_fork

    def body():
        env = engine.build(dict(spec, sources={}, projs={}))
        engine.install_warning_hook(env)
        f = workload.lookup(engine.DCOR, op["kw"]["function"])
        args = env.build_args(op)
        kw = {}
        if op["kw"].get("exponent") is not None:
            kw["exponent"] = op["kw"]["exponent"]
        if op["kw"].get("method"):
            kw["method"] = engine.DCOR.DistanceCovarianceMethod[
                op["kw"]["method"].upper()]
        if op.get("accept") == "refuse":
            kw["compile_mode"] = engine.DCOR.CompileMode[
                op["kw"]["compile_mode"]]
            seen = set()
            for x, y in zip(*args):
                try:
                    f(np.asarray(x), np.asarray(y), **kw)
                    seen.add(None)
                except Exception as e:
                    seen.add(type(e).__name__)
            return {"mode": "refuse", "refusal": seen.pop() if len(seen) == 1
                    else None}
        vals, tols = [], []
        names = env.names(op)
        eps = workload.eps_of([spec["arrays"][n] for n in names])
        for x, y in zip(*args):
            x, y = np.asarray(x), np.asarray(y)
            try:
                v = float(f(x, y, **kw))
            except Exception:
                vals.append(None)
                tols.append(None)
                continue
            e = workload.row_expected(op["kw"], np.asarray(x, float),
                                      np.asarray(y, float), eps)
            vals.append(v)
            tols.append(None if e.skip else 2 * e.tol)
            if e.skip and "correlation" in op["kw"]["function"] and v == 0 and (
                    flat(x) or flat(y)):
                tols[-1] = 1e-12
        return {"values": vals, "tols": tols, "mode": op.get("accept", "must")}
    return in_fork(body)
