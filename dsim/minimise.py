"""Shrinks a failing specification while the same kind of violation persists."""
from __future__ import annotations

import copy
import json

from . import seams

DEFAULTS = {"opcodes": False, "stall": 0, "batch": 1, "gu_threads": 1,
            "gu_stride": 1, "gu_even": True, "ro_tasks": False, "reuse": 0,
            "observe_every": 1, "cpus": 4, "clock": 0}


def now():
    return seams._real_monotonic()


class Minimiser:
    def __init__(self, run, spec, report, budget):
        self.run = run                   # spec -> report
        self.kind = report["violation"]["kind"]
        self.end = now() + budget
        self.tries = 0
        self.spec = spec
        self.report = report
        self.orig_sched = spec.get("sched", {"policy": "none"})

    def fails(self, spec):
        if now() > self.end:
            return None
        self.tries += 1
        try:
            r = self.run(spec)
        except RuntimeError:
            return None
        v = r.get("violation")
        if v and v["kind"] == self.kind:
            return r
        return None

    def accept(self, spec, r):
        spec = r["spec"]
        spec["sched"] = {"policy": "replay", "switches": r["switches"]}
        self.spec, self.report = spec, r

    def attempt(self, spec, schedules=True):
        """Try a candidate under the recorded and some other schedules."""
        r = self.fails(spec)
        if r is None and schedules:
            scheds = [{"policy": "none"}]
            if self.orig_sched.get("policy") not in ("none", "replay"):
                scheds.append(self.orig_sched)
                for i in range(2):
                    scheds.append(dict(self.orig_sched, seed=77 + i))
            for sc in scheds:
                r = self.fails(dict(spec, sched=sc))
                if r:
                    break
        if r is None:
            return False
        self.accept(spec, r)
        return True

    def go(self):
        s = copy.deepcopy(self.report["spec"])
        s["sched"] = {"policy": "replay", "switches": self.report["switches"]}
        r = self.fails(s)
        if r is None:
            return self.spec, self.report
        self.accept(s, r)
        self.fewer_steps()
        self.knobs()
        self.faults()
        self.sizes()
        self.plain_arrays()
        self.fewer_steps()
        self.switches()
        self.drop_unused()
        return self.spec, self.report

    def fewer_steps(self):
        again = True
        while again and now() < self.end:
            again = False
            cl = self.spec["clients"]
            for ci in reversed(range(len(cl))):
                if len(cl) > 1:
                    s = copy.deepcopy(self.spec)
                    s["clients"][ci] = []
                    if cl[ci] and self.attempt(s):
                        again = True
                        break
                done = False
                for si in reversed(range(len(cl[ci]))):
                    s = copy.deepcopy(self.spec)
                    del s["clients"][ci][si]
                    self.retag(s, ci, si)
                    if self.attempt(s):
                        again = done = True
                        break
                if done:
                    break

    @staticmethod
    def retag(spec, ci, si):
        """References to later steps of the client move up by one."""
        for op in spec["clients"][ci]:
            of = op.get("of")
            if of:
                c, i = map(int, of.split("."))
                if c == ci and i > si:
                    op["of"] = "%d.%d" % (c, i - 1)

    def knobs(self):
        for k, d in DEFAULTS.items():
            if self.spec["knobs"].get(k, d) != d:
                s = copy.deepcopy(self.spec)
                s["knobs"][k] = d
                self.attempt(s)
        if self.spec.get("init"):
            s = copy.deepcopy(self.spec)
            s.pop("init")
            self.attempt(s)

    def faults(self):
        for ci, steps in enumerate(self.spec["clients"]):
            for si in range(len(steps)):
                op = self.spec["clients"][ci][si]
                if op.get("fault"):
                    s = copy.deepcopy(self.spec)
                    del s["clients"][ci][si]["fault"]
                    self.attempt(s)
                r = op.get("kw", {}).get("num_resamples")
                if r:
                    for new in (1, 2, 3, r // 2, r - 1):
                        cur = self.spec["clients"][ci][si]["kw"]["num_resamples"]
                        if 0 < new < cur:
                            s = copy.deepcopy(self.spec)
                            s["clients"][ci][si]["kw"]["num_resamples"] = new
                            if self.attempt(s):
                                break

    def sizes(self):
        dims = sorted({d for a in self.spec["arrays"].values()
                       for d in a["shape"] if d > 4}, reverse=True)
        for d in dims:
            for new in (4, 5, 6, 8, d // 2):
                if new >= d:
                    continue
                s = copy.deepcopy(self.spec)
                for a in s["arrays"].values():
                    a["shape"] = [new if x == d else x for x in a["shape"]]
                if self.attempt(s, schedules=len(self.spec["clients"]) > 1):
                    break

    def plain_arrays(self):
        for what in ({"layout": "C"}, {"ro": 0}, {"dtype": "f8"}):
            s = copy.deepcopy(self.spec)
            changed = False
            for a in s["arrays"].values():
                for k, v in what.items():
                    if a.get(k, v) != v:
                        a[k] = v
                        changed = True
            if changed:
                self.attempt(s)

    def switches(self):
        sw = list(self.spec["sched"].get("switches", []))
        size = max(1, len(sw) // 2)
        while sw and now() < self.end:
            i, hit = 0, False
            while i < len(sw):
                cand = sw[:i] + sw[i + size:]
                s = copy.deepcopy(self.spec)
                s["sched"] = {"policy": "replay", "switches": cand}
                r = self.fails(s)
                if r is not None:
                    self.accept(s, r)
                    sw = list(self.spec["sched"]["switches"])
                    hit = True
                else:
                    i += size
                if now() > self.end:
                    return
            if size == 1 and not hit:
                break
            size = max(1, size // 2)

    def drop_unused(self):
        s = copy.deepcopy(self.spec)
        text = json.dumps(s["clients"]) + json.dumps(s.get("projs", {}))
        s["arrays"] = {k: v for k, v in s["arrays"].items()
                       if '"%s"' % k in text}
        s["sources"] = {k: v for k, v in s.get("sources", {}).items()
                        if '"%s"' % k in text}
        r = self.fails(s)
        if r:
            self.accept(s, r)
