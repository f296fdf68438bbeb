"""Runs a batch of seeds over several processes and reports."""
from __future__ import annotations

import hashlib
import json
import os
import pickle
import re
import select
import signal
import struct
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")

RUNS = {  # property -> (quick, thorough)
    "C01": (4500, 140000), "C02": (5000, 160000), "C03": (2800, 100000),
    "C04": (8000, 300000), "C05": (5000, 180000), "C06": (4500, 180000),
    "C07": (3000, 110000), "C08": (2500, 100000), "C09": (6000, 250000),
    "C10": (6000, 220000), "C11": (5200, 200000), "C12": (4200, 180000),
    "C13": (4200, 180000), "C14": (3200, 130000), "C15": (4000, 160000),
}
RUN_LIMIT = 120.0        # wall seconds for a single run
WALL = {"quick": 420.0, "thorough": 3 * 3600.0}


def now():
    from . import seams
    return seams._real_monotonic()


def run_forked(engine, spec, limit=RUN_LIMIT):
    r = engine.in_fork(lambda: engine.execute(spec), limit)
    if r.get("timeout"):
        return {"timeout": True, "violation": None, "error": None, "spec": spec}
    if r.get("crash"):
        return {"crash": True, "violation": None, "spec": spec,
                "error": "the simulating process died"}
    return r


def starved(engine, spec, r):
    """The run reached its step cap: is that a call that never returns, or only
    a long computation?  Compare with the same calls without faults and
    without preemption."""
    s = json.loads(json.dumps(spec))
    s["sched"] = {"policy": "none"}
    for client in s["clients"]:
        for op in client:
            op.pop("fault", None)
    a = run_forked(engine, s)
    return bool(not a.get("timeout") and not a.get("error")
                and not a.get("violation")
                and a["steps"] * 6 < r["violation"]["step"])


def run_seed(seed, i):
    return seed * 10_000_000 + i


def lane(engine, prop, seed, start, step, stop, w):
    """Child process: executes its share of the runs."""
    from . import gens

    def send(msg):
        data = pickle.dumps(msg)
        view = memoryview(struct.pack("<Q", len(data)) + data)
        while view:
            view = view[os.write(w, view):]

    for i in range(start, stop, step):
        s = run_seed(seed, i)
        try:
            spec = gens.generate(prop, s)
            r = run_forked(engine, spec)
            if r.get("timeout"):
                r = run_forked(engine, spec, 2 * RUN_LIMIT)
            late = bool(r.get("violation")
                        and r["violation"]["kind"] == "no-progress"
                        and starved(engine, spec, r))
        except BaseException as e:
            import traceback
            send({"i": i, "seed": s, "fatal": traceback.format_exc()[-4000:]})
            continue
        msg = {"i": i, "seed": s}
        if r.get("timeout"):
            msg.update(timeout=True, spec=spec)
        else:
            for k in ("violation", "error", "steps", "time", "hash", "stats",
                      "history", "nontrivial", "threads", "pairs"):
                msg[k] = r.get(k)
            msg["starved"] = late
            msg["nsw"] = len(r.get("switches") or ())
            if r.get("violation") or i < 3:
                msg["spec"] = r["spec"]
                msg["switches"] = r.get("switches")
        send(msg)
    send(None)


def batch(engine, prop, seed, n, lanes, wall, on_result):
    """Run seeds 0..n-1 over several lanes; on_result(msg) may return True to
    stop.  Returns (complete, wall seconds)."""
    t0 = now()
    kids = {}
    for k in range(lanes):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.setpgid(0, 0)
                os.close(r)
                lane(engine, prop, seed, k, lanes, n, w)
            finally:
                os._exit(0)
        os.close(w)
        kids[r] = [pid, b""]
    complete = True
    stopping = False
    died = None
    while kids and not stopping:
        left = wall - (now() - t0)
        if left <= 0:
            complete = False
            break
        ready, _, _ = select.select(list(kids), [], [], min(left, 5.0))
        for fd in ready:
            pid, buf = kids[fd]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                os.waitpid(pid, 0)
                del kids[fd]
                if buf is not None:
                    died = "a lane process died"
                continue
            if buf is None:
                continue
            buf += chunk
            while buf is not None and len(buf) >= 8:
                (ln,) = struct.unpack("<Q", buf[:8])
                if len(buf) < 8 + ln:
                    break
                msg = pickle.loads(buf[8:8 + ln])
                buf = buf[8 + ln:]
                if msg is None:
                    buf = None
                elif on_result(msg):
                    stopping = True
            kids[fd][1] = buf
    for fd, (pid, _) in kids.items():
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        os.close(fd)
    if died and not stopping:
        raise RuntimeError(died)
    return complete and not stopping, now() - t0


# -- known findings ----------------------------------------------------------

def known_findings(prop):
    """finding: property=<id> kind=<kind> match=<regex> :: <what fails>"""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) "
                             r":: (.*)", line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return out


def is_known(v, known):
    for kind, rx, what in known:
        if v["kind"] == kind and rx.search(v["detail"]):
            return what
    return None


# -- a check -----------------------------------------------------------------

def check(engine, prop, tier, seed, n=None, lanes=None, wall=None,
          minimise_s=75.0, quiet=False):
    from . import checks, gens
    t0 = now()
    n = n or RUNS[prop][0 if tier == "quick" else 1]
    lanes = lanes or min(8, os.cpu_count() or 8)
    wall = wall or WALL[tier]
    known = known_findings(prop)
    agg = Aggregate(prop)
    found = []
    fatal = []
    known_hit = {}
    hang_bad = checks.CHECKERS[prop].hang_is_violation
    steps_bad = checks.CHECKERS[prop].steps_bounded

    def on_result(m):
        if m.get("fatal"):
            fatal.append(m["fatal"])
            return len(fatal) > 3
        if m.get("timeout"):
            if hang_bad:
                m["violation"] = {"kind": "hang", "detail": "the run made no "
                                  "progress for %d s of real time" % RUN_LIMIT}
                found.append(m)
                return True
            agg.inconclusive += 1
            return False
        if m.get("error"):
            fatal.append("seed %d: %s" % (m["seed"], m["error"]))
            return len(fatal) > 3
        agg.add(m)
        v = m.get("violation")
        if v:
            if (v["kind"] == "deadlock" and not hang_bad) or (
                    v["kind"] == "no-progress" and not steps_bad
                    and not (hang_bad and m.get("starved"))):
                agg.inconclusive += 1
                return False
            what = is_known(v, known)
            if what:
                known_hit[what] = known_hit.get(what, 0) + 1
                return False
            found.append(m)
            return True
        return False

    complete, _ = batch(engine, prop, seed, n, lanes, wall, on_result)
    wall_s = now() - t0
    for _, _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rc = 0
    if found:
        m = min(found, key=lambda x: x["i"])
        path = report_violation(engine, prop, m, minimise_s)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif fatal:
        print("ERROR of the harness:\n" + "\n".join(fatal)[:6000])
        rc = 2
    agg.write(tier, seed, now() - t0, wall_s, complete, n, lanes, rc,
              known_hit)
    if not quiet:
        print("%s %s: %d runs, %d distinct non-trivial, %d steps, %.0f s of "
              "simulated time, %.1f s%s" % (
                  prop, tier, agg.runs, len(agg.distinct), agg.steps, agg.time,
                  now() - t0, "" if complete or found else " (wall limit)"))
    return rc


def report_violation(engine, prop, m, budget):
    os.makedirs(OUT, exist_ok=True)
    from . import minimise
    spec = m["spec"]
    path = os.path.join(OUT, "%s-%d.json" % (prop, m["seed"]))
    v = m["violation"]
    first = dict(spec)
    if m.get("switches") is not None:
        first["sched"] = {"policy": "replay", "switches": m["switches"]}
    best = {"property": prop, "seed": m["seed"], "violation": v,
            "spec": first, "minimised": False}
    if v["kind"] != "hang":
        def run(s):
            return run_forked(engine, s, 30.0)
        rep = {"violation": v, "spec": spec, "switches": m.get("switches") or []}
        mm = minimise.Minimiser(run, spec, rep, budget)
        try:
            s2, r2 = mm.go()
            if r2 is not rep:
                best = {"property": prop, "seed": m["seed"],
                        "violation": r2["violation"], "spec": s2,
                        "minimised": True, "tries": mm.tries,
                        "trace_hash": r2["hash"],
                        "original": {"violation": v,
                                     "switches": len(m.get("switches") or ()),
                                     "steps": m.get("steps")}}
        except Exception as e:   # keep the unminimised replay
            best["minimise_error"] = repr(e)
    with open(path, "w") as f:
        json.dump(best, f, indent=1)
    print("%s: %s" % (best["violation"]["kind"], best["violation"]["detail"]))
    if v["kind"] != "hang":
        ok = confirm(path)
        print("replayed in a fresh process: %s" % (
            "reproduced" if ok else "NOT reproduced"))
        if not ok and best["minimised"]:
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": m["seed"], "violation": v,
                           "spec": first, "minimised": False}, f, indent=1)
            print("unminimised replay: %s" % (
                "reproduced" if confirm(path) else "NOT reproduced"))
    return path


def confirm(path):
    p = subprocess.run([sys.executable, "-m", "dsim.cli", "replay", path],
                       cwd=VERIF, capture_output=True, text=True, timeout=300)
    return p.returncode == 1 and "VIOLATION" in p.stdout


def replay(engine, path):
    with open(path) as f:
        rec = json.load(f)
    spec = rec["spec"]
    r = run_forked(engine, spec, RUN_LIMIT)
    want = rec["violation"]
    if r.get("timeout") and want["kind"] == "hang":
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    if r.get("error"):
        print("ERROR: " + r["error"])
        return 2
    v = r.get("violation")
    if not v:
        print("no violation")
        return 0
    print("%s at step %s: %s" % (v["kind"], v.get("step"), v["detail"]))
    if v["kind"] != want["kind"] or v["detail"] != want["detail"] or (
            rec.get("trace_hash") is not None and rec["trace_hash"] != r["hash"]):
        print("(differs from the recorded violation: %s)" % want["detail"])
    print("switches: %s" % json.dumps(r["switches"][:40]))
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


# -- evidence ----------------------------------------------------------------

REAL = ["dcor (all modules, from /repo's working tree)", "numpy", "scipy",
        "array_api_compat / array_api_strict",
        "joblib.Parallel (dispatch, batching, retrieval, abort, configuration)",
        "cloudpickle serialisation of tasks and results"]
STUB = ["joblib backends (loky, threading): simulated worker "
        "pools; worker processes have their own dcor module state",
        "numba: kernels run as the Python source with numba's signature rules; "
        "parallel row kernels on simulated threads",
        "thread scheduling, locks, clocks, sleeps, OS entropy: simulator"]


class Aggregate:
    def __init__(self, prop):
        self.prop = prop
        self.runs = self.steps = 0
        self.time = 0.0
        self.stats = {}
        self.hashes = set()
        self.distinct = set()
        self.pairs = set()
        self.threads = 0
        self.switches = 0
        self.samples = []
        self.inconclusive = 0
        self.nontrivial = 0
        self.max_steps = 0
        self.calls = 0

    def add(self, m):
        self.runs += 1
        self.steps += m["steps"]
        self.max_steps = max(self.max_steps, m["steps"])
        self.time += m["time"]
        self.switches += m["nsw"]
        self.threads = max(self.threads, m["threads"])
        for k, v in m["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        if m["nontrivial"]:
            self.nontrivial += 1
            self.distinct.add((m["hash"], m["history"]))
        self.hashes.add(m["hash"])
        self.pairs.update(map(tuple, m["pairs"]))
        if m.get("spec") and len(self.samples) < 2 and not m.get("violation"):
            s = m["spec"]
            self.samples.append({
                "seed": m["seed"], "sched": s["sched"],
                "clients": s["clients"],
                "arrays": {k: v for k, v in list(s["arrays"].items())[:4]},
                "steps": m["steps"], "context_switches": m["nsw"]})

    def write(self, tier, seed, wall, run_wall, complete, planned, lanes, rc,
              known_hit):
        faults = {k[6:]: v for k, v in sorted(self.stats.items())
                  if k.startswith("fault:")}
        calls = {k[5:]: v for k, v in sorted(self.stats.items())
                 if k.startswith("call:")}
        cov = {
            "evaluations": self.runs,
            "distinct_nontrivial": len(self.distinct),
            "rule": "One evaluation is one simulated run (workload, schedule and "
                    "faults drawn from the run seed). It is non-trivial if the "
                    "property was evaluated on at least one call; two runs are "
                    "distinct if their sequence of context switches (threads and "
                    "code sites) or their results differ.",
            "samples": self.samples,
            "runs_planned": planned, "complete": complete,
            "runs_per_hour": round(self.runs / max(run_wall, 1e-9) * 3600),
            "seeds_per_hour": round(self.runs / max(run_wall, 1e-9) * 3600),
            "lanes": lanes,
            "simulated_seconds": round(self.time, 3),
            "steps": self.steps, "longest_run_steps": self.max_steps,
            "scheduling_decisions_taken": self.switches,
            "distinct_interleavings": len(self.hashes),
            "distinct_switch_site_pairs": len(self.pairs),
            "most_threads_in_a_run": self.threads,
            "faults_injected": faults,
            "calls": calls,
            "calls_total": self.stats.get("calls", 0),
            "calls_failed": self.stats.get("calls_failed", 0),
            "other_events": {k: v for k, v in sorted(self.stats.items())
                             if not k.startswith(("fault:", "call:"))
                             and k not in ("calls", "calls_failed")},
            "inconclusive_runs": self.inconclusive,
            "known_findings_hit": known_hit,
            "components_real": REAL, "components_stub": STUB,
        }
        ev = {"property": self.prop, "tier": tier, "seed": seed,
              "level": "exploration", "coverage": cov,
              "assumptions": [
                  "compiled kernels behave as their Python source (numba seam)",
                  "joblib's worker pools behave as the simulated ones",
                  "preemption happens at lines (or bytecodes) of dcor, at locks, "
                  "callbacks and draws; NumPy calls are atomic"],
              "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
