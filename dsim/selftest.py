"""Self-tests of the simulator itself.

selftest determinism: every seed is executed twice or more (different lanes,
different processes, another PYTHONHASHSEED); steps, schedules, statistics and
results must be identical.
"""
from __future__ import annotations

import hashlib
import json
import os
import subprocess
import sys

from . import runner

PROPS = sorted(runner.RUNS)


def digest(engine, prop, seed, n, lanes):
    out = {}

    def on_result(m):
        if m.get("fatal") or m.get("error") or m.get("timeout"):
            out[m["i"]] = "bad %s" % (m.get("fatal") or m.get("error")
                                      or "timeout")
            return False
        out[m["i"]] = hashlib.blake2b(json.dumps([
            m["steps"], round(m["time"], 9), m["hash"], sorted(
                (k, v) for k, v in m["stats"].items() if k != "task_bytes"),
            m["history"], m["nsw"], m["threads"],
            (m.get("violation") or {}).get("detail")],
            sort_keys=True).encode(), digest_size=8).hexdigest()
        return False
    runner.batch(engine, prop, seed, n, lanes, 3600.0, on_result)
    return out


def main(engine, args, seed, runs, lanes):
    if args and args[0] == "digest":
        res = {p: digest(engine, p, seed, runs, lanes) for p in PROPS}
        print(json.dumps(res))
        return 0
    base = {p: digest(engine, p, seed, runs, lanes) for p in PROPS}
    bad = 0
    for lanes2, hs in ((lanes, "0"), (3, "0"), (5, "12345"), (2, "777")):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        env.pop("DSIM_CHILD")
        env["DSIM_HASHSEED"] = hs
        p = subprocess.run(
            [sys.executable, "-m", "dsim.cli", "selftest", "digest", "--runs",
             str(runs), "--seed", str(seed), "--lanes", str(lanes2)],
            cwd=runner.VERIF, env=env, capture_output=True, text=True)
        other = json.loads(p.stdout.strip().splitlines()[-1])
        for prop in PROPS:
            for i, d in base[prop].items():
                if other[prop].get(str(i)) != d or d.startswith("bad"):
                    bad += 1
                    print("differs: %s run %s (lanes %d, hash seed %s): %s %s" % (
                        prop, i, lanes2, hs, d, other[prop].get(str(i))))
        print("lanes %d hash seed %s: compared %d runs" % (
            lanes2, hs, sum(len(v) for v in base.values())))
    print("determinism self-test: %s" % ("ok" if not bad else "%d differ" % bad))
    return 1 if bad else 0
