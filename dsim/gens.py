"""Generators: property + seed -> specification of one simulated run."""
from __future__ import annotations

import random

from . import settings, workload
from .kernel import random_sched
from .workload import (AF, ALL, ENERGY, MATRIX, PAIR, PARTIAL, ROWFN, TESTS,
                       TTEST, Gen)

ERRS = ["custom", "type", "attr", "value", "memory", "zero", "notimpl"] * 2 + [
    "index", "key", "runtime", "os", "timeout", "assert", "float", "eof",
    "import", "linalg", "recursion", "warning", "overflow", "buffer", "name"]
ABRUPT = ["interrupt", "interrupt", "exit"]


def knobs(rng):
    k = {
        "cpus": rng.choice([2, 3, 4, 6, 8]),
        "batch": rng.choice([1, 1, 2, 3, 7, 50, "vary", "vary"]),
        "stall": rng.choice([0, 0, 0.05, 0.2, 0.6]),
        "ro_tasks": rng.random() < 0.4,
        "reuse": 1 if rng.random() < 0.7 else 0,
        "gu_threads": rng.choice([1, 2, 2, 3, 4, 5]),
        "gu_even": rng.random() < 0.5,
        "gu_stride": rng.choice([1, 1, 3, 11]),
        "opcodes": rng.random() < 0.12,
        "clock": rng.choice([0, 0, 50, 1000]),
    }
    return k


def base(prop, seed, rng, g, clients):
    return {"prop": prop, "seed": seed, "arrays": g.arrays, "sources": {},
            "projs": {}, "knobs": dict(knobs(rng), share_cb=prop != "C12" and
                                       rng.random() < 0.5),
            "sched": random_sched(rng), "clients": clients}


def parallelize(rng, op, p=1.0):
    """Run a permutation test with several jobs."""
    if rng.random() > p:
        if rng.random() < 0.3:
            op["kw"]["n_jobs"] = rng.choice([1, 1, None])
        return op
    how = rng.choices(["n", "neg", "cfg"], [70, 15, 15])[0]
    op["backend"] = rng.choice([None, "loky", "threading", "threading"])
    if how == "n":
        op["kw"]["n_jobs"] = rng.choice([2, 2, 3, 4, 5, 7])
    elif how == "neg":
        op["kw"]["n_jobs"] = rng.choice([-1, -2])
    else:
        op["kw"]["n_jobs"] = None
        op["cfg_jobs"] = rng.choice([2, 3, 4])
        if op["backend"] is None:
            op["backend"] = "threading" if rng.random() < 0.5 else "loky"
    return op


def resamples(rng, deep=False):
    return rng.choices(
        [0, 1, rng.randint(2, 5), rng.randint(6, 14), rng.randint(15, 45),
         rng.randint(46, 130), rng.randint(256, 700)],
        [3, 6, 26, 33, 26, 6, 0.7])[0]


def add_source(rng, spec, op, kinds=("int", "rs", "gen", "array", "npint"),
               weights=(55, 20, 15, 5, 5), script=False):
    k = rng.choices(kinds, weights)[0]
    seed = rng.randrange(1 << 31)
    if rng.random() < 0.45:
        seed = rng.choice([0, 0, 1, 42])
    if k == "int" or k == "npint":
        op["kw"]["random_state"] = {"kind": k, "seed": seed}
    elif k == "array":
        op["kw"]["random_state"] = {
            "kind": k, "seed": [rng.randrange(1 << 31) if seed > 42 else seed + i
                                for i in range(rng.randint(1, 4))]}
    elif k == "none":
        op["kw"]["random_state"] = {"kind": "none"}
    else:
        name = "glob" if k == "global" else "s%d" % len(spec["sources"])
        s = {"kind": k, "seed": seed}
        if script and rng.random() < 0.6:
            r = op["kw"].get("num_resamples", 0)
            s["script"] = [rng.choice([None, None, "id", "rev", "rot", "swap"])
                           for _ in range(r)]
        spec["sources"][name] = s
        op["kw"]["random_state"] = {"kind": k, "name": name}
    return op


# --------------------------------------------------------------------------

def gen_C01(seed, rng):
    g = Gen(rng, strict=0.05)
    nclients = rng.choices([1, 2], [85, 15])[0]
    clients = []
    for _ in range(nclients):
        steps = []
        for _ in range(rng.choices([1, 2], [75, 25])[0]):
            op = g._test(rng.choice(TESTS), None, resamples(rng))
            parallelize(rng, op)
            steps.append(op)
        clients.append(steps)
    spec = base("C01", seed, rng, g, clients)
    spec["knobs"]["opcodes"] = rng.random() < 0.05
    for steps in clients:
        for op in steps:
            add_source(rng, spec, op)
    return spec


def gen_C02(seed, rng):
    g = Gen(rng, strict=0.06, nans=True)
    clients = []
    for _ in range(rng.choices([1, 2], [85, 15])[0]):
        steps = []
        for _ in range(rng.choices([1, 2, 3], [50, 30, 20])[0]):
            r = resamples(rng)
            n = None
            if rng.random() < 0.02:
                r, n = rng.randint(1000, 1300), 4
            op = g._test(rng.choice(TESTS), n, r)
            parallelize(rng, op, 0.25)
            steps.append(op)
        clients.append(steps)
    spec = base("C02", seed, rng, g, clients)
    for steps in clients:
        for op in steps:
            add_source(rng, spec, op, weights=(30, 35, 25, 5, 5), script=True)
    return spec


def test_fault(rng, op, excs=("memory", "memory", "interrupt", "runtime", "os",
                              "alarm")):
    """A fault placed inside a permutation test."""
    r = op["kw"].get("num_resamples", 0)
    par = op["kw"].get("n_jobs") not in (1,) and (
        op.get("backend") or op["kw"].get("n_jobs"))
    kinds = ["stmt", "stmt"]
    if op["kw"].get("average") and not op["kw"]["average"].startswith("np."):
        kinds += ["callback"] * 4
    if op["kw"].get("random_state", {}).get("kind") in ("rs", "gen") and r:
        kinds += ["rng"] * 3
    if par and "n_jobs" in op["kw"]:
        kinds += ["intr_sleep"]
    k = rng.choice(kinds)
    if k == "stmt":
        who = rng.choice(["any", "any", "client", "worker"])
        exc = rng.choice(excs)
        if exc in ("interrupt", "exit", "alarm"):
            who = "client"
        return {"kind": "stmt", "exc": exc, "who": who,
                "mode": rng.choice(["site", "dyn"])}
    if k == "callback":
        per = 3
        errs = ERRS if par else ERRS + ABRUPT
        return {"kind": "callback", "exc": rng.choice(errs),
                "at": rng.randrange(max(1, per * (r + 1)))}
    if k == "rng":
        return {"kind": "rng", "exc": rng.choice(ERRS + ["source"]),
                "at": rng.randrange(r)}
    return {"kind": "intr_sleep", "at": rng.randrange(3)}


FAULTS = ["memory"] * 3 + ["interrupt"] * 2 + [
    "runtime", "float", "os", "exit", "alarm", "recursion"]


def any_fault(rng, op, kinds=FAULTS):
    if op["fn"] in TESTS:
        return test_fault(rng, op, kinds)
    if op["fn"] == "rowwise" and op["kw"].get("rowwise_mode") != "OPTIMIZED" \
            and op["kw"].get("compile_mode") != "COMPILE_PARALLEL" \
            and rng.random() < 0.6:
        op["rowfn"] = True
        return {"kind": "callback", "exc": rng.choice(ERRS + ABRUPT),
                "at": rng.randrange(5)}
    if op["kw"].get("average") and not op["kw"]["average"].startswith("np.") \
            and rng.random() < 0.4:
        return {"kind": "callback", "exc": rng.choice(ERRS + ABRUPT),
                "at": rng.randrange(3)}
    exc = rng.choice(kinds)
    return {"kind": "stmt", "exc": exc, "who": "client",
            "mode": rng.choice(["site", "site", "dyn"])}


def gen_C03(seed, rng):
    g = Gen(rng, strict=0.03, nans=True)
    nclients = rng.choices([1, 2, 3], [45, 35, 20])[0]
    share = nclients > 1 and rng.random() < 0.6
    n = rng.choice([4, 6, 8]) if share and rng.random() < 0.8 else None
    one_fn = rng.choice(TESTS[:2]) if share and n else None
    clients = []
    for _ in range(nclients):
        steps = []
        for _ in range(rng.choices([1, 2, 3], [45, 35, 20])[0]):
            if not share and rng.random() < 0.05:
                op = bad_call(g, rng)
                if op["fn"] not in TESTS:
                    op = g._test(rng.choice(TESTS), None, 3)
                    op["kw"]["random_state"] = {"kind": "bad"}
                    op["bad"] = "source"
                steps.append(op)
                continue
            op = g._test(one_fn or rng.choice(TESTS), max(n, 5) if n else None,
                         min(resamples(rng), 40))
            parallelize(rng, op, 0.35)
            steps.append(op)
        clients.append(steps)
    spec = base("C03", seed, rng, g, clients)
    spec["knobs"]["opcodes"] = rng.random() < 0.06
    kinds = ("int", "rs", "gen", "plain_rs", "plain_gen", "mt_gen", "bitgen",
             "global", "none", "array")
    weights = (22, 14, 10, 14, 10, 4, 4, 3, 14, 5)
    if share:
        spec["sources"]["s0"] = {"kind": rng.choice(["rs", "rs", "gen"]),
                                 "seed": rng.randrange(1 << 31)}
    for steps in clients:
        if rng.random() < 0.4 and not share:
            # one source used by successive tests of this client
            first = None
            for op in steps:
                if op.get("bad"):
                    continue
                if first is None:
                    add_source(rng, spec, op, kinds[1:7], weights[1:7])
                    first = op["kw"]["random_state"]
                else:
                    op["kw"]["random_state"] = dict(first)
            continue
        for op in steps:
            if op.get("bad"):
                continue
            if share and rng.random() < 0.8:
                op["kw"]["random_state"] = {
                    "kind": spec["sources"]["s0"]["kind"], "name": "s0"}
            else:
                add_source(rng, spec, op, kinds if nclients == 1 else
                           kinds[:7] + kinds[8:], weights if nclients == 1 else
                           weights[:7] + weights[8:])
    if rng.random() < 0.35:
        for steps in clients:
            for op in steps:
                if rng.random() < 0.6:
                    op["fault"] = test_fault(rng, op)
    return spec


def call_any(g, rng, n=None, family=None):
    op = g.call(n=n, family=family)
    if op["fn"] in TESTS:
        op["kw"]["num_resamples"] = min(op["kw"]["num_resamples"], 20)
        parallelize(rng, op, 0.25)
    return op


SQUARE = ("sym", "symint", "usym", "zero")
SAME_N = PAIR + AF + PARTIAL + TTEST + MATRIX + TESTS[:2]


def lowest(g, op):
    if op["fn"] in AF:
        return workload.af_low(max(g.arrays[a]["shape"][1] for a in op["args"]))
    return 6 if op["fn"] in PARTIAL else 5


def sibling(g, rng, op, resize=False):
    """The same call on other data (same function and options; same shapes,
    or another number of observations)."""
    new = {k: (dict(v) if isinstance(v, dict) else v) for k, v in op.items()}

    names = {}
    n, delta = None, 0
    fixed = resize if type(resize) is int else 0
    if resize and op["fn"] in SAME_N and not op.get("proj"):
        n = g.arrays[op["args"][0]]["shape"][0]
        delta = fixed or rng.choice([-3, -1, 1, 2, 5, n])
        low = lowest(g, op)
        delta = max(delta, low - n)

    free = (resize == "less" or fixed) and op["fn"] in ENERGY + [
        "energy_test", "pairwise_distances"]
    if resize == "less" and n:
        low = lowest(g, op)
        delta = min(0, max(low, n // 2) - n)

    def other(name):
        if name not in names:
            s = dict(g.arrays[name])
            s["seed"] = rng.randrange(1 << 30)
            if free and fixed:
                s["shape"] = [s["shape"][0] + fixed] + s["shape"][1:]
            elif free:
                s["shape"] = [max(min(2, s["shape"][0]), s["shape"][0] // 2)] \
                    + s["shape"][1:]
            if delta and s["shape"][0] == n:
                s["shape"] = [n + delta] + s["shape"][1:]
                if op["fn"] in MATRIX:
                    s["shape"] = [n + delta] * 2
            names[name] = g.add(s)
        return names[name]
    new["args"] = [[other(n) for n in a] if isinstance(a, list) else other(a)
                   for a in op["args"]]
    if op.get("out"):
        new["out"] = other(op["out"])
    return new


FLAT = ("normal", "dyadic", "ties", "ramp", "big", "tiny", "const")


def recast(g, rng, op):
    """The same call on data easily confused with its own: the same elements
    in another shape, the beginning of the same data, the arguments in another
    order.  None if that makes no valid call."""
    if op["fn"] in MATRIX + ["rowwise"] or op.get("proj") or op.get("out") or \
            any(isinstance(a, list) for a in op["args"]) or op.get("bad"):
        return None
    new = {k: (dict(v) if isinstance(v, dict) else v) for k, v in op.items()}
    specs = [g.arrays[a] for a in op["args"]]
    how = rng.choice(["order", "shape", "shape", "head"])
    if op["fn"] == "pairwise_distances" and rng.random() < 0.4:
        how = "order"
    if how == "order":
        if op["fn"] in AF + PARTIAL + ["partial_distance_covariance_test"] and \
                len({len(s["shape"]) for s in specs}) > 1:
            return None
        new["args"] = op["args"][1:] + op["args"][:1]
        return new if new["args"] != op["args"] else None
    if any(s["kind"] not in FLAT or s["dtype"] in ("frac", "dec")
           for s in specs):
        return None
    if how == "head":
        if op["fn"] in AF:
            return None
        cut = rng.randint(1, 3)
        if min(s["shape"][0] for s in specs) - cut < max(4, lowest(g, op)):
            return None
        shape = lambda s: [s["shape"][0] - cut] + s["shape"][1:]
    else:
        if op["fn"] in AF + TTEST or "method" in op["kw"] or \
                "compile_mode" in op["kw"]:
            return None
        wide = [(s["shape"] + [1])[:2] for s in specs]
        if rng.random() < 0.5 and all(p % 2 == 0 for _, p in wide):
            shape = lambda s: [2 * s["shape"][0], s["shape"][1] // 2]
        elif all(n % 2 == 0 for n, _ in wide) and \
                min(n for n, _ in wide) // 2 >= max(4, lowest(g, op)):
            shape = lambda s: [s["shape"][0] // 2, 2 * (s["shape"] + [1])[1]]
        else:
            return None
    names = {}
    for a in op["args"]:
        if a not in names:
            names[a] = g.add(dict(g.arrays[a], shape=shape(g.arrays[a])))
    new["args"] = [names[a] for a in op["args"]]
    return new


def bad_call(g, rng):
    """A call the library refuses by itself."""
    k = rng.choice(["length", "length", "columns", "average", "stat", "source",
                    "method", "mode", "rows", "tlength"])
    if k in ("length", "method", "mode"):
        op = g.call(fn=rng.choice(PAIR))
        op["kw"].pop("exponent", None)
        if k == "length":
            a = g.arrays[op["args"][0]]
            op["args"] = [op["args"][0], g.array([a["shape"][0] + rng.randint(1, 3)]
                                                 + a["shape"][1:], dtype="f8")]
        elif k == "method":
            op["kw"]["method"] = "nonsense"
            op["method_str"] = True
        else:
            op["kw"]["compile_mode"] = "COMPILE_PARALLEL"
    elif k == "rows":
        op = g._rowwise("rowwise", None)
        op["kw"] = {"function": "distance_covariance",
                    "rowwise_mode": "OPTIMIZED", "exponent": 1.5}
    elif k in ("source", "tlength"):
        op = g.call(fn=rng.choice(TESTS[:2]))
        if k == "source":
            op["kw"]["random_state"] = {"kind": "bad"}
        else:
            a = g.arrays[op["args"][0]]
            op["args"][1] = g.array([a["shape"][0] + 2, 1], dtype="f8")
    else:
        op = g.call(fn=rng.choice(ENERGY + ["energy_test"]))
        if k == "columns":
            op["args"][1] = g.array([5, 5], dtype="f8")
        elif k == "average":
            op["kw"]["average"] = "bad"
        else:
            op["kw"]["estimation_stat"] = "W"
            op["est_str"] = True
    op["bad"] = k
    return op


def gen_C04(seed, rng):
    g = Gen(rng, strict=0.05, big=140, lists=0.03)
    nclients = rng.choices([2, 3, 4, 6], [58, 27, 11, 4])[0]
    if g.scale:
        nclients = 2
    clients = [[] for _ in range(nclients)]
    style = rng.choices(["same", "family", "mixed", "shared"],
                        [45, 20, 20, 15])[0]
    projs = {}
    if style == "same":
        op = call_any(g, rng)
        clients[0].append(op)
        other_n = rng.random() < 0.35
        for c in clients[1:]:
            c.append(sibling(g, rng, op, other_n))
        if rng.random() < 0.35:
            for c in clients:
                c.append(sibling(g, rng, op) if rng.random() < 0.7
                         else call_any(g, rng))
    elif style == "family":
        fam = rng.choice([PAIR, ENERGY, PARTIAL, MATRIX, TESTS, TTEST + PAIR,
                          PAIR + ["rowwise"], ENERGY + ["energy_test"],
                          AF + ["pairwise_distances"]])
        n = workload.sizes(rng, 6, 90)
        for c in clients:
            for _ in range(rng.randint(1, 3)):
                c.append(call_any(g, rng, n=n, family=fam))
    elif style == "mixed":
        for c in clients:
            for _ in range(rng.randint(1, 3)):
                c.append(call_any(g, rng))
    else:
        # the very same arrays, different functions; or a shared projection
        if rng.random() < 0.5:
            n = max(5, workload.sizes(rng, 5, 40))
            a = g.array([n, n], kind="zero" if rng.random() < 0.25 else "usym",
                        dtype="f8")
            fn = rng.choice(["u_projection", "u_complementary_projection"])
            projs["p0"] = {"fn": fn, "arg": a}
            for c in clients:
                for _ in range(rng.randint(1, 3)):
                    b = g.array([n, n], kind="usym", dtype="f8")
                    c.append({"do": "call", "fn": fn, "proj": "p0",
                              "args": [b], "kw": {}})
        else:
            n = workload.sizes(rng, 5, 90)
            x = g.array([n], dtype="f8")
            y = g.array([n], dtype="f8")
            for c in clients:
                for _ in range(rng.randint(1, 3)):
                    fn = rng.choice(PAIR)
                    op = {"do": "call", "fn": fn, "args": [x, y], "kw": {}}
                    m = rng.choice([None, "naive", "avl", "mergesort"])
                    if m:
                        op["kw"]["method"] = m
                    if m != "naive" and rng.random() < 0.6:
                        op["kw"]["compile_mode"] = rng.choice(
                            ["NO_COMPILE", "COMPILE_CPU", "AUTO"])
                    c.append(op)
    spec = base("C04", seed, rng, g, clients)
    spec["projs"] = projs
    spec["knobs"]["opcodes"] = rng.random() < 0.25
    for c in clients:
        for op in c:
            if op["fn"] in TESTS:
                add_source(rng, spec, op, ("int", "rs", "gen"), (60, 20, 20))
            if op["kw"].get("average") in ("mean", "median") and \
                    not strict_op(g, op) and rng.random() < 0.3:
                op["kw"]["average"] = "np." + op["kw"]["average"]
    return spec


def strict_op(g, op):
    return any(g.arrays[n].get("ns") == "strict" for a in op["args"]
               for n in (a if isinstance(a, list) else [a]))


def gen_C05(seed, rng):
    g = Gen(rng, strict=0.08, big=120, lists=0.04, objects=0.03, special=0.04)
    nclients = rng.choices([1, 2], [70, 30])[0]
    clients = []
    for _ in range(nclients):
        steps = []
        for _ in range(rng.choices([1, 2, 3], [55, 30, 15])[0]):
            steps.append(call_any(g, rng) if rng.random() > 0.03
                         else bad_call(g, rng))
        clients.append(steps)
    spec = base("C05", seed, rng, g, clients)
    spec["knobs"]["opcodes"] = rng.random() < 0.08
    big = max([s["shape"][0] for s in g.arrays.values()] or [1])
    spec["knobs"]["observe_every"] = 1 if big < 40 else rng.choice([2, 5])
    faulty = rng.random() < 0.5
    for c in clients:
        for op in c:
            if op["fn"] in TESTS and not op.get("bad"):
                add_source(rng, spec, op, ("int", "rs"), (70, 30))
            if faulty and rng.random() < 0.7:
                op["fault"] = any_fault(rng, op)
    return spec


def projection_call(g, rng, projs):
    """A call of a projection function the caller made beforehand."""
    n = max(5, workload.sizes(rng, 5, 30))
    fn = rng.choice(["u_projection", "u_complementary_projection"])
    name = "p%d" % len(projs)
    projs[name] = {"fn": fn, "arg": g.array(
        [n, n], kind=rng.choice(["zero", "usym", "usym"]), dtype="f8")}
    return {"do": "call", "fn": fn, "proj": name, "kw": {},
            "args": [g.array([n, n], kind="usym", dtype="f8")]}


def gen_C06(seed, rng):
    g = Gen(rng, strict=0.05, big=100, lists=0.02)
    nclients = rng.choices([1, 2], [75, 25])[0]
    clients = []
    projs = {}
    for _ in range(nclients):
        steps = []
        op = call_any(g, rng)
        if rng.random() < 0.05:
            op = projection_call(g, rng, projs)
        if rng.random() < 0.06:
            steps.append(bad_call(g, rng))
        for _ in range(rng.choices([1, 2, 3, 6], [63, 23, 10, 4])[0]):
            f = {k: (dict(v) if isinstance(v, dict) else v)
                 for k, v in op.items()}
            f["_faulty"] = True
            steps.append(f)
            if rng.random() < 0.3:
                op = sibling(g, rng, op)
        steps.append({k: (dict(v) if isinstance(v, dict) else v)
                      for k, v in op.items()})
        for _ in range(rng.randint(0, 2)):
            steps.append(sibling(g, rng, op) if rng.random() < 0.5
                         else call_any(g, rng))
        clients.append(steps)
    spec = base("C06", seed, rng, g, clients)
    spec["projs"] = projs
    spec["knobs"]["opcodes"] = rng.random() < 0.04
    for c in clients:
        for op in c:
            if op["fn"] in TESTS and not op.get("bad"):
                add_source(rng, spec, op, ("int", "rs", "gen"), (30, 40, 30))
            if op.pop("_faulty", False):
                op["fault"] = any_fault(rng, op, ["memory", "memory", "interrupt"])
    return spec


def gen_C07(seed, rng):
    g = Gen(rng, strict=0.0, nans=True)
    clients = []
    for _ in range(rng.choices([1, 2], [80, 20])[0]):
        steps = []
        for _ in range(rng.choices([1, 2], [80, 20])[0]):
            k = rng.choices([None, 0, 1, rng.randint(8, 20), rng.randint(30, 140)],
                            [75, 3, 7, 13, 2])[0]
            n = None if rng.random() < 0.8 else rng.choice([4, 5, 8, 16, 17])
            if k and k > 20:
                n = rng.choice([4, 5, 6])
            op = g._rowwise("rowwise", n, k)
            if op["kw"].get("rowwise_mode") == "NAIVE" and op["args"][0] and \
                    rng.random() < 0.15 and \
                    op["kw"]["function"] != "energy_distance":
                # refused for each pair, so refused for all of them
                op["kw"]["compile_mode"] = "COMPILE_PARALLEL"
                op["accept"] = "refuse"
            steps.append(op)
        clients.append(steps)
    spec = base("C07", seed, rng, g, clients)
    spec["knobs"]["gu_threads"] = rng.choice([1, 2, 2, 3, 3, 4, 5, 8])
    return spec


def gen_C08(seed, rng):
    g = Gen(rng, strict=0.0, big=120)
    nclients = rng.choices([1, 2, 3], [60, 30, 10])[0]
    clients = []
    fns = [f for f in PAIR]
    for _ in range(nclients):
        steps = []
        for _ in range(rng.randint(2, 5) if rng.random() < 0.95
                       else rng.randint(8, 14)):
            fn = rng.choice(fns)
            n = workload.sizes(rng, 4, 120)
            dt = rng.choices(["f8", "i8", "f4", "i4", "g", ">f8", "mixed",
                              "frac", "dec"],
                             [58, 9, 8, 6, 5, 3, 9, 4, 3])[0]
            if dt in ("frac", "dec"):
                n = min(n, 14)
            names = []
            for k in range(2):
                d = dt if dt != "mixed" else rng.choice(["f8", "i8", "f4"])
                sh = [n] if rng.random() < 0.75 else [n, 1]
                kd = rng.choice(["dyadic", "ties", "ramp"]) if d in (
                    "frac", "dec") else None if d not in ("i4", "i8") else rng.choice(
                    ["normal", "dyadic", "ties", "ramp"])
                names.append(g.array(sh, dtype=d, kind=kd))
            kw = {"method": rng.choice(["avl", "mergesort", "auto"])}
            if rng.random() < 0.1:
                del kw["method"]
            c = rng.choices([None, "AUTO", "COMPILE_CPU", "NO_COMPILE"],
                            [35, 25, 28, 12])[0]
            if c:
                kw["compile_mode"] = c
            op = {"do": "call", "fn": fn, "args": names, "kw": kw,
                  "method_str": rng.random() < 0.5}
            if rng.random() < 0.45:
                op["fault"] = {"kind": "reject", "ords": sorted(rng.sample(
                    range(3), rng.choices([1, 2, 3], [60, 20, 20])[0]))}
            steps.append(op)
        clients.append(steps)
    spec = base("C08", seed, rng, g, clients)
    return spec


def gen_C09(seed, rng):
    g = Gen(rng, strict=0.05, big=80, lists=0.02)
    steps = []
    pool = []
    projs = {}
    for _ in range(rng.randint(1, 3)):
        pool.append(call_any(g, rng))
    if rng.random() < 0.1:
        n = max(5, workload.sizes(rng, 5, 30))
        fn = rng.choice(["u_projection", "u_complementary_projection"])
        projs["p0"] = {"fn": fn, "arg": g.array(
            [n, n], kind=rng.choice(["zero", "usym", "usym"]), dtype="f8")}
        for _ in range(rng.randint(1, 2)):
            pool.append({"do": "call", "fn": fn, "proj": "p0", "kw": {},
                         "args": [g.array([n, n], kind="usym", dtype="f8")]})
    n_steps = rng.randint(3, 11)
    kept = []
    if rng.random() < 0.07:
        # a long series of similar calls, all results kept
        op = call_any(g, rng, n=rng.choice([4, 5, 6, 8]))
        if op["fn"] in TESTS:
            op["kw"]["num_resamples"] = min(op["kw"]["num_resamples"], 3)
        for _ in range(rng.randint(8, 34) if rng.random() < 0.85
                       else rng.randint(60, 140)):
            steps.append(dict(sibling(g, rng, op), keep=True)
                         if not op.get("out") else dict(op, kw=dict(op["kw"])))
        n_steps = rng.randint(0, 3)
    elif rng.random() < 0.05:
        # the same call again and again, its arrays changing now and then
        op = call_any(g, rng, n=rng.choice([4, 5, 6, 8]))
        if op["fn"] in TESTS:
            op["kw"]["num_resamples"] = min(op["kw"]["num_resamples"], 3)
        names = [n for a in op["args"] for n in (a if isinstance(a, list) else [a])]
        for _ in range(rng.randint(10, 40)):
            if names and rng.random() < 0.15:
                steps.append({"do": rng.choice(["mutate", "mutate", "realloc"]),
                              "arr": rng.choice(names),
                              "seed": rng.randrange(1 << 30),
                              "how": rng.choice(["refill", "one", "swap", "scale"])})
            steps.append({a: (dict(v) if isinstance(v, dict) else v)
                          for a, v in op.items()})
        n_steps = rng.randint(0, 3)
    for i in range(n_steps):
        k = rng.random()
        if not steps or k < 0.45:
            op = rng.choice(pool)
            op = {a: (dict(v) if isinstance(v, dict) else v)
                  for a, v in op.items()}
            if rng.random() < 0.12:
                tweak(rng, g, op)
            if rng.random() < 0.10:
                op["_faulty"] = True
            op["keep"] = rng.random() < 0.6
            if op["keep"]:
                kept.append("0.%d" % len(steps))
            steps.append(op)
        elif k < 0.50:
            op = sibling(g, rng, rng.choice(pool))
            pool.append(op)
            steps.append(dict(op, kw=dict(op["kw"])))
        elif k < 0.54:
            op = call_any(g, rng)
            pool.append(op)
            steps.append(dict(op, kw=dict(op["kw"])))
        elif k < 0.60 and k >= 0.555:
            op = recast(g, rng, rng.choice(pool))
            if op is not None:
                pool.append(op)
                steps.append(dict(op, kw=dict(op["kw"])))
        elif k < 0.555:
            steps.append(bad_call(g, rng))
        elif k < 0.80:
            used = rng.choice(pool)
            names = [n for a in used["args"]
                     for n in (a if isinstance(a, list) else [a])]
            steps.append({"do": "mutate", "arr": rng.choice(names),
                          "seed": rng.randrange(1 << 30),
                          "how": rng.choice(["refill", "one", "swap", "scale"])})
        elif k < 0.92 or not kept:
            used = rng.choice(pool)
            names = [n for a in used["args"]
                     for n in (a if isinstance(a, list) else [a])]
            steps.append({"do": "realloc", "arr": rng.choice(names),
                          "seed": rng.randrange(1 << 30)})
        else:
            steps.append({"do": rng.choice(["scribble", "scribble", "forget"]),
                          "of": rng.choice(kept)})
    op = rng.choice(pool)
    steps.append({a: (dict(v) if isinstance(v, dict) else v)
                  for a, v in op.items()})
    for s in g.arrays.values():
        if s.get("ro") == 2 and rng.random() < 0.7:
            s["ro"] = rng.choice([0, 1])
    spec = base("C09", seed, rng, g, [steps])
    spec["sched"] = {"policy": "none"}
    spec["projs"] = projs
    if rng.random() < 0.2:
        spec["init"] = settings.benign_init(rng)
    for op in steps:
        if op.get("fn") in TESTS and not op.get("bad"):
            add_source(rng, spec, op, ("int", "rs", "gen"), (70, 15, 15))
        if op.pop("_faulty", False):
            op["fault"] = any_fault(rng, op)
    return spec


def tweak(rng, g, op):
    """The same call with another option."""
    fn = op["fn"]
    if fn in ENERGY + ["energy_test", "pairwise_distances",
                       "distance_covariance_test"]:
        op["kw"]["exponent"] = rng.choice([1, 0.5, 1.5])
    elif fn in PAIR:
        op["kw"].pop("compile_mode", None)
        op["kw"].pop("method", None)
        op["fn"] = rng.choice([f for f in PAIR
                               if f.startswith("u_") == fn.startswith("u_")])
    elif fn in ("u_projection", "u_complementary_projection") and \
            len(op["args"]) == 2:
        op["args"] = list(reversed(op["args"]))


def gen_C10(seed, rng):
    g = Gen(rng, strict=0.03)
    clients = []
    for _ in range(rng.choices([1, 2], [85, 15])[0]):
        steps = []
        for _ in range(rng.choices([1, 2], [70, 30])[0]):
            r = max(1, resamples(rng))
            fn = rng.choice(TESTS + ["energy_test"])
            op = g._test(fn, None, r)
            if fn == "energy_test" and rng.random() < 0.6 and \
                    "average" not in op["kw"]:
                op["kw"]["average"] = rng.choice(["mean", "max", "min+max"])
            parallelize(rng, op, 0.8)
            steps.append(op)
        clients.append(steps)
    spec = base("C10", seed, rng, g, clients)
    spec["knobs"]["opcodes"] = False
    spec["knobs"]["stall"] = rng.choice([0, 0.1, 0.3, 0.7])
    spec["step_cap"] = 600_000
    for steps in clients:
        for op in steps:
            add_source(rng, spec, op, ("int", "rs", "gen"), (40, 35, 25))
            if rng.random() < 0.75:
                jobs = op["kw"].get("n_jobs")
                r = op["kw"]["num_resamples"]
                procs = op.get("backend") in (None, "loky") \
                    and jobs not in (1, None)
                if op.get("cfg_jobs") and op.get("backend") != "threading":
                    procs = True
                if procs and rng.random() < 0.5:
                    if rng.random() < 0.6:
                        op["fault"] = {"kind": "lose", "job": rng.randrange(
                            max(1, min(r, 12))),
                            "phase": rng.choice(["before", "after"])}
                    else:
                        op["fault"] = {"kind": "lose_mid", "who": "worker",
                                       "mode": "dyn"}
                else:
                    f = test_fault(rng, op)
                    if f["kind"] == "stmt":
                        f["who"] = rng.choice(["worker", "any"])
                        f["exc"] = rng.choice(["memory", "os", "runtime"])
                    op["fault"] = f
    return spec


def gen_C11(seed, rng):
    g = Gen(rng, strict=0.06, big=80, lists=0.04, special=0.04)
    nclients = rng.choices([1, 2, 3], [55, 30, 15])[0]
    clients = []
    for _ in range(nclients):
        steps = []
        for _ in range(rng.randint(1, 4)):
            steps.append(call_any(g, rng) if rng.random() > 0.06
                         else bad_call(g, rng))
        clients.append(steps)
    spec = base("C11", seed, rng, g, clients)
    spec["knobs"]["opcodes"] = rng.random() < 0.06
    if rng.random() < 0.7:
        spec["init"] = settings.random_init(rng)
    faulty = rng.random() < 0.6
    for c in clients:
        for op in c:
            if op["fn"] in TESTS and not op.get("bad"):
                add_source(rng, spec, op, ("int", "rs", "none"), (70, 20, 10))
            if faulty and rng.random() < 0.6:
                op["fault"] = any_fault(rng, op)
            if op["fn"] in PAIR and rng.random() < 0.15:
                op["fault"] = {"kind": "reject", "ords": [0, 1, 2]}
    return spec


def inner_call(g, rng, outer=None):
    """A call to be made inside another one (no random source object)."""
    if outer is not None and rng.random() < 0.45:
        op = sibling(g, rng, outer)
        op["kw"] = dict(op["kw"])
        op.pop("fault", None)
    elif rng.random() < 0.04:
        return bad_call(g, rng)
    else:
        op = call_any(g, rng)
    # no output array: several callbacks may run at the same time
    for k in ("backend", "cfg_jobs", "inner", "rowfn", "out"):
        op.pop(k, None)
    if "n_jobs" in op["kw"]:
        op["kw"]["n_jobs"] = rng.choice([1, 2, 2, 3])
    if op["fn"] in TESTS:
        op["kw"]["num_resamples"] = min(op["kw"]["num_resamples"],
                                        6 if rng.random() < 0.8 else 40)
        op["kw"]["random_state"] = {"kind": "int", "seed": rng.randrange(1 << 31)}
    return op


def nest_more(g, rng, sub, depth=2):
    """The call inside the call runs a callback that makes a call, too."""
    if sub["fn"] not in ENERGY + ["energy_test"] or sub.get("bad") or \
            depth == 0 or rng.random() > 0.5:
        return
    sub["kw"]["average"] = rng.choice(["mean", "max", "min+max"])
    inner = inner_call(g, rng, sub)
    sub["inner"] = {"where": "callback", "at": [rng.randrange(3)], "op": inner}
    nest_more(g, rng, inner, depth - 1)


def gen_C12(seed, rng):
    g = Gen(rng, strict=0.04, big=60)
    clients, rs = [], []
    for _ in range(rng.choices([1, 2], [75, 25])[0]):
        steps = []
        for _ in range(rng.choices([1, 2], [75, 25])[0]):
            style = rng.choices(["average", "source", "rows", "pool", "signal"],
                                [32, 12, 14, 22, 20])[0]
            if style == "pool":
                n = rng.randint(2, 6)
                first = inner_call(g, rng)
                ops = [first]
                while len(ops) < n:
                    ops.append(inner_call(g, rng, first))
                steps.append({"do": "pool", "jobs": rng.choice([2, 3, 4]),
                              "backend": rng.choice(["threading", "loky"]),
                              "ops": [o for o in ops if not o.get("bad")
                                      and not o.get("out")]})
                continue
            if style == "signal":
                # a signal handler (or finaliser) interrupts the thread
                op = call_any(g, rng)
                sub = inner_call(g, rng, op)
                if sub["kw"].get("n_jobs"):
                    sub["kw"]["n_jobs"] = 1
                op["inner"] = {"where": "signal", "at": [0], "op": sub}
                op["fault"] = {"kind": "signal", "who": "client",
                               "mode": rng.choice(["site", "site", "dyn"])}
                steps.append(op)
                continue
            if style == "rows":
                op = g._rowwise("rowwise", rng.choice([None, 4, 6]),
                                rng.randint(1, 5))
                if op["kw"].get("rowwise_mode") == "OPTIMIZED" or \
                        op["kw"].get("compile_mode") == "COMPILE_PARALLEL":
                    op["kw"] = {"function": op["kw"]["function"]}
                op["rowfn"] = True
                calls = len(op["args"][0]) if isinstance(op["args"][0], list) \
                    else g.arrays[op["args"][0]]["shape"][0]
                where = "callback"
            elif style == "source":
                op = g._test(rng.choice(TESTS), None, rng.randint(
                    1, 8 if rng.random() < 0.85 else 30))
                calls = op["kw"]["num_resamples"]
                where = "source"
                rs.append(op)
            else:
                op = g.call(fn=rng.choice(ENERGY + ["energy_test"] * 2))
                op["kw"]["average"] = rng.choice(["mean", "max", "min+max"])
                calls = 3
                if op["fn"] == "energy_test":
                    op["kw"]["num_resamples"] = rng.randint(
                        0, 6 if rng.random() < 0.85 else 25)
                    calls *= op["kw"]["num_resamples"] + 1
                where = "callback"
            if op["fn"] in TESTS:
                parallelize(rng, op, 0.4)
            at = sorted(rng.sample(range(calls), min(calls, rng.randint(1, 3))))
            sub = inner_call(g, rng, op)
            if where == "source" and sub["kw"].get("n_jobs"):
                # joblib draws while it dispatches: no parallel call there
                sub["kw"]["n_jobs"] = 1
            op["inner"] = {"where": where, "at": at, "op": sub}
            if where == "callback":
                nest_more(g, rng, sub)
            steps.append(op)
        clients.append(steps)
    spec = base("C12", seed, rng, g, clients)
    spec["step_cap"] = 2_000_000
    for op in rs:
        add_source(rng, spec, op, ("rs", "gen"), (60, 40))
    return spec


def with_callback(g, rng, styles=("average", "average", "source", "rows")):
    """A call that runs code of the caller: (op, where, number of runs)."""
    style = rng.choice(styles)
    if style == "rows":
        op = g._rowwise("rowwise", rng.choice([None, 4, 6]), rng.randint(1, 5))
        if op["kw"].get("rowwise_mode") == "OPTIMIZED" or \
                op["kw"].get("compile_mode") == "COMPILE_PARALLEL":
            op["kw"] = {"function": op["kw"]["function"]}
        op["rowfn"] = True
        calls = len(op["args"][0]) if isinstance(op["args"][0], list) \
            else g.arrays[op["args"][0]]["shape"][0]
        return op, "callback", calls
    if style == "source":
        op = g._test(rng.choice(TESTS), None, rng.randint(1, 8))
        op["_source"] = True
        return op, "source", op["kw"]["num_resamples"]
    op = g.call(fn=rng.choice(ENERGY + ["energy_test"] * 2))
    op["kw"]["average"] = rng.choice(["mean", "max", "min+max"])
    calls = 3
    if op["fn"] == "energy_test":
        op["kw"]["num_resamples"] = rng.randint(0, 6)
        calls *= op["kw"]["num_resamples"] + 1
    return op, "callback", calls


def gen_C13(seed, rng):
    g = Gen(rng, strict=0.04, big=60)
    clients = []
    stuck = rng.choices([1, 2, 3, 5], [74, 18, 5, 3])[0]
    free = rng.choices([1, 2, 3], [60, 30, 10])[0]
    first = None
    for _ in range(stuck):
        steps = []
        if rng.random() < 0.25:
            steps.append(call_any(g, rng))
        if first and rng.random() < 0.6:
            op = sibling(g, rng, first)
            op["hold"] = dict(op["hold"])
            steps.append(op)
            clients.append(steps)
            continue
        op, where, calls = with_callback(g, rng)
        if op["fn"] in TESTS:
            # a stalled task occupies joblib's shared worker processes
            parallelize(rng, op, 0.4)
            if op["kw"].get("n_jobs") not in (1,) and "n_jobs" in op["kw"]:
                op["backend"] = "threading"
        op["hold"] = {"where": where, "at": rng.randrange(max(1, calls))}
        first = first or op
        steps.append(op)
        clients.append(steps)
    for _ in range(free):
        steps = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.5:
                op = sibling(g, rng, first, rng.random() < 0.3)
                op.pop("hold")
            else:
                op = call_any(g, rng) if rng.random() < 0.6 else \
                    with_callback(g, rng)[0]
            steps.append(op)
        clients.append(steps)
    rng.shuffle(clients)
    spec = base("C13", seed, rng, g, clients)
    for steps in clients:
        for op in steps:
            if op.pop("_source", False):
                add_source(rng, spec, op, ("rs", "gen"), (60, 40))
    return spec


def gen_C14(seed, rng):
    g = Gen(rng, strict=0.05, big=80)
    nclients = rng.choices([1, 2], [80, 20])[0]
    clients = []
    for _ in range(nclients):
        steps = []
        if rng.random() < 0.6 and nclients == 1:
            op = call_any(g, rng, n=rng.choice([6, 8, 12, 20, 33, 64]))
            if op["fn"] in TESTS:
                op["kw"]["num_resamples"] = min(op["kw"]["num_resamples"], 6)
            k = rng.randint(5, 7)
            if rng.random() < 0.25:
                op["fault"] = any_fault(rng, op)
            grow = rng.random() < 0.35
            for i in range(k):
                new = sibling(g, rng, op, i if grow else False)
                new.pop("fault", None)
                if op.get("fault"):
                    new["fault"] = dict(op["fault"])
                new.update(series=0, of_series=k)
                steps.append(new)
            for _ in range(2):      # then less data
                new = sibling(g, rng, op, "less")
                if op.get("fault"):
                    new["fault"] = dict(op["fault"])
                new.update(series=0, of_series=k)
                steps.append(new)
        for _ in range(rng.randint(0 if steps else 1, 4)):
            op = call_any(g, rng) if rng.random() > 0.06 else bad_call(g, rng)
            if rng.random() < 0.4 and not op.get("bad"):
                op["fault"] = any_fault(rng, op)
            steps.append(sibling(g, rng, op))
        clients.append(steps)
    spec = base("C14", seed, rng, g, clients)
    if any(op.get("series") is not None for op in clients[0]):
        spec["sched"] = {"policy": "none"}
    for steps in clients:
        for op in steps:
            if op["fn"] in TESTS and not op.get("bad"):
                if op.get("series") is None:
                    add_source(rng, spec, op, ("int", "rs", "gen"), (50, 30, 20))
                elif op.get("fault", {}).get("kind") == "rng":
                    add_source(rng, spec, op, ("rs", "gen"), (60, 40))
    return spec


def gen_C15(seed, rng):
    """Clients computing, and one that forks now and then."""
    g = Gen(rng, strict=0.04, big=60)
    clients = []
    first = call_any(g, rng)
    for i in range(rng.choices([1, 2, 3], [60, 30, 10])[0]):
        steps = []
        for _ in range(rng.randint(1, 3)):
            steps.append(sibling(g, rng, first) if rng.random() < 0.5
                         else call_any(g, rng))
        clients.append(steps)
    steps = []
    for _ in range(rng.choices([1, 2, 3], [50, 30, 20])[0]):
        if rng.random() < 0.4:
            steps.append(call_any(g, rng))
        ops = []
        for _ in range(rng.choices([1, 2, 3], [60, 25, 15])[0]):
            op = sibling(g, rng, first, rng.random() < 0.2) \
                if rng.random() < 0.65 else call_any(g, rng)
            # numba's and loky's own worker threads do not survive a fork
            if op.get("backend") or op["kw"].get("n_jobs") or op.get("cfg_jobs"):
                op["backend"] = "threading"
            if op["fn"] == "rowwise":
                op["kw"] = dict(op["kw"], rowwise_mode="NAIVE")
                op["kw"].pop("compile_mode", None)
            if op["fn"] in TESTS:
                op["kw"]["num_resamples"] = min(op["kw"]["num_resamples"], 8)
            ops.append(op)
        steps.append({"do": "fork", "ops": ops})
    clients.append(steps)
    spec = base("C15", seed, rng, g, clients)
    if rng.random() < 0.6:
        spec["sched"] = {"policy": "walk", "seed": rng.randrange(1 << 30),
                         "p": rng.choice([0.003, 0.01, 0.03, 0.1])}
    return spec


def generate(prop, seed):
    rng = random.Random("%s:%d" % (prop, seed))
    spec = globals()["gen_" + prop](seed, rng)
    for steps in spec["clients"]:
        for op in steps:
            if op.get("out") and op["out"] in op["args"] or op.get("bad"):
                op.pop("fault", None)     # the input would be half done
    return spec
