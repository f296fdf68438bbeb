"""Statement-level yield points and fault sites in /repo/dcor, by way of
sys.monitoring (PEP 669) events.

Every executed line (optionally bytecode) of the library in a simulated thread
is a scheduling decision point.  Lines that start a statement which calls,
computes or allocates are fault sites: an injected MemoryError,
KeyboardInterrupt or similar is raised there, as if the first operation of the
statement had failed.
"""
from __future__ import annotations

import ast
import os
import sys
import zlib

from . import kernel

ROOT = os.environ.get("DSIM_REPO", "/repo") + "/dcor/"
TESTS = ROOT + "tests/"

_sites = {}      # (filename, lineno) -> (site id, eligible)
_names = {}      # site id -> "file:line"
_eligible = {}   # filename -> set of line numbers

_SIMPLE = (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return)
_WORK = (ast.Call, ast.BinOp, ast.Subscript, ast.UnaryOp, ast.Compare,
         ast.ListComp, ast.GeneratorExp, ast.Starred)


def _scan(filename):
    """Line numbers at which a fault may be injected."""
    ok = set()
    try:
        with open(filename) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return ok

    def visit(body, inside_fn):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit(st.body, True)
            elif isinstance(st, ast.ClassDef):
                visit(st.body, False)
            elif isinstance(st, _SIMPLE):
                if inside_fn and any(isinstance(n, _WORK)
                                     for n in ast.walk(st)):
                    if isinstance(st, ast.Expr) and isinstance(
                            st.value, ast.Constant):
                        continue
                    ok.add(st.lineno)
            elif isinstance(st, ast.Try):
                # Not in handlers and not in clean-up code: a second failure
                # while the first is being handled is out of scope.
                visit(st.body, inside_fn)
                visit(st.orelse, inside_fn)
            elif isinstance(st, (ast.If, ast.For, ast.While)):
                visit(st.body, inside_fn)
                visit(st.orelse, inside_fn)
            elif isinstance(st, ast.With):
                visit(st.body, inside_fn)

    visit(tree.body, False)
    return ok


def site_of(filename, lineno):
    key = (filename, lineno)
    info = _sites.get(key)
    if info is None:
        el = _eligible.get(filename)
        if el is None:
            el = _eligible[filename] = _scan(filename)
        name = "%s:%d" % (filename[len(ROOT):], lineno)
        sid = 1000 + zlib.crc32(name.encode()) % 1_000_000_000
        info = _sites[key] = (sid, lineno in el)
        _names[sid] = name
    return info


def site_name(sid):
    return _names.get(sid, {0: "start", 1: "lock", 2: "sleep", 3: "callback",
                            4: "rng", 5: "worker", 6: "client", 7: "kernel",
                            }.get(sid, str(sid)))


class FaultState:
    """A statement fault armed for one operation."""

    __slots__ = ("k", "exc", "seen", "fired", "where", "client_only",
                 "worker_only")

    def __init__(self, k, exc, client_only=False, worker_only=False):
        self.k = k
        self.exc = exc
        self.seen = 0
        self.fired = None
        self.where = None
        self.client_only = client_only
        self.worker_only = worker_only

    def hit(self, sim, th, sid):
        if self.fired is not None or th.gu:
            return
        if self.client_only and not th.client:
            return
        if self.worker_only and th.client:
            return
        if self.seen == self.k:
            self.fired = self.exc()
            self.where = site_name(sid)
            sim.count("fault:stmt:" + type(self.fired).__name__)
            raise self.fired
        self.seen += 1


class Visit(FaultState):
    """The thread is interrupted by a handler that calls the library."""

    __slots__ = ("visit",)

    def __init__(self, k, visit):
        super().__init__(k, None, client_only=True)
        self.visit = visit

    def hit(self, sim, th, sid):
        if self.k is None or th.gu or not th.client:
            return
        if self.seen == self.k:
            self.k = None
            sim.count("fault:signal_handler_call")
            self.visit()
            return
        self.seen += 1


_codes = []
TOOL = 3
_mon = sys.monitoring
_gu = [0]


def _on_line(code, lineno):
    sim, th = kernel.sim_thread()
    if th is None or th.quiet:
        return
    env = sim.env
    if th.gu:
        stride = env.gu_stride
        if stride > 1:
            _gu[0] += 1
            if _gu[0] % stride:
                return
        sid, el = site_of(code.co_filename, lineno)
    else:
        sid, el = site_of(code.co_filename, lineno)
        if el:
            if sim.counting is not None and th.tag is not None:
                sim.counting.setdefault(th.tag, []).append(
                    (sid, 1 if th.client else 0))
            if sim.faults:
                f = sim.faults.get(th.tag)
                if f is not None:
                    f.hit(sim, th, sid)
    sim.yield_point(sid)


def _on_instruction(code, offset):
    sim, th = kernel.sim_thread()
    if th is None or th.quiet or th.gu:
        return
    sim.yield_point(th.site)


def _collect(code, seen):
    if code in seen or not code.co_filename.startswith(ROOT) or \
            code.co_filename.startswith(TESTS):
        return
    seen[code] = True
    for c in code.co_consts:
        if hasattr(c, "co_consts"):
            _collect(c, seen)


def _on_start(code, offset):
    """A function of the library that did not exist when arm() looked."""
    if code.co_filename.startswith(ROOT) and \
            not code.co_filename.startswith(TESTS) and \
            code.co_name != "<module>":
        _mon.set_local_events(TOOL, code, _mon.events.LINE)
    return _mon.DISABLE


def arm():
    """Yield points at every line of every function of the library."""
    import gc
    import types
    seen = {}
    ids = set()
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and id(f.__code__) not in ids:
            ids.add(id(f.__code__))
            _collect(f.__code__, seen)
    _codes[:] = list(seen)
    _mon.use_tool_id(TOOL, "dsim")
    _mon.register_callback(TOOL, _mon.events.LINE, _on_line)
    _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instruction)
    _mon.register_callback(TOOL, _mon.events.PY_START, _on_start)
    for c in _codes:
        _mon.set_local_events(TOOL, c, _mon.events.LINE)
    _mon.set_events(TOOL, _mon.events.PY_START)


def opcodes():
    """Also yield at every bytecode (before any simulated thread starts)."""
    for c in _codes:
        _mon.set_local_events(
            TOOL, c, _mon.events.LINE | _mon.events.INSTRUCTION)
