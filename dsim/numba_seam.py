"""Seam for numba: the kernels' Python source, run under the simulator.

``njit`` objects keep numba's calling convention (declared signatures are
checked with numba's own type rules, a mismatch is the TypeError numba raises)
but execute the Python source.  As numba holds the GIL there, such a call is
atomic unless declared ``nogil``.  A ``guvectorize`` kernel with target
``parallel`` splits its rows among simulated threads, which are preempted at
statement granularity.
"""
from __future__ import annotations

import ast
import inspect
import random
import re
import textwrap

from . import kernel

SITE_KERNEL = 7
REJECT_TEXT = "No matching definition for argument type(s) "


class Prange:
    def __new__(cls, *args):
        r = range(*args)
        sim, th = kernel.sim_thread()
        if th is None or sim.env is None:
            return iter(r)
        order = list(r)
        random.Random("prange:%s:%d" % (sim.env.seed, len(order))).shuffle(order)
        return iter(order)


def _box(value, ty, types):
    """What numba would hand back to Python for a value of type ty."""
    if ty is None or value is None:
        return value
    if isinstance(ty, types.Optional):
        return _box(value, ty.type, types)
    if isinstance(ty, types.Float):
        return float(value)
    if isinstance(ty, types.Boolean):
        return bool(value)
    if isinstance(ty, types.Integer):
        return int(value)
    if isinstance(ty, types.BaseTuple):
        return tuple(_box(v, t, types) for v, t in zip(value, ty.types))
    return value


class _Split(ast.NodeTransformer):
    """Turns each ``for i in prange(...)`` into a call that runs its body on
    simulated threads, with numba's scoping: names assigned in the body are
    private, names only updated in place are reductions."""

    def __init__(self):
        self.n = 0

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        f = getattr(node.iter, "func", None)
        name = getattr(f, "id", getattr(f, "attr", None))
        if name != "prange" or not isinstance(node.target, ast.Name) or \
                node.orelse or getattr(node.iter, "keywords", None):
            return node
        self.n += 1
        body = _Body()
        stmts = [body.visit(s) for s in node.body]
        red = sorted(body.aug - body.assigned)
        fn = "__dsim_body%d" % self.n
        new = ast.parse("def %s(%s):\n    pass" % (fn, node.target.id)).body[0]
        new.body = ([ast.Nonlocal(red)] if red else []) + stmts
        call = ast.parse("__dsim_run(%s)" % fn).body[0]
        call.value.args += node.iter.args
        for x in (new, call):
            ast.copy_location(x, node)
        return [new, call]


class _Body(ast.NodeTransformer):
    def __init__(self):
        self.aug, self.assigned, self.loops = set(), set(), 0

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Store):
            self.assigned.add(node.id)
        return node

    def _loop(self, node):
        self.loops += 1
        self.generic_visit(node)
        self.loops -= 1
        return node

    visit_For = visit_While = _loop

    def visit_FunctionDef(self, node):
        self.assigned.add(node.name)
        return node

    def visit_Continue(self, node):
        return node if self.loops else ast.copy_location(ast.Return(None), node)

    def visit_Break(self, node):
        if not self.loops:
            raise SyntaxError("break in prange")
        return node

    def visit_AugAssign(self, node):
        if not isinstance(node.target, ast.Name):
            self.generic_visit(node)
            return node
        self.aug.add(node.target.id)
        node.value = self.visit(node.value)
        name = "__dsim_value"
        first = ast.Assign([ast.Name(name, ast.Store())], node.value)
        w = ast.With([ast.withitem(ast.Name("__dsim_atomic", ast.Load()), None)],
                     [ast.AugAssign(node.target, node.op,
                                    ast.Name(name, ast.Load()))])
        for x in (first, w):
            ast.copy_location(x, node)
        return [first, w]


class _Atomic:
    def __enter__(self):
        kernel.sim_thread()[1].quiet += 1

    def __exit__(self, *a):
        kernel.sim_thread()[1].quiet -= 1


def _run_prange(body, *args):
    sim, th = kernel.sim_thread()
    index = list(range(*args))
    n = max(1, min(sim.env.gu_threads, len(index)))
    sim.count("parallel_row_splits")
    errors, kids = [], []

    def part(ixs):
        def run():
            _, me = kernel.sim_thread()
            me.depth += 1
            me.gu += 1
            try:
                for i in ixs:
                    body(i)
            except Exception as e:
                errors.append(e)
        return run

    cuts = sim.env.split(len(index), n)
    for a, b in zip(cuts, cuts[1:]):
        if a < b:
            kids.append(sim.spawn(part(index[a:b]), "prange%d-%d" % (a, b)))
    quiet, th.quiet = th.quiet, 0
    sim.block(lambda: all(k.state == kernel.DONE for k in kids))
    th.quiet = quiet
    if errors:
        raise errors[0]


def _parallelise(f):
    """The function with its prange loops on simulated threads, or itself."""
    try:
        src = textwrap.dedent(inspect.getsource(f))
        node = ast.parse(src).body[0]
        node.decorator_list = []
        split = _Split()
        node = split.visit(node)
        if not split.n:
            return f
        outer = ast.parse("def __dsim_factory(%s):\n    pass" % ", ".join(
            ("__dsim_run", "__dsim_atomic") + f.__code__.co_freevars)).body[0]
        outer.body = [node, ast.parse("return " + node.name).body[0]]
        tree = ast.Module([outer], [])
        ast.fix_missing_locations(tree)
        ast.increment_lineno(tree, f.__code__.co_firstlineno - 1)
        ns = {}
        exec(compile(tree, f.__code__.co_filename, "exec"), f.__globals__, ns)
        new = ns["__dsim_factory"](_run_prange, _Atomic(), *(
            c.cell_contents for c in f.__closure__ or ()))
        new.__defaults__, new.__kwdefaults__ = f.__defaults__, f.__kwdefaults__
        return new
    except (OSError, SyntaxError, TypeError, ValueError, AttributeError):
        return f


class SimDispatcher:
    """Stands in for a compiled function."""

    def __init__(self, py_func, sigs, options):
        import numba
        from numba.core import sigutils
        self.py_func = self.__wrapped__ = py_func
        self.__name__ = getattr(py_func, "__name__", "kernel")
        self.__doc__ = getattr(py_func, "__doc__", None)
        self.__module__ = getattr(py_func, "__module__", None)
        self.__qualname__ = getattr(py_func, "__qualname__", self.__name__)
        self.options = options
        self.nogil = bool(options.get("nogil"))
        self.sigs = [sigutils.normalize_signature(s) for s in sigs]
        self._types = numba.types
        self._typeof = numba.typeof
        self._pysig = inspect.signature(py_func)
        self._threaded = None

    def _body(self):
        if not self.options.get("parallel"):
            return self.py_func
        if self._threaded is None:
            self._threaded = _parallelise(self.py_func)
        return self._threaded

    @property
    def signatures(self):
        return [tuple(a) for a, _ in self.sigs]

    nopython_signatures = signatures

    def __reduce__(self):
        # Like a numba dispatcher: by reference if importable, else by source.
        return _find_dispatcher, (self.__module__, self._global_name())

    def _global_name(self):
        import sys
        mod = sys.modules.get(self.__module__)
        for k, v in vars(mod).items() if mod is not None else ():
            if v is self:
                return k
        raise TypeError("cannot pickle compiled function %s" % self.__name__)

    def _match(self, args):
        from numba.core.registry import cpu_target
        import numba
        types = self._types
        tys = []
        for a in args:
            try:
                tys.append(numba.typeof(a))
            except (ValueError, TypeError, numba.errors.NumbaError):
                tys.append(types.pyobject)
        ctx = cpu_target.typing_context
        best = None
        for formal, ret in self.sigs:
            if len(formal) != len(tys):
                continue
            if all(a == f or ctx.can_convert(a, f) is not None
                   for a, f in zip(tys, formal)):
                best = (formal, ret)
                break
        return tys, best

    def __call__(self, *args, **kwargs):
        sim, th = kernel.sim_thread()
        if th is not None and th.depth:       # called from another kernel
            return self._body()(*args, **kwargs)
        ret = None
        if self.sigs:
            ba = self._pysig.bind(*args, **kwargs)
            ba.apply_defaults()
            args, kwargs = ba.args, {}
            tys, best = self._match(args)
            if best is None:
                text = REJECT_TEXT + ", ".join(map(str, tys))
                if th is not None:
                    sim.env.kernel_event(th, "mismatch", self.__name__)
                    sim.env.refusals.setdefault(th.tag, []).append(text)
                raise TypeError(text)
            ret = best[1]
        if th is None:
            return _box(self.py_func(*args, **kwargs), ret, self._types)
        sim.env.kernel_enter(th, self.__name__)   # may raise a rejection
        th.depth += 1
        atomic = not self.nogil and not th.gu
        if atomic:
            th.quiet += 1
        try:
            out = self._body()(*args, **kwargs)
        finally:
            th.depth -= 1
            if atomic:
                th.quiet -= 1
        return _box(out, ret, self._types)


def _find_dispatcher(module, name):
    import importlib
    return getattr(importlib.import_module(module), name)


def njit(*args, **options):
    import numba
    from numba.core import sigutils
    if args and callable(args[0]) and not sigutils.is_signature(args[0]) and \
            not isinstance(args[0], (list, tuple, str)):
        return SimDispatcher(args[0], [], options)
    sigs = args[0] if args else options.pop("signature_or_function", None)
    if sigs is None:
        sigs = []
    elif not isinstance(sigs, list):
        sigs = [sigs]

    def wrap(f):
        if isinstance(f, SimDispatcher):
            f = f.py_func
        return SimDispatcher(f, sigs, options)
    return wrap


_dim = re.compile(r"\(([^)]*)\)")


class SimGUFunc:
    """Stands in for a compiled generalized ufunc."""

    def __init__(self, func, sigs, layout, target):
        import numba
        from numba.core import sigutils
        self.py_func = self.__wrapped__ = func
        self.__name__ = getattr(func, "__name__", "gufunc")
        self.__module__ = getattr(func, "__module__", None)
        self.layout = self.signature = layout
        self.target = target
        ins, outs = layout.split("->")
        self.in_dims = [tuple(d.strip() for d in m.split(",") if d.strip())
                        for m in _dim.findall(ins)]
        self.out_dims = [tuple(d.strip() for d in m.split(",") if d.strip())
                         for m in _dim.findall(outs)]
        self.nin, self.nout = len(self.in_dims), len(self.out_dims)
        self.nargs = self.nin + self.nout
        self.loops = []
        for s in sigs:
            a, _ = sigutils.normalize_signature(s)
            self.loops.append(a)
        self._types = numba.types

    def _dtype(self, ty):
        from numba.np import numpy_support
        if isinstance(ty, self._types.Array):
            return numpy_support.as_dtype(ty.dtype)
        return numpy_support.as_dtype(ty)

    def __call__(self, *args, **kwargs):
        import numpy as np
        try:
            from numpy.core._exceptions import _UFuncOutputCastingError
        except ImportError:
            from numpy._core._exceptions import _UFuncOutputCastingError
        sim, th = kernel.sim_thread()
        if th is not None:
            sim.yield_point(SITE_KERNEL)
            sim.env.kernel_event(th, "rowwise", self.__name__)
        outs = list(args[self.nin:])
        if "out" in kwargs and kwargs["out"] is not None:
            o = kwargs["out"]
            outs = list(o) if isinstance(o, tuple) else [o]
        ins = [np.asarray(a) for a in args[:self.nin]]
        if len(ins) != self.nin:
            raise TypeError("%s() takes from %d to %d positional arguments"
                            % (self.__name__, self.nin, self.nargs))
        loop = None
        for cand in self.loops:
            dts = [self._dtype(t) for t in cand]
            if all(np.can_cast(a.dtype, d, "safe") or
                   (a.ndim == 0 and np.can_cast(a, d, "safe"))
                   for a, d in zip(ins, dts)):
                loop, ldt = cand, dts
                break
        if loop is None:
            raise TypeError(
                "ufunc '%s' not supported for the input types, and the inputs "
                "could not be safely coerced to any supported types according "
                "to the casting rule ''safe''" % self.__name__)
        for o, d in zip(outs, ldt[self.nin:]):
            if o is not None and not np.can_cast(d, o.dtype, "same_kind"):
                try:
                    raise _UFuncOutputCastingError(
                        np.add, "same_kind", d, o.dtype, 0)
                except TypeError:
                    raise
        ins = [a if a.dtype == d else a.astype(d) for a, d in zip(ins, ldt)]
        # dimensions
        core = {}
        loop_shapes = []
        for a, dims in zip(ins, self.in_dims):
            if a.ndim < len(dims):
                raise ValueError("%s: Input operand does not have enough "
                                 "dimensions" % self.__name__)
            cut = a.ndim - len(dims)
            loop_shapes.append(a.shape[:cut])
            for name, size in zip(dims, a.shape[cut:]):
                if core.setdefault(name, size) != size:
                    raise ValueError(
                        "%s: Input operand has a mismatch in its core "
                        "dimension" % self.__name__)
        for o, dims in zip(outs, self.out_dims):
            if o is not None:
                cut = o.ndim - len(dims)
                loop_shapes.append(o.shape[:cut])
                for name, size in zip(dims, o.shape[cut:]):
                    if core.setdefault(name, size) != size:
                        raise ValueError("%s: output core dimension mismatch"
                                         % self.__name__)
        shape = np.broadcast_shapes(*loop_shapes)
        for i, (o, dims) in enumerate(zip(outs, self.out_dims)):
            if o is not None and o.shape[:o.ndim - len(dims)] != shape:
                raise ValueError("non-broadcastable output operand")
        ins = [_broadcast(a, shape + a.shape[a.ndim - len(d):])
               if a.shape[:a.ndim - len(d)] != shape else a
               for a, d in zip(ins, self.in_dims)]
        # numba passes writable buffers; keep the caller's memory shared.
        work = []
        while len(outs) < self.nout:
            outs.append(None)
        for i, (dims, d) in enumerate(zip(self.out_dims, ldt[self.nin:])):
            full = shape + tuple(core[x] for x in dims)
            o = outs[i]
            if o is None:
                o = outs[i] = np.empty(full, dtype=d)
            work.append(o if o.dtype == d else np.empty(full, dtype=d))

        index = list(np.ndindex(*shape))
        intypes = loop[:self.nin]
        outtypes = loop[self.nin:]

        def one(ix):
            row = []
            for a, t, dims in zip(ins, intypes, self.in_dims):
                if not dims and not isinstance(t, self._types.Array):
                    v = a[ix].item()
                    row.append(v)
                elif not dims:
                    row.append(a[ix + (None,)])
                else:
                    row.append(a[ix])
            for w, t, dims in zip(work, outtypes, self.out_dims):
                row.append(w[ix] if dims else w[ix + (None,)])
            self.py_func(*row)

        nthreads = 1
        if th is not None and self.target == "parallel":
            nthreads = max(1, min(sim.env.gu_threads, len(index)))
        if th is None:
            for ix in index:
                one(ix)
        elif nthreads == 1:
            th.depth += 1
            th.gu += 1
            try:
                for ix in index:
                    one(ix)
            finally:
                th.gu -= 1
                th.depth -= 1
        else:
            sim.count("parallel_row_splits")
            errors = []
            cuts = sim.env.split(len(index), nthreads)
            kids = []

            def body(part):
                def run():
                    _, me = kernel.sim_thread()
                    me.depth += 1
                    me.gu += 1
                    try:
                        for ix in part:
                            one(ix)
                    except Exception as e:  # numba: reported after the loop
                        errors.append(e)
                return run

            for a, b in zip(cuts, cuts[1:]):
                if a < b:
                    kids.append(sim.spawn(body(index[a:b]), "rows%d-%d" % (a, b)))
            sim.block(lambda: all(k.state == kernel.DONE for k in kids))
            if errors:
                raise errors[0]
        for o, w in zip(outs, work):
            if o is not w:
                o[...] = w
        return outs[0] if self.nout == 1 else tuple(outs)


def _broadcast(a, shape):
    """Like NumPy's iterator: the same memory for every row."""
    import numpy as np
    b = np.broadcast_to(a, shape)
    return np.lib.stride_tricks.as_strided(
        a, shape, b.strides, writeable=a.flags.writeable)


def guvectorize(*args, **kwargs):
    if len(args) == 1:
        sigs, layout = [], args[0]
    else:
        sigs, layout = args[0], args[1]
    if isinstance(sigs, tuple) and not isinstance(sigs[0], (tuple, str)):
        sigs = [sigs]
    target = kwargs.get("target", "cpu")

    def wrap(f):
        if isinstance(f, SimDispatcher):
            f = f.py_func
        ss = [_strip(s) for s in sigs]
        return SimGUFunc(f, ss, layout, target)
    return wrap


def _strip(s):
    return s


def vectorize(*args, **kwargs):
    import numpy as np

    def wrap(f):
        return np.vectorize(f.py_func if isinstance(f, SimDispatcher) else f)
    if len(args) == 1 and callable(args[0]):
        return wrap(args[0])
    return wrap


class Threads:
    n = 4


def install():
    import numba
    numba.njit = njit
    numba.jit = njit
    numba.guvectorize = guvectorize
    numba.vectorize = vectorize
    numba.prange = Prange
    numba.set_num_threads = lambda n: setattr(Threads, "n", int(n))
    numba.get_num_threads = lambda: Threads.n
    try:
        import numba.np.ufunc as nu
        nu.guvectorize = guvectorize
        nu.vectorize = vectorize
    except Exception:
        pass
