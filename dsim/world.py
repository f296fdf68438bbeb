"""Importing dcor from /repo's working tree, once for the simulated parent
process and several times more for simulated worker processes, whose module
state is private (as in real worker processes)."""
from __future__ import annotations

import importlib
import io
import os
import pickle
import sys

from . import settings

IMPORT_DIFF = []        # settings changed by importing dcor
REPO = os.environ.get("DSIM_REPO", "/repo")


def _ours(name):
    return name == "dcor" or name.startswith("dcor.")


class World:
    def __init__(self, modules):
        self.modules = modules
        self.dcor = modules["dcor"]

    def __enter__(self):
        self._saved = {k: m for k, m in sys.modules.items() if _ours(k)}
        for k in self._saved:
            del sys.modules[k]
        sys.modules.update(self.modules)

    def __exit__(self, *a):
        new = {k: m for k, m in sys.modules.items() if _ours(k)}
        self.modules.update(new)
        for k in new:
            del sys.modules[k]
        sys.modules.update(self._saved)

    def loads(self, blob, mapped):
        up = pickle.Unpickler(io.BytesIO(blob))
        up.persistent_load = mapped
        with self:
            return up.load()

    def dumps(self, obj):
        import cloudpickle
        with self:
            return cloudpickle.dumps(obj)


def load(n_workers=0):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # what dcor depends on is loaded first
    import array_api_compat.numpy  # noqa: F401
    import scipy.spatial  # noqa: F401
    import scipy.stats  # noqa: F401
    before = settings.global_part(), settings.thread_part()
    import dcor
    IMPORT_DIFF[:] = settings.diff(before[0], settings.global_part()) \
        + settings.diff(before[1], settings.thread_part())
    if not os.path.realpath(dcor.__file__).startswith(
            os.path.realpath(REPO) + "/"):
        raise RuntimeError("imported dcor from %s" % dcor.__file__)
    main = {k: m for k, m in sys.modules.items() if _ours(k)}
    worlds = []
    for _ in range(n_workers):
        for k in main:
            sys.modules.pop(k, None)
        importlib.import_module("dcor")
        mods = {k: m for k, m in sys.modules.items() if _ours(k)}
        for k in mods:
            sys.modules.pop(k, None)
        worlds.append(World(mods))
    sys.modules.update(main)
    return dcor, worlds
