"""Brings the simulator up: seams first, then the libraries, then dcor."""
from __future__ import annotations

import os
import sys


def boot(n_worlds=8):
    from . import seams
    seams.install()
    import numpy  # noqa: F401
    from . import numba_seam
    numba_seam.install()
    import joblib  # noqa: F401
    from . import joblib_seam
    joblib_seam.install()
    import joblib.externals.loky.process_executor  # noqa: F401
    import array_api_strict  # noqa: F401
    import cloudpickle  # noqa: F401
    import scipy.stats  # noqa: F401
    from . import world, engine
    engine.DCOR, engine.WORLDS = world.load(n_worlds)
    from . import checks, gens, tracer  # noqa: F401
    tracer.arm()
    import gc
    gc.collect()
    gc.freeze()
    return engine
