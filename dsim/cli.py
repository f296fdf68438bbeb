"""Command line: check / replay / selftest."""
from __future__ import annotations

import os
import sys

ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONDONTWRITEBYTECODE": "1", "DSIM_CHILD": "1",
       "NUMBA_NUM_THREADS": "4"}


def reexec():
    """Fixed environment and, where allowed, no address randomisation."""
    if os.environ.get("DSIM_CHILD") == "1":
        return
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        old = libc.personality(0xffffffff)
        if old != -1:
            libc.personality(old | 0x0040000)
    except Exception:
        pass
    env = dict(os.environ)
    keep = env.get("DSIM_HASHSEED")
    env.update(ENV)
    if keep:
        env["PYTHONHASHSEED"] = keep
    os.execve(sys.executable, [sys.executable, "-m", "dsim.cli"] + sys.argv[1:],
              env)


def main():
    if len(sys.argv) < 2:
        print("usage: check PROP [--tier T] [--runs N] | replay FILE | selftest")
        return 2
    cmd = sys.argv[1]
    args = sys.argv[2:]

    def opt(name, default=None):
        if name in args:
            i = args.index(name)
            v = args[i + 1]
            del args[i:i + 2]
            return v
        return default

    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    except ValueError:
        seed = 1
    runs = opt("--runs")
    lanes = opt("--lanes")
    wall = opt("--wall")
    mini = opt("--minimise", "75")
    from . import boot
    engine = boot.boot()
    from . import runner
    if cmd == "check":
        print("seed %d" % seed)
        return runner.check(engine, args[0], tier, seed,
                            n=int(runs) if runs else None,
                            lanes=int(lanes) if lanes else None,
                            wall=float(wall) if wall else None,
                            minimise_s=float(mini))
    if cmd == "replay":
        return runner.replay(engine, args[0])
    if cmd == "selftest":
        from . import selftest
        return selftest.main(engine, args, seed, int(runs or 40),
                             int(lanes or 8))
    print("unknown command " + cmd)
    return 2


if __name__ == "__main__":
    reexec()
    try:
        code = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
