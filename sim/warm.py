"""Parallel warm-up of numba's on-disk cache for the package under test.

The package compiles ~80 kernels eagerly at import (about a minute on one core).  N child processes
each import the package with `numba.njit` wrapped so that only every N-th eagerly-typed kernel is
really compiled there (the others are left lazy); all of them write to one cache directory, which the
real, unpatched import then reads.  Only compilation is distributed: the checks import the package
unpatched, and a kernel missing from the cache is compiled as usual.
"""
import os, sys, subprocess

CHILD = r'''
import sys, numba
k, n = int(sys.argv[1]), int(sys.argv[2])
real = numba.njit
count = [0]
def njit(*args, **kw):
    eager = bool(args) and not callable(args[0]) or 'signature_or_function' in kw
    if not eager or not kw.get('cache'):
        return real(*args, **kw)
    count[0] += 1
    if (count[0] % n) == k:
        return real(*args, **kw)
    return real(**{a: b for a, b in kw.items() if a != 'signature_or_function'})
import pipedream_solver.ngeometry
numba.njit = njit
import pipedream_solver.nutils, pipedream_solver.nsuperlink
'''

def warm(env, n=8):
    # geometry first, once: every other kernel calls into it
    subprocess.run([sys.executable, '-c', 'import pipedream_solver.ngeometry'], env=env, check=False,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ps = [subprocess.Popen([sys.executable, '-c', CHILD, str(k), str(n)], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k in range(n)]
    for p in ps:
        p.wait()


def import_package():
    """Import the package with kernels that would be compiled at first use kept in the on-disk cache too, so that
    they are compiled once and not in every process."""
    import importlib, numba
    real = numba.njit

    def njit(*args, **kw):
        if len(args) == 1 and callable(args[0]) and not kw:
            return real(cache=True)(args[0])
        return real(*args, **kw)
    numba.njit = njit
    try:
        for name in ('ngeometry', 'nutils', 'nsuperlink', 'nquality', 'simulation', 'ninfiltration', 'hydraulics', 'hydrology', 'transport'):
            try:
                importlib.import_module('pipedream_solver.' + name)
            except Exception:
                pass        # reported by the check that needs it
    finally:
        numba.njit = real
