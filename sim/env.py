"""Installs the simulated environment into this process."""
import os, sys, warnings
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[k] = '1'
LOADER = None
def install(build, show='/repo'):
    global LOADER
    if LOADER is not None: return LOADER
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(show)]
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    from . import mpi, fpfft, fmpsort, loader, poison, simtime
    mpi.install(); fpfft.install(); fmpsort.install(); poison.install(); simtime.install()
    LOADER = loader.install(build, show)
    return LOADER
