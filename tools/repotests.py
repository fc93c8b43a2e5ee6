#!/usr/bin/env python
"""The repository's own MPI tests, run in the simulator under several schedules each: what holds on
one real run must hold on every simulated one (or the simulator is wrong).

usage: BUILD=dir repotests.py [SCHEDULES] [SEED] [FILE...]
"""
import sys, os, random, types, time, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim import env, harness, core
env.install(os.environ.get('BUILD', '/tmp/w/b'))
FILES = ['test_domain', 'test_pm', 'test_lic', 'test_gradient']
KNOWN = {}

def stub():
    m = types.ModuleType('runtests.mpi'); p = types.ModuleType('runtests'); p.mpi = m
    def MPITest(commsize):
        def dec(f):
            f.commsize = tuple(commsize) if isinstance(commsize, (tuple, list)) else (commsize,)
            return f
        return dec
    m.MPITest = MPITest
    sys.modules['runtests'] = p; sys.modules['runtests.mpi'] = m

def load(code, name):
    m = types.ModuleType('repotest_' + name); m.__package__ = 'pmesh.tests'
    exec(code, m.__dict__)
    return m

def main(schedules=3, seed=1, *files):
    stub()
    import pytest
    bad = 0; ran = 0; t0 = time.time()
    for f in files or FILES:
        path = '/repo/pmesh/tests/%s.py' % f
        with open(path) as g: code = compile(g.read(), path, 'exec')
        names = {}
        def find(ctx):
            m = load(code, f)
            return {k: v.commsize for k, v in m.__dict__.items() if hasattr(v, 'commsize') and not any(x.name == 'skipif' for x in getattr(v, 'pytestmark', []))}
        harness.RUN = harness.Run()
        names = harness.run_world(1, find)[0]
        for k, sizes in names.items():
            for n in sizes:
                for s in range(schedules):
                    rng = random.Random('%s %s %d %d %d' % (f, k, n, s, seed))
                    case = dict(swarm=harness.swarm(rng, n))
                    ch = harness.choices_for(case, rng.getrandbits(40)) if s else None
                    harness.RUN = harness.Run()
                    def go(ctx):
                        import numpy
                        numpy.random.seed(4321)
                        m = load(code, f)
                        try: getattr(m, k)(comm=ctx.comm)
                        except pytest.skip.Exception: pass
                    ran += 1
                    try: harness.run_world(n, go, ch, harness.params_of(case) if ch else None)
                    except harness.RunFailure as e:
                        print('%s %s n=%d schedule %d: %s' % (f, k, n, s, str(e)[-1500:])); bad += 1
                        break
        print('%s: %d runs, %d failures, %.0f s' % (f, ran, bad, time.time() - t0), flush=True)
    return bad

if __name__ == '__main__':
    a = sys.argv[1:]
    sys.exit(1 if main(*[int(i) for i in a[:2]], *a[2:]) else 0)
