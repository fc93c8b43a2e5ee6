#!/usr/bin/env python
"""The simulated global sort against the installed mpsort, on the same random data.

usage: mpsort_conformance.py [PROGRAMS] [SEED]     (needs mpirun, mpi4py and mpsort)

Keys with and without ties and negative ones, records and plain integers, any number of items per
rank before and after; with ties only the keys and the set of records with each key are compared.
"""
import sys, os, random, subprocess, pickle, tempfile
ME = os.path.abspath(__file__)
ROOT = os.path.dirname(os.path.dirname(ME))
SIZES = (1, 2, 3, 4, 5)

def program(seed):
    rng = random.Random(seed)
    n = rng.choice(SIZES)
    lens = [rng.choice([0, 1, 3, 10, 40]) for i in range(n)]
    tot = sum(lens)
    cuts = sorted(rng.randrange(tot + 1) for i in range(n - 1))
    outs = [b - a for a, b in zip([0] + cuts, cuts + [tot])]
    kd = rng.choice(['u4', 'u8', 'i8', 'i4'])
    ties = rng.random() < 0.4
    keys = [rng.randrange(5) for i in range(tot)] if ties else rng.sample(range(10 * tot + 1), tot)
    return n, dict(lens=lens, outs=outs, kd=kd, ties=ties, keys=keys, record=rng.random() < 0.7, inplace=rng.random() < 0.2, seed=seed)

def execute(mpsort, numpy, comm, p):
    r = comm.rank
    a = sum(p['lens'][:r]); b = a + p['lens'][r]
    k = numpy.array(p['keys'], p['kd'])
    if p['record']:
        d = numpy.zeros(len(k), [('v', 'f8'), ('key', p['kd']), ('id', 'i4' if p['kd'].endswith('4') else 'i8')])
        d['key'] = k; d['id'] = numpy.arange(len(k)); d['v'] = d['id'] * 0.5
    else: d = k
    mine = d[a:b].copy()
    out = None if p['inplace'] else numpy.zeros(p['outs'][r], d.dtype)
    mpsort.sort(mine, orderby='key' if p['record'] else None, out=out, comm=comm)
    return mine if out is None else out

def real(first, count, n, path):
    import numpy, mpsort
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    res = {}
    for s in range(first, first + count):
        if program(s)[0] == n: res[s] = comm.gather(execute(mpsort, numpy, comm, program(s)[1]))
    if comm.rank == 0:
        with open(path, 'wb') as f: pickle.dump(res, f)

def main(count=300, first=1):
    sys.path.insert(0, ROOT)
    tmp = tempfile.mkdtemp()
    want = {}
    e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1',
             OMPI_MCA_plm='isolated', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1', OMPI_MCA_oob_tcp_if_include='lo', OMPI_MCA_hwloc_base_binding_policy='none', OMP_NUM_THREADS='1')
    for n in SIZES:
        f = os.path.join(tmp, 'r%d' % n)
        subprocess.run(['mpirun', '-n', str(n), sys.executable, ME, '--real', str(first), str(count), str(n), f], check=True, env=e, cwd='/tmp')
        with open(f, 'rb') as g: want.update(pickle.load(g))
        os.unlink(f)
    os.rmdir(tmp)
    from sim import env, harness, core, mpi, fmpsort
    import numpy
    mpi.install(); mpsort = fmpsort.install()
    bad = 0
    for s in range(first, first + count):
        n, p = program(s)
        harness.RUN = harness.Run()
        try: got = harness.run_world(n, lambda ctx: execute(mpsort, numpy, ctx.comm, p), None, None)
        except harness.RunFailure as f:
            print('program %d %s: %s' % (s, p, f)); bad += 1; continue
        ok = [len(x) for x in got] == [len(x) for x in want[s]]
        g, w = numpy.concatenate(got), numpy.concatenate(want[s])
        if ok and p['ties'] and p['record']:
            ok = (g['key'] == w['key']).all() and sorted(g.tolist(), key=lambda x: (x[1], x[2])) == sorted(w.tolist(), key=lambda x: (x[1], x[2]))
        elif ok: ok = g.tolist() == w.tolist()
        if not ok:
            bad += 1
            print('program %d %s\n  simulated %s\n  real      %s' % (s, p, got, want[s]))
    print('%d programs, %d differ' % (count, bad))
    return bad

if __name__ == '__main__':
    if sys.argv[1:2] == ['--real']: real(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    else: sys.exit(1 if main(*[int(i) for i in sys.argv[1:]]) else 0)
