#!/usr/bin/env python
"""The simulated pfft against the installed one: the same partitions and transforms on both.

usage: pfft_conformance.py [PROGRAMS] [SEED]     (needs mpirun, mpi4py and pfft)

A program is a mesh, a process mesh, a type and the flags that ParticleMesh uses. Compared are the
local shapes, starts, strides and types of both sides of the partition, and the result of the four
plans (forward and backward, in place and not) on data that depends on the global index only.
Not compared: the order of the ranks in the cartesian communicator (the simulator permutes it; here
it is left alone), the alloc_local of the buffers, what is left in a destroyed input, and i_edges and
o_edges, which the installed 0.1.12 gives padded and in another order than the version that this
pmesh is written for.
"""
import sys, os, random, subprocess, pickle, tempfile, itertools
ME = os.path.abspath(__file__)
ROOT = os.path.dirname(os.path.dirname(ME))
SIZES = (1, 2, 3, 4, 6, 8)

def program(seed):
    rng = random.Random(seed)
    n = rng.choice(SIZES)
    nd = rng.choice([2, 3, 3, 3, 4])
    shape = [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12][:10 if nd < 4 else 6]) for i in range(nd)]
    k = rng.randrange(1, nd)
    nps = [t for t in itertools.product(range(1, n + 1), repeat=k) if eval('*'.join(map(str, t))) == n]
    return n, dict(shape=shape, np=list(rng.choice(nps)), type=rng.choice(['PFFT_R2C', 'PFFTF_R2C', 'PFFT_C2C', 'PFFTF_C2C']), T=rng.random() < 0.5, inplace=rng.random() < 0.5, seed=seed)

def back(t): return {'PFFT_R2C': 'PFFT_C2R', 'PFFTF_R2C': 'PFFTF_C2R'}.get(t, t)

def execute(pfft, numpy, comm, p):
    F, T, D = pfft.Flags, pfft.Type, pfft.Direction
    pm = pfft.ProcMesh(p['np'], comm=comm)
    pad = F.PFFT_PRESERVE_INPUT | F.PFFT_PADDED_R2C | F.PFFT_PADDED_C2R
    pfl = pad | (F.PFFT_TRANSPOSED_OUT if p['T'] else 0)
    bfl = pad | (F.PFFT_TRANSPOSED_IN if p['T'] else 0)
    part = pfft.Partition(getattr(T, p['type']), p['shape'], pm, pfl)
    a = pfft.LocalBuffer(part)
    b = a if p['inplace'] else pfft.LocalBuffer(part)
    f = pfft.Plan(part, D.PFFT_FORWARD, a, b, getattr(T, p['type']), F.PFFT_ESTIMATE | pfl)
    g = pfft.Plan(part, D.PFFT_BACKWARD, b, a, getattr(T, back(p['type'])), F.PFFT_ESTIMATE | bfl)
    i, o = a.view_input(), b.view_output()
    L = lambda x: [int(k) for k in x]
    empty = lambda s: 0 in L(s)
    geo = dict(this=L(pm.this) if len(p['np']) < 3 else None, np=L(pm.np),
               ish=L(part.local_i_shape), osh=L(part.local_o_shape), vi=(i.dtype.str, L(i.shape)), vo=(o.dtype.str, L(o.shape)),
               ist=None if empty(part.local_i_shape) else L(part.local_i_start), ost=None if empty(part.local_o_shape) else L(part.local_o_start),
               istr=None if empty(part.local_i_shape) else L(i.strides), ostr=None if empty(part.local_o_shape) else L(o.strides))
    geo['starts'] = L(part.local_i_start), L(part.local_o_start)
    rng = numpy.random.RandomState(p['seed'] % 2 ** 31)
    whole = rng.randint(-8, 9, size=p['shape']).astype('f8')
    if 'C2C' in p['type']: whole = whole + 1j * rng.randint(-8, 9, size=p['shape'])
    sl = tuple(slice(x, x + y) for x, y in zip(part.local_i_start, part.local_i_shape))
    i[...] = whole[sl]
    f.execute(a, b)
    fwd = numpy.array(o, 'c16')
    kept = None if p['inplace'] else bool((i == whole[sl]).all())
    # a backward transform of something that is not the result of the forward one: symmetric where it must be
    w2 = rng.randint(-8, 9, size=p['shape']).astype('f8')
    if 'C2C' in p['type']: w2 = w2 + 1j * rng.randint(-8, 9, size=p['shape'])
    c = numpy.fft.fftn(w2) if 'C2C' in p['type'] else numpy.fft.rfftn(w2)
    o[...] = c[tuple(slice(x, x + y) for x, y in zip(part.local_o_start, part.local_o_shape))]
    g.execute(b, a)
    bwd = numpy.array(i, 'c16')
    return geo, kept, fwd, bwd

def real(first, count, n, path):
    import numpy, pfft
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    res = {}
    for s in range(first, first + count):
        if program(s)[0] == n:
            d = comm.Dup()
            res[s] = d.gather(execute(pfft, numpy, d, program(s)[1]))
            d.Free()
    if comm.rank == 0:
        with open(path, 'wb') as f: pickle.dump(res, f)

def main(count=300, first=1):
    sys.path.insert(0, ROOT)
    tmp = tempfile.mkdtemp()
    want = {}
    e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1',
             OMPI_MCA_plm='isolated', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1', OMPI_MCA_oob_tcp_if_include='lo', OMPI_MCA_hwloc_base_binding_policy='none', OMP_NUM_THREADS='1')
    for n in SIZES:
        f = os.path.join(tmp, 'r%d' % n)
        subprocess.run(['mpirun', '-n', str(n), sys.executable, ME, '--real', str(first), str(count), str(n), f], check=True, env=e, cwd='/tmp')
        with open(f, 'rb') as g: want.update(pickle.load(g))
        os.unlink(f)
    os.rmdir(tmp)
    from sim import env, harness, core, mpi, fpfft
    import numpy
    mpi.install(); fpfft.install()
    pfft = sys.modules['pfft']
    bad = 0; notkept = 0
    for s in range(first, first + count):
        n, p = program(s)
        harness.RUN = harness.Run()
        try: got = harness.run_world(n, lambda ctx: execute(pfft, numpy, ctx.comm, p), None, None)
        except harness.RunFailure as f:
            print('program %d %s: %s' % (s, p, f)); bad += 1; continue
        for r in range(n):
            a, b = got[r], want[s][r]
            tol = 1e-3 if 'PFFTF' in p['type'] else 1e-9
            ok = a[0] == b[0] and all(x.shape == y.shape and numpy.allclose(x, y, rtol=tol, atol=tol * 100) for x, y in zip(a[2:], b[2:]))
            if b[1] is False: notkept += 1
            if a[1] and not b[1]: ok = False
            if not ok:
                bad += 1
                print('program %d %s rank %d' % (s, p, r))
                print('  simulated %s %s' % a[:2]); print('  real      %s %s' % b[:2])
                for name, x, y in zip(('forward', 'backward'), a[2:], b[2:]):
                    if x.shape == y.shape and x.size: print('  %s differs by %g' % (name, abs(x - y).max()))
                break
    print('%d programs, %d differ; inputs that the real one did not keep: %d' % (count, bad, notkept))
    return bad

if __name__ == '__main__':
    if sys.argv[1:2] == ['--real']: real(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    else: sys.exit(1 if main(*[int(i) for i in sys.argv[1:]]) else 0)
