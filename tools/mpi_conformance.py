#!/usr/bin/env python
"""The simulated MPI against the real one: the same random programs on both, results compared.

usage: mpi_conformance.py [PROGRAMS] [SEED]     (needs mpirun and mpi4py)

Each program is a sequence of operations on the world and on groups: object and buffer collectives
with all buffer specifications, non-blocking ones, datatypes, point to point messages, groups. All
values are integers or exactly representable, so that every order of reduction gives the same.
"""
import sys, os, random, subprocess, pickle, tempfile
ME = os.path.abspath(__file__)
ROOT = os.path.dirname(os.path.dirname(ME))

def program(seed):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 3, 4, 5])
    ops = []
    for i in range(rng.choice([3, 8, 15])):
        ops.append((rng.choice(sorted(OPS)), rng.random() < 0.3, rng.getrandbits(32)))
    return n, ops, [rng.randrange(2) for r in range(n)]

def val(numpy, rng, shape=None, dt=None):
    dt = dt or rng.choice(['i4', 'i8', 'f4', 'f8', 'c16', 'u1'])
    shape = rng.randrange(4) if shape is None else shape
    k = 1
    for s in (shape if isinstance(shape, tuple) else (shape,)): k *= s
    return numpy.array([rng.randrange(20) for i in range(k)]).astype(dt).reshape(shape)

OPS = {}
def op(f): OPS[f.__name__] = f; return f

# every operation gets the module, the communicator, a generator common to all ranks (g) and one of this rank (m)
@op
def o_bcast(M, c, g, m):
    r = g.randrange(c.size); return c.bcast({'a': [c.rank, r]} if c.rank == r else 'ignored', root=r)
@op
def o_gather(M, c, g, m):
    r = g.randrange(c.size); return c.gather((c.rank, m.random()), root=r)
@op
def o_scatter(M, c, g, m):
    r = g.randrange(c.size); return c.scatter([i * 10 for i in range(c.size)] if c.rank == r else None, root=r)
@op
def o_allgather(M, c, g, m): return c.allgather(str(c.rank))
@op
def o_alltoall(M, c, g, m): return c.alltoall([(c.rank, i) for i in range(c.size)])
@op
def o_allreduce(M, c, g, m):
    k = g.choice(['SUM', 'PROD', 'MAX', 'MIN', 'LAND', 'LOR', 'BAND', 'BOR', 'BXOR'])
    return k, c.allreduce(m.randrange(5), op=getattr(M, k))
@op
def o_allreduce_arr(M, c, g, m):
    k = g.choice(['SUM', 'PROD']); return c.allreduce(val(M.np, m, 3, 'i8'), op=getattr(M, k))
@op
def o_allreduce_misc(M, c, g, m):
    return c.allreduce([c.rank]) if g.random() < 0.5 else c.allreduce((c.rank, c.rank), op=g.choice([M.MAXLOC, M.MINLOC]))
@op
def o_reduce(M, c, g, m):
    r = g.randrange(c.size); return c.reduce(m.randrange(9), op=M.SUM, root=r)
@op
def o_scan(M, c, g, m): return c.scan(c.rank + 1), c.exscan(c.rank + 1)
@op
def o_Bcast(M, c, g, m):
    np = M.np
    r = g.randrange(c.size); a = val(np, g, (2, 3)); b = a.copy() if c.rank == r else np.zeros_like(a)
    nb = g.random() < 0.4
    k = g.randrange(3)
    if k == 1: b = np.asfortranarray(b)
    spec = [b, M.MPI._typedict[b.dtype.char]] if k == 2 else b
    if nb: M.wait(c.Ibcast(spec, root=r), m)
    else: c.Bcast(spec, root=r)
    return b
@op
def o_Allgather(M, c, g, m):
    np = M.np
    dt = g.choice(['i4', 'f8', 'c8']); k = g.randrange(3)
    a = val(np, m, k, dt); out = np.zeros((c.size, k), dt)
    mode = g.randrange(3)
    if mode == 0: c.Allgather(a, out)
    elif mode == 1: M.wait(c.Iallgather(a, out), m)
    else:
        out[c.rank] = a; c.Allgather(M.MPI.IN_PLACE, out)
    return out
@op
def o_Allgatherv(M, c, g, m):
    np = M.np
    dt = g.choice(['i4', 'f8', 'c8']); cnt = [g.randrange(4) for i in range(c.size)]
    dsp, p = [], 0
    for x in cnt: p += g.randrange(2); dsp.append(p); p += x
    out = np.zeros(p + 1, dt); a = val(np, m, cnt[c.rank], dt)
    t = M.MPI._typedict[np.dtype(dt).char]
    mode = g.randrange(4)
    if mode == 0: c.Allgatherv(a, [out, cnt, dsp, t])
    elif mode == 1: c.Allgatherv([a, t], [out, (cnt, dsp), t])
    elif mode == 2: M.wait(c.Iallgatherv(a, [out, (cnt, dsp)]), m)
    else:
        out = np.zeros(sum(cnt), dt); c.Allgatherv(a, [out, cnt])
    return out
@op
def o_Gather(M, c, g, m):
    np = M.np
    r = g.randrange(c.size); k = g.randrange(3); a = val(np, m, k, 'i8')
    out = np.zeros(c.size * k, 'i8') if c.rank == r else None
    if g.random() < 0.5: c.Gather(a, out, root=r)
    else: M.wait(c.Igather(a, out, root=r), m)
    return out
@op
def o_Gatherv(M, c, g, m):
    np = M.np
    r = g.randrange(c.size); cnt = [g.randrange(4) for i in range(c.size)]
    a = val(np, m, cnt[c.rank], 'f8'); out = np.zeros(sum(cnt), 'f8') if c.rank == r else None
    c.Gatherv(a, [out, cnt] if c.rank == r else None, root=r)
    return out
@op
def o_Scatterv(M, c, g, m):
    np = M.np
    r = g.randrange(c.size); cnt = [g.randrange(4) for i in range(c.size)]
    a = val(np, m, sum(cnt), 'f8'); out = np.zeros(cnt[c.rank])
    if g.random() < 0.5: c.Scatterv([a, cnt] if c.rank == r else None, out, root=r)
    else: M.wait(c.Iscatterv([a, cnt] if c.rank == r else None, out, root=r), m)
    return out
@op
def o_Scatter(M, c, g, m):
    np = M.np
    r = g.randrange(c.size); k = g.randrange(3); out = np.zeros(k, 'i4')
    c.Scatter(val(np, m, c.size * k, 'i4') if c.rank == r else None, out, root=r)
    return out
@op
def o_Alltoall(M, c, g, m):
    np = M.np
    k = g.randrange(3); a = val(np, m, (c.size, k), 'i4'); out = np.zeros_like(a)
    mode = g.randrange(3)
    if mode == 0: c.Alltoall(a, out)
    elif mode == 1: M.wait(c.Ialltoall(a, out), m)
    else: c.Alltoall(M.MPI.IN_PLACE, a); out = a
    return out
@op
def o_Alltoallv(M, c, g, m):
    np = M.np
    n = c.size
    mat = [[g.choice([0, 0, 1, 3]) for i in range(n)] for j in range(n)]
    s = mat[c.rank]; r = [mat[i][c.rank] for i in range(n)]
    kind = g.randrange(3)
    a = val(np, m, (sum(s), 2), 'f8'); out = np.zeros((sum(r), 2))
    t = M.MPI.DOUBLE.Create_contiguous(2)
    if kind == 1:
        t = t.Dup(); 
    t.Commit()
    so = np.concatenate([[0], np.cumsum(s)[:-1]]).astype('i4'); ro = np.concatenate([[0], np.cumsum(r)[:-1]]).astype('i4')
    if g.random() < 0.6: c.Alltoallv([a, (np.array(s, 'i4'), so), t], [out, (np.array(r, 'i4'), ro), t])
    else: M.wait(c.Ialltoallv([a, (s, so), t], [out, (r, ro), t]), m)
    t.Free()
    return out
@op
def o_Reduce(M, c, g, m):
    np = M.np
    k = g.choice(['SUM', 'MAX', 'MIN', 'PROD']); dt = g.choice(['i4', 'i8', 'f8']); a = val(np, m, 3, dt)
    r = g.randrange(c.size)
    mode = g.randrange(6)
    out = np.zeros_like(a); o = getattr(M.MPI, k)
    if mode == 0: c.Allreduce(a, out, op=o)
    elif mode == 1: c.Allreduce(M.MPI.IN_PLACE, a, op=o); out = a
    elif mode == 2: M.wait(c.Iallreduce(a, out, op=o), m)
    elif mode == 3: c.Reduce(a, out if c.rank == r else None, op=o, root=r)
    elif mode == 4: c.Scan(a, out, op=o)
    else:
        c.Exscan(a, out, op=o)
    return out
@op
def o_reduce_scatter(M, c, g, m):
    np = M.np
    o = getattr(M.MPI, g.choice(['SUM', 'MAX'])); dt = g.choice(['i4', 'f8'])
    mode = g.randrange(3)
    cnt = [g.randrange(3) for i in range(c.size)] if mode else [2] * c.size
    a = val(np, m, sum(cnt), dt); out = np.zeros(cnt[c.rank], dt)
    if mode == 0: c.Reduce_scatter_block(a, out, op=o)
    elif mode == 1: c.Reduce_scatter(a, out, cnt, op=o)
    else: c.Reduce_scatter(a, out, op=o)
    return out
@op
def o_pairs(M, c, g, m):
    np = M.np
    n = c.size; k = 1 + g.randrange(3); mode = g.randrange(6); cnt = g.randrange(4)
    to, fr = (c.rank + k) % n, (c.rank - k) % n
    a = np.full(cnt, c.rank, 'i4'); b = np.zeros(cnt, 'i4')
    if mode == 0: return c.sendrecv(c.rank, dest=to, source=fr)
    if mode == 1: c.Sendrecv(a, dest=to, sendtag=3, recvbuf=b, source=fr, recvtag=3); return b
    if mode == 2:
        q = c.Irecv(b, source=fr, tag=4); p = c.Isend(a, dest=to, tag=4)
        M.MPI.Request.Waitall([p, q]); return b
    if mode == 3:
        p = c.isend(('x', c.rank), dest=to, tag=1); v = c.recv(source=fr, tag=1); p.wait(); return v
    if mode == 4:
        c.Sendrecv_replace(a, dest=to, source=fr); return a
    q = c.Irecv(b, source=fr, tag=4); st = M.MPI.Status()
    c.Isend(a, dest=to, tag=4).Wait(); q.Wait(st)
    return b, st.Get_source(), st.Get_tag(), st.Get_count(M.MPI.INT)
@op
def o_any(M, c, g, m):
    if c.rank == 0:
        st = M.MPI.Status(); out = []
        for i in range(1, c.size):
            v = c.recv(source=M.MPI.ANY_SOURCE, tag=7, status=st); out.append((st.Get_source(), v))
        out.sort()
    else: c.send([c.rank] * 2, dest=0, tag=7)
    c.Barrier()
    return out if c.rank == 0 else None
@op
def o_order(M, c, g, m):
    # messages of one sender do not overtake each other; tags are matched
    if c.size < 2: return
    if c.rank == 0:
        p = [c.isend(i, dest=1, tag=i % 2) for i in range(6)]
        M.MPI.Request.waitall(p)
    if c.rank == 1: return [c.recv(source=0, tag=1), c.recv(source=0, tag=M.MPI.ANY_TAG), c.recv(source=0, tag=M.MPI.ANY_TAG), c.recv(source=0, tag=1), c.recv(source=0), c.recv(source=0)]
@op
def o_dup(M, c, g, m):
    d = c.Dup(); v = d.allgather(d.rank), d.size, d == c, M.MPI.Comm.Compare(d, c) == M.MPI.CONGRUENT if hasattr(M.MPI.Comm, 'Compare') and not M.sim else True
    d.Free(); return v
@op
def o_split(M, c, g, m):
    d = c.Split(m.randrange(2), m.randrange(3) * 10 + c.rank); v = d.rank, d.size, d.allgather(c.rank); d.Free(); return v
@op
def o_undef(M, c, g, m):
    d = c.Split(0 if c.rank % 2 else M.MPI.UNDEFINED, -c.rank)
    return None if d == M.MPI.COMM_NULL else (d.rank, d.allgather(c.rank), d.Free())
@op
def o_group(M, c, g, m):
    gr = c.Get_group(); k = sorted(g.sample(range(c.size), g.randrange(1, c.size + 1)))
    h = gr.Incl(k); e = gr.Excl(k)
    v = [h.rank, h.size, e.rank, e.size, M.MPI.Group.Translate_ranks(h, list(range(h.size)), gr), M.MPI.Group.Union(h, e).size]
    d = c.Create(h)
    v.append(d != M.MPI.COMM_NULL)
    if d != M.MPI.COMM_NULL: v.append(d.allgather(c.rank)); d.Free()
    return v
@op
def o_barrier(M, c, g, m):
    c.Barrier(); r = c.Ibarrier(); r.Wait(); c.barrier()
@op
def o_many(M, c, g, m):
    # several collectives of one communicator under way
    np = M.np
    a = [val(np, m, 2, 'i8') for i in range(3)]; b = [np.zeros(2, 'i8') for i in range(3)]
    p = [c.Iallreduce(x, y) for x, y in zip(a, b)]
    v = c.allgather(c.rank)
    M.MPI.Request.Waitall(p)
    return v, b
@op
def o_errors(M, c, g, m):
    """what is refused, and how"""
    np = M.np; out = []
    def t(f):
        try: f(); out.append('fine')
        except (ValueError, TypeError, KeyError, BufferError, AttributeError, pickle.PicklingError, M.MPI.Exception) as e: out.append('refused')
    s = c.Split(c.rank, 0)
    t(lambda: s.Allreduce(np.zeros((4, 4))[:, ::2], np.zeros((4, 2))))
    t(lambda: s.Bcast(np.zeros(2, object)))
    t(lambda: s.Bcast(np.zeros(2, [('a', 'f8'), ('b', 'i4')])))
    ro = np.zeros(2); ro.flags.writeable = False
    t(lambda: s.Allreduce(ro, np.zeros(2))); t(lambda: s.Allreduce(np.zeros(2), ro))
    t(lambda: s.scatter([1, 2], root=0)); t(lambda: s.alltoall([])); t(lambda: s.alltoall([1, 2]))
    t(lambda: s.Allgather(3.0, np.zeros(1))); t(lambda: s.bcast(1, root=0)); t(lambda: s.bcast(lambda: 0))
    t(lambda: s.Allreduce(np.float64(3.0), np.zeros(1)))
    t(lambda: s.Alltoallv([np.zeros(2), ([2], [0])], [np.zeros(2), ([2], [0])]))
    t(lambda: s.Alltoallv([np.zeros(2), ([2, 3], [0])], [np.zeros(2), ([2], [0])]))
    t(lambda: s.Bcast(np.zeros(2, 'S3'))); t(lambda: s.Bcast(np.zeros(2, '>f8'))); t(lambda: s.Bcast(np.zeros(2, 'f2'))); t(lambda: s.Bcast(np.zeros(2, 'M8[s]'))); 
    t(lambda: s.Bcast(np.zeros(2, '?'))); t(lambda: s.Bcast(np.zeros(2, 'g'))); t(lambda: s.Bcast(bytearray(3))); t(lambda: s.Bcast(b'abc')); t(lambda: s.Bcast([1.0, 2.0]))
    s.Free()
    t(lambda: s.rank); t(lambda: s.Barrier())
    return out

class Env(object):
    def __init__(self, MPI, numpy, sim): self.MPI, self.np, self.sim = MPI, numpy, sim
    def __getattr__(self, k): return getattr(self.MPI, k)
    def wait(self, r, m):
        k = m.randrange(4)
        if k == 0: r.Wait()
        elif k == 1:
            while not r.Test(): pass
        elif k == 2: self.MPI.Request.Waitall([r])
        else: self.MPI.Request.Waitany([r])

def execute(MPI, numpy, comm, seed, sim):
    n, ops, colors = program(seed)
    M = Env(MPI, numpy, sim)
    M.MPI = MPI
    out = []
    grp = comm.Split(colors[comm.rank], comm.rank)
    for i, (name, group, s) in enumerate(ops):
        c = grp if group else comm
        g = random.Random(s * 2 + (colors[comm.rank] if group else 0)); m = random.Random(s * 1000 + comm.rank)
        out.append((name, c.size, OPS[name](M, c, g, m)))
    grp.Free()
    return out

def plain(x):
    import numpy
    if isinstance(x, numpy.ndarray): return ('arr', x.dtype.str, x.shape, x.tolist())
    if isinstance(x, numpy.generic): return ('sc', x.dtype.str, x.item())
    if isinstance(x, (list, tuple)): return [type(x).__name__] + [plain(i) for i in x]
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    return x

def real(first, count, n, path):
    import numpy
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    res = {}
    for s in range(first, first + count):
        if program(s)[0] == n:
            d = comm.Dup()
            res[s] = d.allgather(plain(execute(MPI, numpy, d, s, False)))
            d.Free()
    if comm.rank == 0:
        with open(path, 'wb') as f: pickle.dump(res, f)

def main(count=300, first=1, schedules=4):
    sys.path.insert(0, ROOT)
    tmp = tempfile.mkdtemp()
    want = {}
    e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1',
             OMPI_MCA_plm='isolated', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1', OMPI_MCA_oob_tcp_if_include='lo', OMPI_MCA_hwloc_base_binding_policy='none', OMP_NUM_THREADS='1')
    for n in (1, 2, 3, 4, 5):
        f = os.path.join(tmp, 'r%d' % n)
        subprocess.run(['mpirun', '-n', str(n), sys.executable, ME, '--real', str(first), str(count), str(n), f], check=True, env=e, cwd='/tmp')
        with open(f, 'rb') as g: want.update(pickle.load(g))
        os.unlink(f)
    os.rmdir(tmp)
    from sim import env, harness, core
    import numpy
    from sim import mpi
    mpi.install()
    MPI = sys.modules['mpi4py.MPI']
    bad = 0; seen = {}
    for s in range(first, first + count):
        n = program(s)[0]
        for o in program(s)[1]: seen[o[0]] = seen.get(o[0], 0) + 1
        for sched in range(schedules):
            rng = random.Random(s * 100 + sched)
            case = dict(swarm=harness.swarm(rng, n))
            ch = harness.choices_for(case, rng.getrandbits(40)) if sched else None
            harness.RUN = harness.Run()
            try: got = harness.run_world(n, lambda ctx: plain(execute(MPI, numpy, ctx.comm, s, True)), ch, harness.params_of(case) if ch else None)
            except harness.RunFailure as f:
                print('program %d schedule %d: %s' % (s, sched, f)); bad += 1; break
            if got != want[s]:
                for r in range(n):
                    for a, b in zip(got[r][1:], want[s][r][1:]):
                        if a != b: print('program %d schedule %d rank %d\n  simulated %s\n  real      %s' % (s, sched, r, a, b)); break
                bad += 1; break
    print('%d programs, %d schedules each, %d differ; operations %s' % (count, schedules, bad, seen))
    return bad

if __name__ == '__main__':
    if sys.argv[1:2] == ['--real']: real(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    else: sys.exit(1 if main(*[int(i) for i in sys.argv[1:]]) else 0)
