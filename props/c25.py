"""Every rank makes the same collective calls, however work is distributed; operations end and leave nothing behind."""
import gc
from .meshcase import *
from .c12 import TYPES
from . import c08
SHRINK = {'ops': 1, 'pts': 0}
MORE = ['paint_vjp', 'readout_vjp', 'paint_jvp', 'cdot_vjp', 'c2r_vjp', 'r2c_vjp', 'decompress', 'apply', 'slabs', 'ugrid', 'coords', 'primary', 'balance', 'lic', 'coarray', 'respawn', 'create', 'legacy', 'grid2', 'chain', 'numpyops', 'field_exchange', 'rotator', 'timer', 'fromroot', 'repeat']
def gen(rng, tier, index):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9])
    case = gen_mesh(rng, n=n, ndims=(2, 2, 3) if n > 1 else (1, 2, 3), most=250)
    nd = len(case['N'])
    box = boxsize(case)
    if rng.random() < 0.35:
        # few cells for many ranks
        d = rng.randrange(nd); case['N'][d] = rng.choice([1, 1, 2, 3])
    where = rng.choice(['none', 'one', 'one', 'last', 'random', 'random', 'few'])
    spread = rng.choice(['uniform', 'uniform', 'point', 'plane', 'edge', 'outside'])
    total = 0 if where == 'none' else rng.choice([1, 2, 6, 12, 20])
    if where == 'few': total = rng.choice([1, 2])
    home = rng.randrange(n)
    pts = []
    x0 = [rng.random() for d in range(nd)]
    for i in range(total):
        r = home if where == 'one' else n - 1 if where == 'last' else rng.randrange(n)
        x = [rng.random() for d in range(nd)]
        if spread == 'point': x = list(x0)
        elif spread == 'plane': x[0] = x0[0]
        elif spread == 'edge': x = [rng.choice([0, 0.5, 1, 1 - 2.0 ** -30, 2.0 ** -30]) for d in range(nd)]
        elif spread == 'outside': x = [v * 4 - 2 for v in x]
        pts.append([r] + [float(v * b) for v, b in zip(x, box)])
    case['pts'] = pts
    ops = []
    for i in range(rng.choice([1, 2, 3, 4, 6])):
        o = rng.choice(c08.OPS + MORE)
        if not is_real(case) and o in ('upsample', 'downsample', 'transpose', 'paint', 'readout', 'jvp', 'paint_vjp', 'readout_vjp', 'paint_jvp', 'decompress', 'lic', 'chain', 'legacy'): o = rng.choice(['r2c', 'exchange', 'gather', 'apply', 'slabs'])
        ops.append(dict(op=o, kind=rng.choice(TYPES), to=rng.choice(TYPES), mode=rng.choice(['sum', 'mean', 'any', 'all', 'local', 'max']), pack=rng.random() < 0.5, ncol=rng.choice([1, 1, 2, 3]), hold=rng.random() < 0.5, out=rng.choice(['none', 'new', 'old']), window=rng.choice(NARROW + [None]),
            layout=rng.random() < 0.8, gradient=rng.randrange(nd) if rng.random() < 0.3 else None, index=[rng.randrange(8) for d in range(nd)], value=[round(rng.uniform(-3, 3), 3), round(rng.uniform(-3, 3), 3)], axes=rng.sample(range(nd), nd),
            M=[rng.randrange(1, 9) for d in range(nd)], seed=rng.randrange(1 << 20), dtype=rng.choice(['f8', 'f8', 'i4', 'c16']), smoothing=rng.choice([None, 'cic', 'tsc', 0.5, 2.5, 30.0]), late=[rng.choice([0, 0, 0, 1, 3, 8]) for r in range(n)] if rng.random() < 0.5 else [0] * n,
            metric=rng.random() < 0.5, edges=[sorted(rng.choice([0, 0.25, 0.5, 0.75, 1, 0.3]) for j in range(rng.choice([0, 1, 2, 4]))) for d in range(nd)], periodic=rng.random() < 0.7))
    case['ops'] = ops
    case['swarm'] = swarm(rng, n)
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        alt = [('ncol', 1), ('pack', False), ('hold', False), ('out', 'none'), ('gradient', None), ('smoothing', None), ('dtype', 'f8'), ('window', None), ('late', [0] * 9)]
        for k, v in alt:
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])

def more(ctx, case, op, env):
    """operations beyond those of c08"""
    pm, pos, mass, grid = env['pm'], env['pos'], env['mass'], env['grid']
    o, kind = op['op'], op['kind']
    nd = len(case['N'])
    def field(k=kind, s=0):
        return set_local(pm.create(k), global_field(case, (op['seed'], s), 'real' if k == 'real' else 'complex'))
    lay = env['wide']
    ckind = kind if kind != 'real' else 'transposedcomplex'
    kw = dict(resampler=op['window'], layout=lay)
    rs = nprng('c25', op['seed'], ctx.rank)
    if o == 'paint_vjp':
        v = field('real')
        return lambda: pm.paint_vjp(v, pos, mass=mass if op['hold'] else 1.0, **kw)
    if o == 'readout_vjp':
        f = field('real')
        return lambda: f.readout_vjp(pos, rs.uniform(size=len(pos)), **kw)
    if o == 'paint_jvp':
        return lambda: pm.paint_jvp(pos, mass=mass, v_pos=0.1 + 0 * pos if op['hold'] else None, v_mass=mass * 2 if op['pack'] or not op['hold'] else None, **kw)
    if o == 'cdot_vjp':
        f = field(ckind)
        return lambda: f.cdot_vjp(0.5, metric=(lambda k: 1 / (1 + k)) if op['metric'] else None)
    if o == 'c2r_vjp':
        f = field('real')
        return lambda: f.c2r_vjp(out=pm.create(ckind) if op['out'] != 'none' else None)
    if o == 'r2c_vjp':
        f = field(ckind)
        return lambda: f.r2c_vjp()
    if o == 'decompress':
        f = field(ckind)
        return lambda: f.decompress_vjp(out=Ellipsis if op['out'] == 'old' else None)
    if o == 'apply':
        f = field()
        def run():
            r = f.apply(lambda x, v: v * (1 + sum(i * i for i in x)), out=Ellipsis if op['out'] == 'old' else None)
            return r.csum() if kind == 'real' else r.cnorm() if nd else None
        return run
    if o == 'slabs':
        f = field()
        def run():
            t = 0.0
            for x, s in zip(f.slabs.x, f.slabs): t = t + abs(numpy.asarray(s)).sum()
            return ctx.comm.allreduce(t)
        return run
    if o == 'ugrid':
        def run():
            q, i = pm.generate_uniform_particle_grid(shift=0.5 if op['hold'] else None, return_id=True)
            l = pm.decompose(q)
            return l.exchange(i)
        return run
    if o == 'coords':
        def run():
            c = pm.mesh_coordinates(dtype='f4' if op['hold'] else None)
            return ctx.comm.allreduce(len(c))
        return run
    if o == 'primary':
        return lambda: ctx.comm.allreduce(int(grid.isprimary(pos, transform=lambda x: x * (pm.Nmesh / pm.BoxSize)).sum()))
    if o in ('balance', 'grid2'):
        G = ctx.mod('domain').GridND
        def run():
            if o == 'grid2':
                L = pm.BoxSize
                g = G([numpy.array([0.0] + [e * L[d] for e in op['edges'][d]] + [L[d]]) for d in range(nd)], comm=ctx.comm, periodic=op['periodic'])
            else: g = G.uniform(pm.BoxSize, comm=ctx.comm, periodic=op['periodic'])
            p = pos
            if not op['periodic']: p = numpy.remainder(pos, pm.BoxSize)
            l = g.decompose(p, smoothing=op['smoothing'] if isinstance(op['smoothing'], float) else 0)
            x = l.exchange(p)
            if op['hold']:
                g.loadbalance(g.load(p))
                l2 = g.decompose(p)
                y = l2.gather(l2.exchange(mass), mode='sum')
            return l.gather(x[:, 0], mode='any') if len(x) or True else None
        return run
    if o == 'lic':
        L = ctx.mod('lic')
        def run():
            v = [field('real', d) for d in range(nd)]
            return L.lic(v, lambda s: 1.0, length=1.0, ds=0.5, texture=field('real', 9) if op['hold'] else None, normalize=op['pack'])
        return run
    if o == 'coarray':
        C = ctx.mod('coarray').coarray
        def run():
            a = C.fromarray(ctx.comm, numpy.arange(6.) + 10 * ctx.rank)
            if rs.uniform() < 0.7: a[1:3] = a(rs.randint(ctx.n))[3:5]
            if rs.uniform() < 0.5 and ctx.rank + 1 < ctx.n:
                b = a(ctx.rank + 1); b[0] = a[5]
            a.sync()
            return numpy.array(a)
        return run
    if o == 'respawn':
        def run():
            c = ctx.comm.Split(ctx.rank % 2 if op['hold'] else 0, ctx.rank)
            p = pm.respawn(c) if nd > 1 or c.size == 1 else None
            r = p.create('real', value=1.0).r2c().c2r().csum() if p is not None else None
            del p
            gc.collect()
            c.Free()
            return r
        return run
    if o == 'create':
        def run():
            f = pm.create(kind, value=1.0)
            g = pm.create(kind, value=f)
            h = f.copy()
            return (g + h).cnorm() if kind != 'real' else (g + h).csum()
        return run
    if o == 'chain':
        def run():
            l = pm.decompose(pos, smoothing=op['window'])
            f = pm.paint(pos, mass=mass, layout=l, resampler=op['window'])
            k = f.r2c(out=Ellipsis)
            k = k.apply(lambda x, v: v / (1 + x.normp()), out=Ellipsis)
            g = k.c2r(out=Ellipsis)
            v = g.readout(pos, layout=l, resampler=op['window'])
            m = g.cmean()
            return v - m
        return run
    if o == 'numpyops':
        f, g = field(s=0), field(s=1)
        def run():
            h = f * 2.0 + g
            h[...] -= f.value
            return h.cnorm() if kind != 'real' or True else None
        return run
    if o == 'field_exchange':
        def run():
            f = field('real')
            a = f.ravel()
            return pm.unravel('real', a)
        return run
    if o == 'rotator':
        T = ctx.mod('tools')
        def run():
            with T.Rotator(ctx.comm):
                for i in range(ctx.rank % 2): ctx.pause()
        return run
    if o == 'fromroot':
        T = ctx.mod('tools')
        @T.FromRoot(ctx.comm)
        def f(): return numpy.arange(3)
        return f
    if o == 'timer':
        T = ctx.mod('tools')
        def run():
            t = T.Timers(ctx.comm)
            if not op['hold'] or ctx.rank % 2 == 0:
                with t['a']: ctx.pause()
            with t['b']: ctx.pause()
            return str(t)
        return run
    if o == 'legacy':
        return None
    if o == 'repeat':
        # one layout used again and again
        def run():
            for i in range(3):
                x = env['wide'].exchange(mass, pos)
                y = env['wide'].gather(x[0], mode='mean')
            return y
        return run
    raise AssertionError(o)

def run(case, choices):
    n = case['n']
    eps = 1e-9
    def fn(ctx):
        rank = ctx.sim.ranks[ctx.rank]
        pm = mesh(ctx, case)
        env = dict(pm=pm, pos=local_pos(case, ctx.rank), grid=pm.domain)
        env['mass'] = nprng('m', ctx.rank).uniform(0.5, 2, size=len(env['pos']))
        env['layout'] = pm.decompose(env['pos'])
        env['got'] = len(env['layout'].exchange(env['pos']))
        env['wide'] = pm.decompose(env['pos'], smoothing=2.5)
        env['home'] = pm.decompose(env['pos'], smoothing=0).exchange(env['pos'])
        seqs = []
        def members(cid): return len(ctx.sim.mpi.states[cid].members)
        seqs.append([(o, members(c)) for o, c in rank.calls if members(c) > 1])
        check(ctx.datatypes == 0, 'datatypes left after setting up: %s', ctx.datatypes)
        for k, op in enumerate(case['ops']):
            what = 'step %d: %s' % (k, op['op'])
            own = op['op'] in MORE
            nc = ctx.ncomms
            go = more(ctx, case, op, env) if own else c08.prepare(ctx, case, op, env)[0]
            if go is None: continue
            for i in range(op['late'][ctx.rank]): ctx.pause()
            a = len(rank.calls)
            env['after'] = None
            r = go()
            if op['op'] == 'respawn' and op['hold']: seqs.append([])       # groups that differ
            else: seqs.append([(o, members(c)) for o, c in rank.calls[a:] if members(c) > 1])
            check(ctx.datatypes == 0, '%s: %d datatypes left on rank %d', what, ctx.datatypes, ctx.rank)
            r = None; env['after'] = None; go = None
            # meshes made on the way may be part of reference cycles
            if op['op'] in ('respawn', 'reshape', 'resample', 'upsample', 'downsample', 'transpose', 'preview'): gc.collect()
            check(ctx.ncomms == nc, '%s: rank %d held %d communicators before and holds %d after', what, ctx.rank, nc, ctx.ncomms)
        return seqs
    res = run_world(n, fn, choices, params_of(case))
    for r in range(1, n):
        for k, (a, b) in enumerate(zip(res[0], res[r])):
            check(a == b, 'part %d: rank 0 calls %s, rank %d calls %s', k, a, r, b)
