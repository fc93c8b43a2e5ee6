"""Groups of ranks with their own communicators do not disturb each other."""
from .meshcase import *
from .c12 import TYPES
from . import c08, c29
SHRINK = {'steps': 1}
class Boom(Exception): pass

def paths(case):
    """groups[(level, path)] = world ranks, in the order of the group; all computed from the case alone"""
    n = case['n']
    now = {(): list(range(n))}
    out = {}
    for L, lev in enumerate(case['levels']):
        new = {}
        for p, mem in now.items():
            cols = {}
            for i, r in enumerate(mem):
                c = lev['color'][r]
                if c is None: continue
                cols.setdefault(c, []).append((lev['key'][r], i, r))
            for c in cols:
                new[p + (c,)] = [x[2] for x in sorted(cols[c])]
        for p, mem in new.items(): out['/'.join(map(str, p))] = mem
        now = new
    return out

def gen_step(rng, m):
    o = rng.choice(c08.OPS + ['fail', 'fail', 'drop', 'respawn', 'work', 'work', 'coarray', 'new', 'lic', 'rotate', 'root', 'legacy', 'gradient', 'gradient', 'balance', 'balance'])
    nd = len(m['N'])
    if not is_real(m) and o in ('upsample', 'downsample', 'transpose', 'paint', 'readout', 'jvp', 'lic', 'gradient'): o = rng.choice(['r2c', 'exchange', 'gather', 'noise'])
    return dict(op=o, kind=rng.choice(TYPES), to=rng.choice(TYPES), mode=rng.choice(['sum', 'mean', 'any', 'all', 'local', 'max']), pack=rng.random() < 0.5, ncol=rng.choice([1, 1, 2, 3]), hold=rng.random() < 0.5, out=rng.choice(['none', 'new', 'old']), window=rng.choice(NARROW + [None]),
            layout=rng.random() < 0.8, gradient=rng.randrange(nd) if rng.random() < 0.3 else None, index=[rng.randrange(8) for d in range(nd)], value=[round(rng.uniform(-3, 3), 3), round(rng.uniform(-3, 3), 3)], axes=rng.sample(range(nd), nd),
            M=[rng.randrange(1, 9) for d in range(nd)], seed=rng.randrange(1 << 20), dtype=rng.choice(['f8', 'f8', 'i4', 'c16']), smoothing=rng.choice([None, 'cic', 'tsc', 0.5, 2.5]), fault=rng.randrange(3), fop=rng.choice(['decompose', 'exchange', 'r2c', 'csum', 'noise']), late=rng.choice([0, 0, 1, 4]))

def gen(rng, tier, index):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7])
    levels = []
    if rng.random() < 0.35: levels.append(dict(color=[0] * n, key=[0] * n, how='world'))
    nl = rng.choice([1, 1, 2, 3]) - len(levels)
    for i in range(max(1, nl)):
        k = rng.choice([1, 2, 2, 3])
        levels.append(dict(color=[None if rng.random() < 0.08 else rng.randrange(k) for r in range(n)], key=[rng.randrange(-2, 3) if rng.random() < 0.5 else 0 for r in range(n)], how='split'))
    case = dict(n=n, levels=levels)
    groups = paths(case)
    mesh_of = {}
    for g, mem in groups.items():
        m = gen_mesh(rng, n=len(mem), ndims=(1, 2, 3) if len(mem) == 1 else (2, 2, 3), most=100)
        # the same parameters as another group, as far as they fit
        same = [x for x in mesh_of.values() if x['n'] == len(mem)]
        if same and rng.random() < 0.5: m = dict(rng.choice(same))
        m['pts'] = gen_particles(rng, m, most=10)
        m['via'] = rng.random() < 0.3
        m['salt'] = rng.randrange(1000)
        mesh_of[g] = m
    case['mesh'] = mesh_of
    steps = []
    names = sorted(groups)
    if names:
        for i in range(rng.choice([2, 3, 5, 8])):
            g = rng.choice(names)
            steps.append(dict(g=g, **gen_step(rng, mesh_of[g])))
    case['steps'] = steps
    case['selfcomm'] = rng.random() < 0.5
    case['swarm'] = swarm(rng, n)
    case['swarm']['rates'].pop('cart_order', None)
    return case

def simplify(case):
    L = case['levels']
    if len(L) > 1:
        c = dict(case, levels=L[:-1])
        gs = paths(c)
        yield dict(c, mesh={g: m for g, m in case['mesh'].items() if g in gs}, steps=[s for s in case['steps'] if s['g'] in gs])
    used = sorted(set(s['g'] for s in case['steps']))
    for g in used:
        yield dict(case, steps=[s for s in case['steps'] if s['g'] != g])
    for g in used:
        for m in simplify_mesh(dict(case['mesh'][g], n=1)):
            if m['np'] is None: yield dict(case, mesh=dict(case['mesh'], **{g: dict(m, n=case['mesh'][g]['n'])}))
    for i, l in enumerate(L):
        if any(l['key']): yield dict(case, levels=L[:i] + [dict(l, key=[0] * case['n'])] + L[i + 1:])
    for i, o in enumerate(case['steps']):
        for k, v in (('ncol', 1), ('pack', False), ('hold', False), ('out', 'none'), ('gradient', None), ('smoothing', None), ('dtype', 'f8'), ('window', None), ('late', 0)):
            if o[k] != v: yield dict(case, steps=case['steps'][:i] + [dict(o, **{k: v})] + case['steps'][i + 1:])

class Sub(object):
    """a rank's view of the simulation as a member of a group"""
    def __init__(self, ctx, comm):
        self.sim, self.comm, self.rank, self.n = ctx.sim, comm, comm.rank, comm.size
        self.self_comm, self.mod, self.pause, self.MPI = ctx.self_comm, ctx.mod, ctx.pause, ctx.MPI
        self.arm, self.disarm = ctx.arm, ctx.disarm

def plan(case):
    """the steps each group takes: once a group fails or is absent, steps of groups that need its ranks are not taken"""
    groups = paths(case)
    gone = set()
    out = []
    for i, s in enumerate(case['steps']):
        mem = groups.get(s['g'])
        if mem is None or gone & set(mem): continue
        out.append(i)
        if s['op'] == 'drop': gone |= set(mem)
    return groups, out

def setup(sub, m, world=None):
    case = m
    pm = mesh(sub, case) if world is None else world.respawn(sub.comm, np=case['np'])
    env = dict(pm=pm, grid=pm.domain, pos=local_pos(case, sub.rank))
    env['mass'] = nprng('m', sub.rank, m['salt']).uniform(0.5, 2, size=len(env['pos']))
    env['layout'] = pm.decompose(env['pos'])
    env['got'] = len(env['layout'].exchange(env['pos']))
    env['wide'] = pm.decompose(env['pos'], smoothing=2.5)
    env['home'] = pm.decompose(env['pos'], smoothing=0).exchange(env['pos'])
    return env

def arrays(x):
    return [numpy.array(i, copy=True) for i in x]

def step(sub, m, op, env, store):
    """one operation of a group; its result on this rank"""
    o = op['op']
    pm = env['pm']
    if o in ('fail', 'drop'):
        # all ranks of the group fail in the same communication call of an operation
        go, result, watch = c08.prepare(sub, m, dict(op, op=op['fop'], kind='real' if op['fop'] == 'csum' else op['kind']), env)
        if o == 'drop' and op['hold']:
            try: raise Boom('the group gives up')
            except Boom: return []
        sub.arm(op['fault'] % 2)
        raised = False
        try: go()
        except sub.MPI.Exception: raised = True
        fired = not sub.disarm()
        check(fired == raised, 'a communication call of %s %s', op['fop'], 'failed, the operation did not' if fired else 'did not fail, the operation did')
        return [numpy.array(raised)]
    if o == 'respawn':
        # the mesh of the group moves to another communicator of the same ranks
        c = sub.comm.Dup() if op['hold'] else sub.comm.Split(0, -sub.rank)
        p = pm.respawn(c, np=m['np'])
        f = p.create('real')
        g = global_field(m, op['seed'])
        set_local(f, g)
        k = f.r2c()
        a = numpy.array(k.value, copy=True)
        out = [a, numpy.array(k.start), numpy.array([f.csum()])]
        if op['pack']: store.append((c, p))
        return out
    if o == 'new':
        env.update(setup(sub, m))
        return [numpy.array(env['got'])]
    if o == 'coarray':
        C = sub.mod('coarray').coarray
        x = numpy.arange(6.) + 10 * sub.rank + op['seed']
        if op['pack']: a = C.fromarray(sub.comm, x)
        else: a = C.zeros(sub.comm, 6) if op['hold'] else C(sub.comm, 6, 'f8'); a[...] = x
        check(a.thisimage == sub.rank and a.num_images == sub.n, 'coarray: image %d of %d, made on rank %d of %d', a.thisimage, a.num_images, sub.rank, sub.n)
        q = (op['seed'] + sub.rank) % sub.n
        a[1:3] = a(q)[3:5]
        b = a((sub.rank + 1) % sub.n)
        b[0] = a[5]
        a.sync()
        return [numpy.array(a)]
    if o == 'balance':
        # a grid of fewer or more domains than ranks
        box = boxsize(m)
        k = [1 + i % 3 for i in op['M']]
        G = sub.mod('domain').GridND
        q = G([numpy.linspace(0, b, i + 1) for b, i in zip(box, k)], comm=sub.comm, periodic=op['pack'])
        x = nprng('balance', sub.rank, op['seed']).uniform(0, 1, size=(4 + sub.rank % 3, len(k))) * box
        load = q.load(x, gamma=1)
        if op['hold']: q.loadbalance(load)
        l = q.decompose(x, smoothing=None if op['smoothing'] is None else 0.1 * box.min())
        y = l.exchange(x)
        v = numpy.arange(len(y)) + 100. * sub.rank
        mine = numpy.arange(len(x)) + 1000 * sub.rank
        here = numpy.isin(mine, l.exchange(mine))
        return [numpy.array(load), numpy.array(q.DomainAssign), numpy.array(q.shape), y, numpy.array(q.isprimary(y)), l.gather(v, mode='local')[here], l.gather(v, mode='sum')]
    if o == 'lic':
        v = [pm.create('real') for d in range(pm.ndim)]
        for d, x in enumerate(v): x.value[...] = 0.5 + d
        h = float(numpy.min(boxsize(m) / m['N']))
        t = None if op['hold'] else set_local(pm.create('real'), global_field(m, op['seed']))
        return [numpy.array(sub.mod('lic').lic(v, lambda x: 1 - abs(x), 2 * h, h / 2, texture=t, normalize=op['pack']).value)]
    if o == 'rotate':
        T = sub.mod('tools')
        turn = numpy.zeros(1, 'i4')
        with T.Rotator(sub.comm): turn[0] += sub.rank
        return [turn]
    if o == 'root':
        @sub.mod('tools').FromRoot(sub.comm)
        def f(x): return x + sub.rank + numpy.arange(3)
        return [f(op['seed'])]
    if o == 'legacy':
        K = 4; T = sub.mod('transfer').TransferFunction
        p = sub.mod('particlemesh').ParticleMesh(8.0, K, paintbrush='cic', comm=sub.comm, dtype='f8', verbose=op['pack'])
        x = nprng('legacy', sub.rank, op['seed']).uniform(0, 8, size=(3 + sub.rank % 2, 3))
        l = p.decompose(x)
        p.paint(l.exchange(x)); p.r2c()
        w = numpy.zeros(3), numpy.zeros(3)
        p.transfer([T.NormalizeDC, T.PowerSpectrum(*w), T.Gaussian(0.5)])
        p.c2r([])
        return [numpy.array(p.real), l.gather(p.readout(l.exchange(x)), mode='sum'), w[0], w[1]]
    if o == 'gradient':
        c29.outside()
        from abopt.vmad2 import CodeSegment
        E = sub.mod('abopt')
        q = nprng('gradient', sub.rank, op['seed']).uniform(0.1, 0.9, size=(1 + sub.rank % 2, pm.ndim)) * boxsize(m)
        engine = E.ParticleMeshEngine(pm, q=q)
        code = CodeSegment(engine)
        code.get_x(s='s', x='x'); code.decompose(x='x', layout='l'); code.paint(x='x', mesh='r', layout='l')
        code.r2c(real='r', complex='c'); code.transfer(complex='c', tf=lambda k: 1.0 / (1 + sum(i ** 2 for i in k))); code.c2r(complex='c', real='d')
        code.to_scalar(x='d', y='y1'); code.to_scalar(x='x', y='y2'); code.add(x1='y1', x2='y2', y='y')
        y, tape = code.compute('y', init={'s': numpy.zeros_like(q)}, return_tape=True)
        g = tape.get_vjp().compute('_s', init={'_y': 1.0})
        j = tape.get_jvp().compute('y_', init={'s_': q * 0.1})
        return [numpy.array(y), numpy.array(g), numpy.array(j), numpy.array(engine.vs.dot(q, q))]
    if o == 'work':
        # particles to cells, modes, derived field, back to particles
        if not is_real(m):
            f = set_local(pm.create('real'), global_field(m, op['seed']))
        else:
            f = pm.paint(env['pos'], mass=env['mass'], layout=env['layout'])
        k = f.r2c(out=Ellipsis) if op['hold'] else f.r2c()
        k = k.apply(lambda kk, v: v / (1 + sum(i ** 2 for i in kk)))
        p = pm.generate_whitenoise(op['seed'], type=type(k))
        nn = k.cnorm()
        b = (k + p).c2r()
        out = [numpy.array(b.value), numpy.array(nn), numpy.array(b.csum())]
        if is_real(m): out.append(b.readout(env['pos'], layout=env['layout']))
        return out
    go, result, watch = c08.prepare(sub, m, op, env)
    go()
    return result()

def run(case, choices):
    n = case['n']
    groups, steps = plan(case)
    mine = lambda r: [i for i in steps if r in groups[case['steps'][i]['g']]]
    def fn(ctx):
        me = ctx.rank
        # communicators of all levels
        comms = {}
        c = ctx.comm; p = ()
        for L, lev in enumerate(case['levels']):
            col = lev['color'][me]
            if lev['how'] == 'world': q = c
            else:
                q = c.Split(ctx.MPI.UNDEFINED if col is None else col, lev['key'][me])
            if col is None: break
            p = p + (col,); c = q
            name = '/'.join(map(str, p))
            mem = groups[name]
            check(c.size == len(mem) and mem[c.rank] == me, 'harness: group %s', name)
            comms[name] = ctx.self_comm if c.size == 1 and case['selfcomm'] else c
        env, store = {}, []
        outs = {}
        # meshes of the world, which groups will move to their own communicators
        world = {}
        for g in sorted(groups):
            m = case['mesh'][g]
            if m.get('via') and (n == 1 or len(m['N']) > 1): world[g] = mesh(ctx, dict(m, np=None))
        calls = ctx.sim.ranks[me].calls
        for i in mine(me):
            s = case['steps'][i]
            m = case['mesh'][s['g']]
            sub = Sub(ctx, comms[s['g']])
            for j in range(s['late'] if sub.rank % 2 else 0): ctx.pause()
            a = len(calls)
            if s['g'] not in env: env[s['g']] = setup(sub, m, world.get(s['g']))
            outs[i] = step(sub, m, s, env[s['g']], store)
            mem = set(groups[s['g']])
            for op, cid in calls[a:]:
                x = ctx.sim.mpi.states[cid].members
                check(set(x) <= mem, 'step %d: %s of group %s (ranks %s) on a communicator of ranks %s', i, op, s['g'], sorted(mem), x)
            if s['op'] == 'drop': break
        return outs
    res = run_world(n, fn, choices, params_of(case))
    for g in sorted(groups):
        todo = [i for i in steps if case['steps'][i]['g'] == g]
        if not todo: continue
        m = case['mesh'][g]
        eps = 1e-4 if m['dtype'] in ('f4', 'c8') else 1e-10
        def alone(ctx):
            sub = Sub(ctx, ctx.comm)
            env, store = setup(sub, m), []
            return [step(sub, m, case['steps'][i], env, store) for i in todo]
        ref = run_world(len(groups[g]), alone, params=params_of(case), ref=True)
        for k, i in enumerate(todo):
            what = 'step %d: %s of group %s' % (i, case['steps'][i]['op'], g)
            for q, r in enumerate(groups[g]):
                a, b = res[r][i], ref[q][k]
                check(len(a) == len(b), '%s: %d results, alone %d', what, len(a), len(b))
                for j, (x, y) in enumerate(zip(a, b)):
                    x, y = numpy.asarray(x), numpy.asarray(y)
                    sc = max([1.0] + [float(numpy.abs(z[k][j]).max()) for z in ref if numpy.asarray(z[k][j]).size and numpy.asarray(z[k][j]).dtype.kind in 'fciu'])
                    if x.dtype.kind in 'fc': close(x, y, eps * 20 * sc, '%s: rank %d, compared with the group alone' % (what, r))
                    else: same(x, y, '%s: rank %d, compared with the group alone' % (what, r))
