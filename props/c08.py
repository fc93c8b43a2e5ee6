"""An operation that fails in communication can be repeated on the same objects."""
from .meshcase import *
from .c12 import TYPES, CLS
SHRINK = {'ops': 1, 'pts': 0}
OPS = ['decompose', 'decompose', 'exchange', 'exchange', 'gather', 'gather', 'load', 'cost', 'paint', 'paint', 'paint', 'readout', 'readout', 'r2c', 'c2r', 'cast', 'csum', 'cmean', 'cnorm', 'cdot', 'get', 'set', 'ravel', 'unravel', 'transpose', 'preview', 'resample', 'upsample', 'downsample', 'noise', 'reshape', 'grid', 'jvp']
def gen(rng, tier, index):
    case = gen_mesh(rng, most=200)
    case['pts'] = gen_particles(rng, case, most=14)
    ops = []
    for i in range(rng.choice([1, 1, 2, 3])):
        o = rng.choice(OPS)
        if not is_real(case) and o in ('upsample', 'downsample', 'transpose', 'paint', 'readout', 'jvp'): o = rng.choice(['r2c', 'exchange', 'gather'])
        nd = len(case['N'])
        ops.append(dict(op=o, kind=rng.choice(TYPES), to=rng.choice(TYPES), mode=rng.choice(['sum', 'mean', 'any', 'all', 'local', 'max']), pack=rng.random() < 0.5, ncol=rng.choice([1, 1, 2, 3]), hold=rng.random() < 0.5, out=rng.choice(['none', 'new', 'old']), window=rng.choice(NARROW + [None]),
            layout=rng.random() < 0.8, gradient=rng.randrange(nd) if rng.random() < 0.3 else None, index=[rng.randrange(8) for d in range(nd)], value=[round(rng.uniform(-3, 3), 3), round(rng.uniform(-3, 3), 3)], axes=rng.sample(range(nd), nd),
            M=[rng.randrange(1, 9) for d in range(nd)], seed=rng.randrange(1 << 20), dtype=rng.choice(['f8', 'f8', 'i4', 'c16']), smoothing=rng.choice([None, 'cic', 'tsc', 0.5, 2.5]),
            faults=[rng.randrange(64) for j in range(rng.choice([1, 1, 1, 2, 4]))], every=rng.random() < 0.3))
    case['ops'] = ops
    case['swarm'] = swarm(rng, case['n'])
    case['swarm']['rates'].pop('cart_order', None)      # the same ranks hold the same cells in both runs
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        alt = [('every', False), ('ncol', 1), ('pack', False), ('hold', False), ('out', 'none'), ('gradient', None), ('smoothing', None), ('dtype', 'f8'), ('window', None)]
        for k, v in alt:
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
        if len(o['faults']) > 1: yield dict(case, ops=case['ops'][:i] + [dict(o, faults=o['faults'][:1])] + case['ops'][i + 1:])
        for f in range(o['faults'][0]):
            yield dict(case, ops=case['ops'][:i] + [dict(o, faults=[f] + o['faults'][1:])] + case['ops'][i + 1:])

def prepare(ctx, case, op, env):
    """(function to run, objects that must not change whether it fails or not, objects that must not change when it fails)"""
    pm, pos, mass, layout, grid = env['pm'], env['pos'], env['mass'], env['layout'], env['grid']
    o = op['op']
    kind = op['kind']
    g = global_field(case, op['seed'], 'real' if kind == 'real' else 'complex')
    def field(k=kind, s=0):
        return set_local(pm.create(k), global_field(case, (op['seed'], s), 'real' if k == 'real' else 'complex'))
    val = lambda f: numpy.array(f.value, copy=True)
    rs = nprng('c08', op['seed'], ctx.rank)
    w = op['window'] or case['window']
    wide = op['window'] is not None
    if o == 'decompose':
        sm = op['smoothing']
        def run():
            l = pm.decompose(pos, **({} if sm is None else dict(smoothing=sm)))
            env['after'] = l
        def result(): return [numpy.array(env['after'].exchange(pos)), numpy.array(env['after'].get_exchange_cost())]
        return run, result, []
    if o in ('exchange', 'gather'):
        m = len(pos) if o == 'exchange' else env['got']
        cols = []
        for c in range(op['ncol']):
            a = rs.randint(-5, 6, size=(m,) + ((2,) if c == 1 else ())).astype(op['dtype'])
            cols.append(a)
        if o == 'exchange':
            def run():
                r = layout.exchange(*cols, pack=op['pack'])
                env['after'] = list(r) if op['ncol'] > 1 else [r]
        else:
            mode = op['mode']
            if mode == 'max': mode = numpy.maximum if op['dtype'] != 'c16' else 'sum'
            if mode == 'mean' and op['dtype'] == 'i4': mode = 'sum'
            if mode == 'all' or mode == 'local': cols = cols[:1]
            if mode == 'local' : mode = 'any'
            if mode == 'any': cols = [rs.randint(-5, 6, size=len(pos)).astype(op['dtype'])]; cols = [layout.exchange(cols[0])]
            out = numpy.full((len(pos),) + cols[0].shape[1:], 7, cols[0].dtype) if op['out'] == 'old' and op['mode'] != 'all' else None
            kw = dict(mode=mode)
            if out is not None: kw['out'] = out
            def run():
                r = layout.gather(cols[0], **kw)
                env['after'] = [numpy.array(r)]
        return run, lambda: [numpy.array(a) for a in env['after']], cols
    if o == 'load':
        def run(): env['after'] = grid.load(pos, transform=lambda x: x * (pm.Nmesh / pm.BoxSize), gamma=1)
        return run, lambda: [numpy.array(env['after'])], [grid.DomainAssign]
    if o == 'cost':
        def run(): env['after'] = layout.get_exchange_cost()
        return run, lambda: [numpy.array(env['after'])], []
    if o == 'grid':
        G = ctx.mod('domain').GridND
        def run():
            q = G.uniform(pm.BoxSize, comm=ctx.comm)
            env['after'] = q.decompose(pos, smoothing=0).exchange(pos)
        return run, lambda: [numpy.array(env['after'])], []
    if o in ('paint', 'readout', 'jvp'):
        lay = env['wide'] if op['layout'] else None
        kw = dict(layout=lay, resampler=op['window'])
        if op['gradient'] is not None: kw['gradient'] = op['gradient']
        if lay is None:
            # everything already local
            p, ms = env['home'], numpy.ones(len(env['home']))
        else: p, ms = pos, mass
        if o == 'paint':
            f = None
            if op['out'] == 'old': f = field('real'); kw.update(out=f, hold=op['hold'])
            elif op['out'] == 'new': f = pm.create('real', value=0); kw.update(out=f)
            def run(): env['after'] = pm.paint(p, mass=ms, **kw)
            return run, lambda: [val(env['after'])], ([(f, 'target')] if f is not None and op['hold'] and op['out'] == 'old' else [])
        f = field('real')
        if o == 'jvp':
            def run(): env['after'] = f.readout_jvp(p, v_self=field('real', 1), v_pos=0.1 + 0 * p, resampler=op['window'], layout=lay)
            return run, lambda: [numpy.array(env['after'])], [f.value]
        if op['out'] != 'none': kw['out'] = numpy.zeros(len(p), f.dtype)
        def run(): env['after'] = f.readout(p, **kw)
        return run, lambda: [numpy.array(env['after'])], [f.value]
    f = field()
    keep = [f.value]
    if o in ('r2c', 'c2r', 'cast'):
        if o == 'r2c': f = field('real'); to = op['to'] if op['to'] != 'real' else 'transposedcomplex'
        elif o == 'c2r': f = field(kind if kind != 'real' else 'untransposedcomplex'); to = 'real'
        else: to = op['to']
        out = pm.create(to) if op['out'] != 'none' else None
        def run():
            if o == 'cast': r = f.cast(to) if out is None else f.cast(to, out=out)
            else:
                r = getattr(f, o)() if out is None else getattr(f, o)(out=out)
            env['after'] = r
        return run, lambda: [val(env['after'])], [f.value]
    if o in ('csum', 'cmean'):
        f = field('real')
        def run(): env['after'] = getattr(f, o)()
        return run, lambda: [numpy.array(env['after'])], [f.value]
    if o == 'cnorm':
        def run(): env['after'] = f.cnorm()
        return run, lambda: [numpy.array(env['after'])], keep
    if o == 'cdot':
        b = field(s=1)
        def run(): env['after'] = f.cdot(b)
        return run, lambda: [numpy.real(env['after'])], keep + [b.value]
    idx = [i % int(s) for i, s in zip(op['index'], f.cshape)]
    if o == 'get':
        def run(): env['after'] = f.cgetitem(idx)
        return run, lambda: [numpy.array(env['after'])], keep
    if o == 'set':
        v = op['value'][0] if kind == 'real' else complex(*op['value'])
        def run(): env['after'] = f.csetitem(idx, v)
        return run, lambda: [numpy.array(env['after']), val(f)], []
    if o == 'ravel':
        out = numpy.zeros(f.size, f.dtype) if op['out'] != 'none' else None
        def run(): env['after'] = f.ravel(out=out)
        return run, lambda: [numpy.array(env['after']).ravel()], keep
    if o == 'unravel':
        sizes = ctx.comm.allgather(int(f.size)); lo = offsets(sizes)[ctx.rank]
        flat = g.ravel()[lo:lo + int(f.size)].copy()
        def run(): f.unravel(flat)
        return run, lambda: [val(f)], [flat]
    if o == 'transpose':
        f = field('real')
        def run(): env['after'] = f.ctranspose(op['axes'])
        return run, lambda: [val(env['after'])], [f.value]
    if o == 'preview':
        def run(): env['after'] = f.preview(axes=op['axes'][:1])
        return run, lambda: [numpy.array(env['after'])], keep
    if o == 'resample':
        pm2 = pm.reshape(Nmesh=op['M']); out = pm2.create(op['to'])
        def run(): f.resample(out)
        return run, lambda: [val(out)], keep
    if o in ('upsample', 'downsample'):
        f = field('real')
        pm2 = pm.reshape(Nmesh=op['M'])
        def run(): env['after'] = getattr(pm2, o)(f, keep_mean=op['hold'])
        return run, lambda: [val(env['after'])], [f.value]
    if o == 'noise':
        def run(): env['after'] = pm.generate_whitenoise(op['seed'], type=op['to'], mean=1.0)
        return run, lambda: [val(env['after'])], []
    if o == 'reshape':
        def run():
            env['after'] = pm.reshape(Nmesh=op['M'])
        def result():
            q = env['after']
            r = set_local(q.create('real'), global_field(dict(case, N=op['M']), op['seed']))
            return [numpy.array(r.r2c().value), numpy.array(q.Nmesh), numpy.array(q.BoxSize)]
        return run, result, []
    raise AssertionError(o)

def run(case, choices):
    n = case['n']
    eps = 1e-4 if case['dtype'] in ('f4', 'c8') else 1e-10
    def work(ctx, counts):
        pm = mesh(ctx, case)
        env = dict(pm=pm, pos=local_pos(case, ctx.rank), grid=pm.domain)
        env['mass'] = nprng('m', ctx.rank).uniform(0.5, 2, size=len(env['pos']))
        env['layout'] = pm.decompose(env['pos'])
        env['got'] = len(env['layout'].exchange(env['pos']))
        env['wide'] = pm.decompose(env['pos'], smoothing=2.5)
        env['home'] = pm.decompose(env['pos'], smoothing=0).exchange(env['pos'])
        MPIError = ctx.MPI.Exception
        outs = []
        for k, op in enumerate(case['ops']):
            what = 'step %d: %s' % (k, op['op'])
            go, result, watch = prepare(ctx, case, op, env)
            pinned = [(w, numpy.array(w, copy=True)) for w in watch if not isinstance(w, tuple)]
            pinned += [(env['pos'], env['pos'].copy()), (env['mass'], env['mass'].copy()), (env['grid'].DomainAssign, numpy.array(env['grid'].DomainAssign, copy=True))]
            target = [(w[0].value, numpy.array(w[0].value, copy=True)) for w in watch if isinstance(w, tuple)]
            env['after'] = None
            if counts is None:
                a = ctx.ncoll
                go()
                c = ctx.ncoll - a
                for w, v in pinned: same(w, v, what + ': objects given to it')
                outs.append((c, result()))
                continue
            total = counts[k]
            tries = (range(total) if op['every'] and total <= 12 else [x % total for x in op['faults']]) if total else []
            for f in tries:
                ctx.arm(f)
                try:
                    go()
                    raised = False
                except MPIError:
                    raised = True
                fired = not ctx.disarm()
                check(fired, '%s: %d collective calls in the undisturbed run, fewer than %d now', what, total, f + 1)
                check(raised, '%s: communication call %d of %d failed, the operation did not', what, f + 1, total)
                for w, v in pinned: same(w, v, '%s: object given to it, after communication call %d failed' % (what, f + 1))
                for w, v in target: same(w, v, '%s: field to be added to, after communication call %d failed' % (what, f + 1))
                for i in range(n): ctx.pause()
            dt, nc = ctx.datatypes, ctx.ncomms
            go()
            for w, v in pinned: same(w, v, what + ': object given to it, after the repetition')
            outs.append((total, result()))
        return outs
    ref = run_world(n, lambda ctx: work(ctx, None), params=params_of(case), ref=True)
    counts = [r[0] for r in ref[0]]
    for r, x in enumerate(ref): check([i[0] for i in x] == counts, 'collective calls made: rank 0 %s, rank %d %s', counts, r, [i[0] for i in x])
    res = run_world(n, lambda ctx: work(ctx, counts), choices, params_of(case))
    for k, op in enumerate(case['ops']):
        for r in range(n):
            a, b = res[r][k][1], ref[r][k][1]
            for i, (x, y) in enumerate(zip(a, b)):
                x, y = numpy.asarray(x), numpy.asarray(y)
                s = float(numpy.abs(y).max()) if y.size and y.dtype.kind in 'fciu' else 0
                s = max([s] + [float(numpy.abs(numpy.asarray(q[k][1][i])).max()) for q in ref if numpy.asarray(q[k][1][i]).size])
                if x.dtype.kind in 'fc': close(x, y, eps * 20 * (s + 1), 'step %d: %s repeated after failures %s, on rank %d' % (k, op['op'], op['faults'], r))
                else: same(x, y, 'step %d: %s repeated after failures, on rank %d' % (k, op['op'], r))
