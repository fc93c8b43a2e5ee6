"""Gradient programs of the engine in abopt.py: values and derivatives on any number of ranks."""
import sys, types
from .meshcase import *
SHRINK = {'pts': 0, 'ops': 0, 'ends': 1}
WIN = ['cic', 'tsc', 'pcs', 'linear', 'quadratic', 'cubic']
def outside():
    """the package abopt, as installed, looks for two private functions of scipy where older versions had them"""
    if 'abopt' in sys.modules: return
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import scipy.optimize, scipy.optimize._linesearch as L
        m = types.ModuleType('scipy.optimize.linesearch')
        m.__dict__.update({k: v for k, v in L.__dict__.items() if not k.startswith('__')})
        sys.modules['scipy.optimize.linesearch'] = m
        scipy.optimize.linesearch = m
        import abopt.vmad2, abopt.abopt2

# variables: s (displacements of the particles), r (a mesh), c (modes) are given; what an op makes is named after it
def gen(rng, tier, index):
    case = gen_mesh(rng, dtypes=('f8',), most=200, ndims=(1, 2, 2, 3, 3))
    N, box, n, nd = case['N'], boxsize(case), case['n'], len(case['N'])
    case['window'] = rng.choice(WIN)
    case['pts'] = []
    for r, k in enumerate(split_counts(rng, rng.choice([1, 2, 4, 8, 12]), n)):
        for i in range(k):
            # away from the kinks of the windows
            case['pts'].append([r] + [float((rng.randrange(N[d]) + rng.choice([0, 0.5]) + rng.uniform(0.1, 0.4)) * box[d] / N[d]) for d in range(nd)])
    kinds = {'r': 'R', 's': 'P', 'c': 'C'}
    ops = case['ops'] = []
    # calm: displacements that keep the particles away from the kinks; mild: of moderate size
    calm, mild = {'s'}, {'r'}
    case['smooth'] = True
    def of(kind): return [v for v in kinds if kinds[v] == kind]
    def one(kind): return rng.choice(of(kind)[-3:])
    for i in range(rng.randrange(2, 10)):
        out = 'v%d' % i
        places = [v for v in of('P') if v in calm or v in mild][-3:]
        k = rng.choice(['paint', 'readout', 'r2c', 'transfer', 'c2r', 'lowpass', 'multiply', 'number', 'add', 'residual', 'assign', 'component'])
        if k in ('paint', 'readout') and not places: continue
        if k == 'paint': op = dict(k=k, a=rng.choice(places)); t = 'R'
        elif k == 'readout': op = dict(k=k, a=rng.choice(places), b=one('R')); t = 'V'
        elif k == 'r2c': op = dict(k=k, a=one('R')); t = 'C'
        elif k == 'transfer': op = dict(k=k, a=one('C'), tf=rng.choice(['low', 'ik', 'inv']), d=rng.randrange(nd)); t = None
        elif k == 'c2r': op = dict(k=k, a=one('C')); t = 'R'
        elif k == 'lowpass': op = dict(k=k, a=one('R'), Neff=rng.randrange(0, max(N) + 2)); t = None
        else:
            t = rng.choice([x for x in 'RRPV' if of(x)])
            if k == 'component':
                if not of('V'): continue
                op = dict(k=k, a=one('P'), b=one('V'), d=rng.randrange(nd)); t = None
            elif k in ('multiply', 'add'): op = dict(k=k, a=one(t), b=one(t))
            elif k == 'number': op = dict(k=k, a=one(t), x=rng.choice([0.5, -0.7, 2.0, 0.5]))
            elif k == 'residual': op = dict(k=k, a=one(t), sigma=rng.choice([0.5, 2.0]), seed=rng.randrange(1 << 16), t=t)
            else: op = dict(k=k, a=one(t))
        if t is not None: kinds[out] = t
        for group in (calm, mild):
            if k == 'assign' and op['a'] in group or k == 'number' and abs(op['x']) < 1 and op['a'] in group: group.add(out)
        if k == 'readout':
            if op['b'] in mild: mild.add(out)
        if k == 'transfer': mild.discard(op['a'])
        if k == 'component':
            if op['b'] in mild and op['a'] in calm | mild: mild.add(op['a'])
            else: mild.discard(op['a'])
            calm.discard(op['a'])
        if k in ('paint', 'readout') and op['a'] not in calm: case['smooth'] = False
        ops.append(dict(op, out=out))
    # the scalar is a sum over some ends
    case['ends'] = [[rng.choice([v for v in kinds if kinds[v] != 'C'][-3:]), rng.choice([1, 1, 0.5, -2.0])] for i in range(rng.choice([1, 1, 2, 3]))]
    case['seed'] = rng.randrange(1 << 20)
    case['vs'] = rng.random() < 0.3
    case['swarm'] = swarm(rng, n)
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    if case['vs']: yield dict(case, vs=False)
def used(case):
    """the ops that matter (shrinking may have removed some that others need: then those go, too), and what the end depends on"""
    have = {'r': {'r'}, 's': {'s'}, 'c': {'c'}}
    ops = []
    for o in case['ops']:
        if o['a'] not in have or ('b' in o and o['b'] not in have): continue
        d = have[o['a']] | (have[o['b']] if 'b' in o else set())
        ops.append(o)
        have[o['a'] if o['k'] in ('transfer', 'lowpass', 'component') else o['out']] = d
    ends = [e for e in case['ends'] if e[0] in have] or [['s', 1]]
    return ops, ends, sorted(set().union(*(have[e] for e, x in ends)))

def tf_of(op, kmin):
    d = op['d']
    return {'low': lambda k: numpy.exp(-0.05 * sum((ki / k0) ** 2 for ki, k0 in zip(k, kmin))),
            'ik': lambda k: 1j * k[d] / kmin[d] + 0 * sum(k),
            'inv': lambda k: 1.0 / (1 + sum((ki / k0) ** 2 for ki, k0 in zip(k, kmin)))}[op['tf']]

def run(case, choices):
    outside()
    n, N, nd = case['n'], case['N'], len(case['N'])
    Q = len(case['pts'])
    ops, ends, deps = used(case)
    h = float(numpy.min(boxsize(case) / N))
    kmin = 2 * numpy.pi / boxsize(case)
    g = nprng('c29', case['seed'])
    S = g.uniform(-0.05, 0.05, size=(Q, nd)) * h; dS = g.uniform(-1, 1, size=(Q, nd)) * h
    R = g.normal(size=N); dR = g.normal(size=N)
    def work(ctx, single):
        from abopt.vmad2 import CodeSegment, Literal
        E = ctx.mod('abopt')
        pm = mesh(ctx, case, ref=single)
        mine = (lambda a: a.copy()) if single else (lambda a: local_of(a, case, ctx.rank).copy())
        q = mine(numpy.array([p[1:] for p in case['pts']], 'f8').reshape(Q, nd))
        engine = E.ParticleMeshEngine(pm, q=q)
        def field(a, kind='real'):
            f = set_local(pm.create('real'), a)
            return f if kind == 'real' else f.r2c()
        def build():
            code = CodeSegment(engine)
            if 'c' in deps: code.decompress(complex='c')
            pos = {}
            for o in ops:
                k, a, out = o['k'], o['a'], o['out']
                if k in ('paint', 'readout'):
                    x, l = out + 'x', out + 'l'
                    code.get_x(s=a, x=x); code.decompose(x=x, layout=l)
                    if k == 'paint': code.paint(x=x, mesh=out, layout=l)
                    else: code.readout(x=x, mesh=o['b'], layout=l, value=out)
                elif k == 'r2c': code.r2c(real=a, complex=out)
                elif k == 'c2r': code.c2r(complex=a, real=out)
                elif k == 'transfer': code.transfer(complex=a, tf=tf_of(o, kmin))
                elif k == 'lowpass': code.lowpass(real=a, Neff=o['Neff'])
                elif k == 'multiply': code.multiply(x1=a, x2=o['b'], y=out)
                elif k == 'number': code.multiply(x1=a, x2=Literal(o['x']), y=out)
                elif k == 'add': code.add(x1=a, x2=o['b'], y=out)
                elif k == 'assign': code.assign(x=a, y=out)
                elif k == 'component': code.assign_component(attribute=a, value=o['b'], dim=o['d'])
                elif k == 'residual':
                    data = nprng('data', o['seed']).normal(size=N if o['t'] == 'R' else (Q,) if o['t'] == 'V' else (Q, nd))
                    code.residual(model=a, data=field(data) if o['t'] == 'R' else mine(data), sigma=o['sigma'], residual=out)
            last = None
            for i, (end, x) in enumerate(ends):
                y = 'y' if i == 0 and len(ends) == 1 and x == 1 else 'y%d' % i
                code.to_scalar(x=end, y=y)
                if x != 1:
                    code.multiply(x1=y, x2=Literal(x), y=y + 'w' if len(ends) > 1 else 'y'); y = y + 'w'
                if last is not None: code.add(x1=last, x2=y, y='y' if i == len(ends) - 1 else 't%d' % i); y = 't%d' % i
                last = y
            return code
        def init(t=0.0):
            d = {'s': mine(S + t * dS), 'r': field(R + t * dR), 'c': field(R[::-1] + t * dR, 'complex')}
            return {k: d[k] for k in deps}
        dirs = {'s': mine(dS), 'r': field(dR), 'c': field(dR, 'complex')}
        given = init()
        keep = {k: numpy.array(v.value if hasattr(v, 'pm') else v, copy=True) for k, v in given.items()}
        y, tape = build().compute('y', init=given, return_tape=True)
        for k in deps: same(numpy.array(given[k].value if hasattr(given[k], 'pm') else given[k]), keep[k], 'the given ' + k)
        back = tape.get_vjp().compute(['_' + k for k in deps], init={'_y': 1.0})
        y_ = tape.get_jvp().compute('y_', init={k + '_': dirs[k].copy() for k in deps})
        scale = max(1.0, abs(float(y)))
        grads, total = {}, 0.0
        for k, b in zip(deps, back):
            if k == 's': part = float(ctx.comm.allreduce(numpy.sum(b * dirs['s']))) ; grads[k] = numpy.array(b, copy=True)
            elif k == 'r': part = float(b.cdot(dirs['r'])); grads[k] = grab(b)
            else:
                # over independent modes
                i = b.i
                both = numpy.zeros(b.shape, '?'); selfc = numpy.ones(b.shape, '?')
                both |= (((N[-1] - i[-1]) % N[-1]) < b.cshape[-1])
                for d in range(nd): selfc &= ((N[d] - i[d]) % N[d] == i[d])
                u = numpy.where(both & ~selfc, 0.5, 1.0)
                part = float(ctx.comm.allreduce(numpy.sum(u * (numpy.conj(numpy.asarray(b.value)) * numpy.asarray(dirs['c'].value)).real)))
                grads[k] = grab(b)
            total += part; scale += abs(part)
        close(total, float(y_), 1e-9 * scale, 'forward and backward derivative')
        if case['smooth']:
            t = 1e-5
            fd = [float(build().compute('y', init=init(x))) for x in (t, -t)]
            f = (fd[0] - fd[1]) / (2 * t)
            close(float(y_), f, 1e-4 * scale, 'forward derivative and finite difference')
        for o in ops:
            if o['k'] != 'transfer': continue
            # alone: every mode multiplied, but those that are their own conjugates stay real
            code = CodeSegment(engine)
            code.assign(x='c', y='t'); code.transfer(complex='t', tf=tf_of(o, kmin))
            f = field(R, 'complex')
            m = code.compute('t', init={'c': f})
            fac = tf_of(o, kmin)([numpy.asarray(k) for k in f.x]) * numpy.ones(f.shape)
            selfc = numpy.ones(f.shape, '?')
            for d in range(nd): selfc &= ((N[d] - f.i[d]) % N[d] == f.i[d])
            fac = numpy.where(selfc & (fac.imag != 0), 0, fac)
            close(numpy.asarray(m.value), fac * numpy.asarray(f.value), 1e-9 * (1 + abs(R).max()), 'transfer of modes')
            break
        vs = []
        if case['vs']:
            v = engine.vs
            for a, b in ((mine(S), dirs['s']), (field(R), dirs['r']), (field(R, 'c'), dirs['c'])):
                vs.append(v.dot(a, b))
                A, B = (numpy.array(x.value if hasattr(x, 'pm') else x, copy=True) for x in (a, b))
                for p in (1, -1, 2):
                    w = v.addmul(a, b, 2.0) if p == 1 else v.addmul(a, b, 2.0, p)
                    close(numpy.asarray(w.value if hasattr(w, 'pm') else w), A + 2.0 ** p * B, 1e-13 * (1 + abs(B).max() if B.size else 1), 'addmul')
                for x, X in ((a, A), (b, B)): same(numpy.array(x.value if hasattr(x, 'pm') else x), X, 'arguments of addmul')
        return float(y), float(y_), grads, vs
    ref = run_world(1, lambda ctx: work(ctx, True), ref=True)[0]
    res = run_world(n, lambda ctx: work(ctx, False), choices, params_of(case))
    s = max(1.0, abs(ref[0]), abs(ref[1]))
    agree([r[0] for r in res], 'value'); agree([r[1] for r in res], 'forward derivative')
    close(res[0][0], ref[0], 1e-9 * s, 'value compared with one rank')
    close(res[0][1], ref[1], 1e-8 * s, 'forward derivative compared with one rank')
    for k in deps:
        if k == 's':
            for r in range(n): close(res[r][2][k], local_of(ref[2][k], case, r), 1e-8 * s / h, 'gradient compared with one rank')
        else: close(assemble([r[2][k] for r in res], 'gradient'), assemble([ref[2][k]], 'gradient'), 1e-8 * s, 'gradient compared with one rank')
    for i in range(len(ref[3])):
        agree([r[3][i] for r in res], 'inner product')
        close(res[0][3][i], ref[3][i], 1e-9 * (1 + abs(ref[3][i])), 'inner product compared with one rank')
