"""Line integral convolution."""
from .meshcase import *
SHRINK = {}
KERNELS = {'one': lambda s: 1.0, 'hat': lambda s: 1 - abs(s), 'cos': lambda s: 0.5 + 0.5 * numpy.cos(numpy.pi * s), 'odd': lambda s: 1 + 0.5 * s}
def gen(rng, tier, index):
    case = gen_mesh(rng, ndims=(2, 2, 2, 3), most=150, dtypes=('f8', 'f8', 'f4'))
    case['length'] = rng.choice([0.5, 1, 2, 3, 4, 6])
    case['ds'] = rng.choice([0.25, 0.5, 1.0, 0.7])
    if case['length'] / case['ds'] > 12: case['ds'] = 0.5
    case['kernel'] = rng.choice(sorted(KERNELS))
    case['resampler'] = rng.choice([None, 'cic', 'tsc', 'pcs'])
    case['normalize'] = rng.random() < 0.7
    case['vectors'] = rng.choice(['random', 'random', 'uniform', 'zeros', 'big'])
    case['texture'] = rng.choice(['random', 'random', 'constant', 'default'])
    case['value'] = rng.choice([1.0, -2.5, 7.0])
    case['seed'] = rng.randrange(1 << 20)
    if case['window'] == 'nnb': case['window'] = 'cic'
    case['box'] = rng.choice([[float(x) for x in case['N']], case['box']])
    case['swarm'] = swarm(rng, case['n'])
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for k, v in (('length', 0.5), ('ds', 1.0), ('kernel', 'one'), ('normalize', False), ('vectors', 'uniform'), ('texture', 'constant'), ('resampler', 'cic')):
        if case[k] != v: yield dict(case, **{k: v})
def vectors(case):
    N = case['N']
    g = nprng('lic', case['seed'])
    v = [g.normal(size=N) for d in N]
    if case['vectors'] == 'uniform': v = [0 * x + 0.5 + 0.25 * d for d, x in enumerate(v)]
    if case['vectors'] == 'zeros':
        hole = g.uniform(size=N) < 0.3
        for x in v: x[hole] = 0
    if case['vectors'] == 'big': v = [3.0 * x for x in v]
    return [x.astype(case['dtype']) for x in v]
def texture(case):
    if case['texture'] == 'constant': return numpy.full(case['N'], case['value']).astype(case['dtype'])
    return nprng('tex', case['seed']).normal(size=case['N']).astype(case['dtype'])
def weight1(w, x):
    x = abs(x)
    if w == 'cic': return numpy.where(x < 1, 1 - x, 0)
    if w == 'tsc': return numpy.where(x <= 0.5, 0.75 - x ** 2, numpy.where(x < 1.5, 0.5 * (1.5 - x) ** 2, 0))
    return numpy.where(x <= 1, (4 - 6 * x ** 2 + 3 * x ** 3) / 6, numpy.where(x < 2, (2 - x) ** 3 / 6, 0))
def interpolate(field, u, w):
    """values of the periodic field at mesh positions u"""
    N = field.shape
    base = numpy.floor(u).astype('i8')
    out = numpy.zeros(len(u))
    r = range(-2, 4)
    import itertools
    for o in itertools.product(r, repeat=len(N)):
        i = base + numpy.array(o)
        k = numpy.prod([weight1(w, u[:, d] - i[:, d]) for d in range(len(N))], axis=0)
        if not k.any(): continue
        out += k * field[tuple(i[:, d] % N[d] for d in range(len(N)))]
    return out
def reference(case, tex):
    N = case['N']
    w = case['resampler'] or case['window']
    v = [x.astype('f8') for x in vectors(case)]
    if case['normalize']:
        a = sum(x ** 2 for x in v) ** 0.5
        a = numpy.where(a == 0, 1, a)
        v = [x / a for x in v]
    tex = tex.astype('f8')
    h = boxsize(case) / numpy.array(N)
    q = numpy.array(numpy.unravel_index(numpy.arange(numpy.prod(N)), N)).T * h
    f = tex.ravel().copy()
    for sign in (-1, 1):
        x = q.copy(); s = 0
        while s < case['length'] * 0.5:
            k = KERNELS[case['kernel']](s * sign / (case['length'] * 0.5))
            dx = numpy.array([interpolate(y, x / h, w) for y in v]).T * case['ds']
            x = x + 0.5 * sign * dx
            f = f + interpolate(tex, x / h, w) * k * case['ds']
            x = x + 0.5 * sign * dx
            s += case['ds']
    return f.reshape(N)
def run(case, choices):
    n = case['n']
    V, X = vectors(case), texture(case)
    def work(ctx, single):
        lic = ctx.mod('lic').lic
        pm = mesh(ctx, case, ref=single)
        v = [set_local(pm.create('real'), x) for x in V]
        tex = set_local(pm.create('real'), X) if case['texture'] != 'default' else None
        r = lic(v, KERNELS[case['kernel']], case['length'], case['ds'], resampler=case['resampler'], texture=tex, normalize=case['normalize'])
        for d, x in enumerate(v): same(numpy.array(x.value), V[d][x.slices], 'vectors given, direction %d' % d)
        if tex is not None: same(numpy.array(tex.value), X[tex.slices], 'texture given')
        check(r.pm.comm == pm.comm, 'image on another communicator')
        t = pm.generate_whitenoise(seed=990919, type='real') if tex is None else tex
        return grab(r), grab(t)
    res = run_world(n, lambda ctx: work(ctx, False), choices, params_of(case))
    img = assemble([r[0] for r in res], 'image').astype('f8')
    tex = assemble([r[1] for r in res], 'texture').astype('f8')
    ref = reference(case, tex)
    eps = 3e-3 if case['dtype'] == 'f4' else 1e-7
    # how far two nearby lines separate: lines through rough fields amplify rounding
    s = numpy.abs(tex).max() * (1 + case['length'] * 2)
    vm = max(numpy.abs(v).max() for v in V) if not case['normalize'] else 1.0
    amp = (1 + vm * case['ds'] * max(numpy.array(case['N']) / boxsize(case)) * 2) ** (case['length'] / 2 / case['ds'] + 1)
    if eps * 1e-5 * amp > 1e-3: return
    e = 1e-13 if case['dtype'] == 'f8' else 2e-6
    close(img, ref, (e * 100 * (1 + amp)) * s, 'image')
    if case['texture'] == 'constant':
        m = 1.0
        for sign in (-1, 1):
            t = 0
            while t < case['length'] * 0.5:
                m += KERNELS[case['kernel']](t * sign / (case['length'] * 0.5)) * case['ds']; t += case['ds']
        close(img, case['value'] * m + 0 * img, (1e-11 if case['dtype'] == 'f8' else 1e-4) * abs(case['value'] * m) + 1e-12, 'image of a constant texture')
