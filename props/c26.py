"""The deprecated mesh interface and its transfer functions."""
from .meshcase import *
import itertools
SHRINK = {'ops': 1, 'pts': 0}
TF = ['norm', 'rmdc', 'tri', 'lanc', 'lanc0', 'gauss', 'const', 'laplace', 'poisson', 'ps', 'ps']
def gen(rng, tier, index):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7])
    N = rng.choice([1, 2, 3, 4, 4, 5, 6, 7, 8])
    case = dict(n=n, N=[N] * 3, np=rng.choice([None, factor(rng, n, 2)]), box=rng.choice([1.0, float(N), 7.5, [rng.uniform(1, 9) for d in range(3)]]), dtype=rng.choice(['f8', 'f8', 'f4']), window=rng.choice(['cic', 'cic', 'tsc']), verbose=rng.random() < 0.15)
    case['pts'] = gen_particles(rng, case, most=14)
    ops = []
    state = 'real'
    depth = 0
    for i in range(rng.choice([2, 3, 4, 6, 8])):
        if state == 'real': o = rng.choice(['paint', 'paint', 'paint', 'clear', 'set', 'readout', 'readout', 'r2c', 'r2c', 'r2c'])
        else: o = rng.choice(['transfer', 'transfer', 'transfer', 'push', 'push', 'pop', 'c2r', 'c2r', 'clear', 'fill'])
        if o == 'pop' and not depth: o = 'push'
        depth += (o == 'push') - (o == 'pop')
        if o == 'r2c': state = 'complex'
        if o in ('c2r', 'clear'): state = 'real'
        chain = [dict(tf=rng.choice(TF), a=round(rng.uniform(0.2, 2), 2), dir=rng.randrange(3), bins=rng.choice([1, 2, 3, 5, 7])) for j in range(rng.choice([0, 1, 1, 2, 3]))]
        ops.append(dict(op=o, mass=rng.choice(['one', 'scalar', 'array']), seed=rng.randrange(1 << 20), chain=chain, count=rng.choice([1, 1, 2])))
    case['ops'] = ops
    case['swarm'] = swarm(rng, n)
    case['spoil'] = rng.random() < 0.3
    case['swarm']['rates'].pop('cart_order', None)      # the legacy mesh takes the ranks of the process mesh in C order
    return case
def simplify(case):
    def fix(c):
        return dict(c, N=[min(c['N'])] * 3)
    for c in simplify_mesh(case, fix): 
        if c['window'] == 'nnb': continue
        yield c
    if case['verbose']: yield dict(case, verbose=False)
    for i, o in enumerate(case['ops']):
        if o['mass'] != 'one': yield dict(case, ops=case['ops'][:i] + [dict(o, mass='one')] + case['ops'][i + 1:])
        for j in range(len(o['chain'])):
            yield dict(case, ops=case['ops'][:i] + [dict(o, chain=o['chain'][:j] + o['chain'][j + 1:])] + case['ops'][i + 1:])

# ------------------------------------------------------------------ reference
def freq(N): return (numpy.arange(N) + N // 2) % N - N // 2
def omega(case):
    """circular frequencies of the compressed modes, one array per direction"""
    N = case['N'][0]
    w = 2 * numpy.pi * freq(N) / N
    o = []
    for d in range(3):
        v = w if d < 2 else w[:N // 2 + 1]
        o.append(v.reshape([-1 if e == d else 1 for e in range(3)]))
    return o
def kernel(w, u, j):
    x = numpy.abs(u - j)
    if w == 'cic': return numpy.where(x < 1, 1 - x, 0)
    return numpy.where(x <= 0.5, 0.75 - x ** 2, numpy.where(x < 1.5, 0.5 * (1.5 - x) ** 2, 0))
def stencil(w, u):
    """(cell, weight) of positions in mesh units"""
    base = numpy.floor(u).astype('i8')
    for o in itertools.product(range(-1, 3), repeat=3):
        j = base + numpy.array(o)
        yield j, numpy.prod([kernel(w, u[:, d], j[:, d]) for d in range(3)], axis=0)
def masses(case, op):
    P = len(case['pts'])
    if op['mass'] == 'one': return numpy.ones(P)
    if op['mass'] == 'scalar': return numpy.full(P, 2.5)
    return nprng('mass', op['seed']).uniform(0.5, 2, size=P)
def model(case):
    """what the operations give on the whole mesh; decides which transfer functions are left out"""
    N = case['N'][0]
    box = boxsize(case)
    u = all_pos(case) * (N / box)
    w = omega(case)
    w2 = sum(i ** 2 for i in w)
    real, comp, stack = numpy.zeros([N] * 3), None, []
    outs, skip = [], set()
    half = numpy.ones(w2.shape)
    half[..., 0] = 0.5
    if N % 2 == 0: half[..., -1] = 0.5
    if N == 1: half[...] = 0.5
    for k, op in enumerate(case['ops']):
        o = op['op']
        out = []
        if o == 'paint':
            for c in range(op['count']):
                m = masses(case, op) * (N ** 3 / box.prod())
                for j, q in stencil(case['window'], u):
                    numpy.add.at(real, tuple(j[:, d] % N for d in range(3)), m * q)
        if o == 'clear': real, comp = numpy.zeros([N] * 3), None
        if o == 'set': real = nprng('leg', op['seed']).normal(size=[N] * 3)
        if o == 'fill': comp = fill(case, op)
        if o == 'readout':
            v = numpy.zeros(len(u))
            for j, q in stencil('cic', u): v += q * real[tuple(j[:, d] % N for d in range(3))]
            out.append(v)
        if o == 'r2c': comp = numpy.fft.rfftn(real) / N ** 3
        if o == 'push': stack.append(comp.copy())
        if o == 'pop': comp = stack.pop()
        if o in ('transfer', 'c2r'):
            for i, t in enumerate(op['chain']):
                f = t['tf']
                size = numpy.sqrt(numpy.mean(abs(comp) ** 2))
                if f == 'norm':
                    if abs(comp[0, 0, 0]) < 0.05 * size or size == 0: skip.add((k, i)); continue
                    comp = comp / abs(comp[0, 0, 0])
                if f == 'rmdc': comp = comp.copy(); comp[0, 0, 0] = 0
                if f == 'tri':
                    for wi in w: comp = comp / numpy.sinc(wi / (2 * numpy.pi)) ** 2
                if f == 'lanc': comp = comp * 1j / 6 * (8 * numpy.sin(w[t['dir']]) - numpy.sin(2 * w[t['dir']]))
                if f == 'lanc0': comp = comp * 1j * w[t['dir']]
                if f == 'gauss':
                    comp = comp * numpy.exp(-0.5 * w2 * t['a'] ** 2)
                if f == 'const': comp = comp * t['a']
                if f == 'laplace': comp = -comp * w2
                if f == 'poisson': comp = -comp / numpy.where(w2 == 0, numpy.inf, w2)
                if f == 'ps':
                    b = t['bins']
                    e = numpy.linspace(0, numpy.pi, b + 1)
                    x = numpy.sqrt(w2)
                    d = numpy.digitize(x, e)
                    near = [[q, q + 1] for q in range(1, b + 1) if (abs(x - e[q]) < 1e-4).any()]
                    bad = set(sum(near, []))
                    cnt = numpy.bincount(d.ravel(), weights=half.ravel(), minlength=b + 2)[1:-1]
                    with numpy.errstate(all='ignore'):
                        P = numpy.bincount(d.ravel(), weights=(half * abs(comp) ** 2).ravel(), minlength=b + 2)[1:-1] / cnt
                        W = numpy.bincount(d.ravel(), weights=(half * x).ravel(), minlength=b + 2)[1:-1] / cnt
                    sure = numpy.array([q + 1 not in bad for q in range(b)])
                    out.append((W, P, sure))
        if o == 'c2r':
            real = numpy.fft.irfftn(comp * N ** 3, [N] * 3) if N > 1 else comp.real.copy()
            comp = None
        outs.append(out)
        if comp is not None: outs[-1].append(comp.copy())
        else: outs[-1].append(real.copy())
    return outs, skip
def fill(case, op):
    N = case['N'][0]
    return numpy.fft.rfftn(nprng('legk', op['seed']).normal(size=[N] * 3)) / N ** 1.5

def normal(case):
    """the steps that make sense in the state they meet"""
    ops, state, depth = [], 'real', 0
    for op in case['ops']:
        o = op['op']
        if o in ('transfer', 'push', 'pop', 'c2r', 'fill') and state == 'real': continue
        if o in ('paint', 'set', 'readout', 'r2c') and state == 'complex': continue
        if o == 'pop' and not depth: continue
        depth += (o == 'push') - (o == 'pop')
        if o == 'r2c': state = 'complex'
        if o in ('c2r', 'clear'): state = 'real'
        ops.append(op)
    return dict(case, ops=ops)
def run(case, choices):
    case = normal(case)
    n, N = case['n'], case['N'][0]
    with numpy.errstate(all='ignore'): want, skip = model(case)
    def work(ctx, single):
        PM = ctx.mod('particlemesh').ParticleMesh
        T = ctx.mod('transfer').TransferFunction
        pm = PM(case['box'], N, paintbrush=case['window'], comm=ctx.comm, np=None if single else case['np'], verbose=case['verbose'], dtype=case['dtype'])
        if case['spoil'] and not single:
            # another mesh, of another box, in use at the same time
            other = PM(boxsize(case) * 1.5, N, paintbrush=case['window'], comm=ctx.comm, np=case['np'], verbose=False, dtype=case['dtype'])
            other.paint(nprng('other', 1).uniform(size=(3, 3)) * boxsize(case)); other.r2c()
        p = pm.partition
        si = tuple(slice(a, a + b) for a, b in zip(p.local_i_start, p.local_ni))
        so = tuple(slice(a, a + b) for a, b in zip(p.local_o_start, p.local_no))
        check(pm.real.shape == tuple(p.local_ni) and pm.complex.shape == tuple(p.local_no), 'shapes of the buffers')
        wref = omega(case)
        for d in range(3):
            r = freq(N)[si[d]]
            close(numpy.ravel(pm.r[d]), r, 1e-5 * N, 'mesh positions'); close(numpy.ravel(pm.x[d]), r * boxsize(case)[d] / N, 1e-5 * boxsize(case)[d], 'positions')
            v = numpy.ravel(wref[d])[so[d]]
            close(numpy.ravel(pm.w[d]), v, 1e-5, 'circular frequencies'); close(numpy.ravel(pm.k[d]), v * N / boxsize(case)[d], 1e-5 * N / boxsize(case)[d], 'wave numbers')
        pos = all_pos(case) if single else local_pos(case, ctx.rank)
        layout = pm.decompose(pos)
        outs = []
        state = 'real'
        saved, mine = [], Results(case['spoil'])
        for k, op in enumerate(case['ops']):
            o = op['op']
            out = []
            if o == 'paint':
                for c in range(op['count']):
                    x = layout.exchange(pos)
                    if op['mass'] == 'one': pm.paint(x)
                    elif op['mass'] == 'scalar': pm.paint(x, mass=2.5)
                    else:
                        m = masses(case, op)
                        pm.paint(x, mass=layout.exchange(m if single else local_of(m, case, ctx.rank).copy()))
            if o == 'clear': pm.clear(); state = 'real'
            if o == 'set': pm.real[...] = nprng('leg', op['seed']).normal(size=[N] * 3)[si]
            if o == 'fill': pm.complex[...] = fill(case, op)[so]
            if o == 'readout':
                v = pm.readout(layout.exchange(pos))
                out.append(layout.gather(v, mode='sum'))
                mine.add(v, 'values of step %d' % k)
            if o == 'r2c': pm.r2c(); state = 'complex'
            if o == 'push':
                saved.append(numpy.array(pm.complex, copy=True)); pm.push()
            if o == 'pop':
                pm.pop(); same(pm.complex, saved.pop(), 'step %d: field restored' % k)
            if o in ('transfer', 'c2r'):
                fs, ps = [], []
                for i, t in enumerate(op['chain']):
                    if (k, i) in skip: continue
                    f = t['tf']
                    if f == 'norm': fs.append(T.NormalizeDC)
                    if f == 'rmdc': fs.append(T.RemoveDC)
                    if f == 'tri': fs.append(T.Trilinear)
                    if f == 'lanc': fs.append(T.SuperLanzcos(t['dir']))
                    if f == 'lanc0': fs.append(T.SuperLanzcos(t['dir'], order=0))
                    if f == 'gauss': fs.append(T.Gaussian(t['a']))
                    if f == 'const': fs.append(T.Constant(t['a']))
                    if f == 'laplace': fs.append(T.Laplace)
                    if f == 'poisson': fs.append(T.Poisson)
                    if f == 'ps':
                        a = numpy.zeros(t['bins']), numpy.zeros(t['bins'])
                        ps.append(a); fs.append(T.PowerSpectrum(*a))
                with numpy.errstate(all='ignore'):
                    if o == 'transfer': pm.transfer(fs)
                    else: pm.c2r(fs)
                out += ps
                if o == 'c2r': state = 'real'
            a = pm.complex if state == 'complex' else pm.real
            st = p.local_o_start if state == 'complex' else p.local_i_start
            out.append(([int(i) for i in st], numpy.array(a, copy=True), [N, N, N // 2 + 1] if state == 'complex' else [N] * 3))
            outs.append(out)
        mine.check()
        check(len(pm.stack) == len(saved), 'saved fields left: %d of %d', len(pm.stack), len(saved))
        return outs
    ref = run_world(1, lambda ctx: work(ctx, True), params=params_of(case), ref=True)[0]
    res = run_world(n, lambda ctx: work(ctx, False), choices, params_of(case))
    # the frequencies are kept in single precision; noise: the error that may remain in the field
    eps = 3e-5 if case['dtype'] == 'f4' else 3e-6
    noise, before, stack = 0.0, 1.0, []
    GROW = dict(tri=15, poisson=2, laplace=30, lanc=2, lanc0=3.2, const=2)
    for k, op in enumerate(case['ops']):
        what = 'step %d: %s' % (k, op['op'])
        if op['op'] in ('transfer', 'c2r'): what += ' after ' + ' '.join(t['tf'] for t in op['chain'])
        full = assemble([r[k][-1] for r in res], what)
        w = want[k][-1]
        s = max(1e-12, float(numpy.abs(w).max()))
        o = op['op']
        if o in ('set', 'fill', 'clear'): noise = 0.0
        if o in ('transfer', 'c2r'):
            for i, t in enumerate(op['chain']):
                if (k, i) in skip: continue
                noise *= GROW.get(t['tf'], 1)
                if t['tf'] == 'norm': noise *= 400 / before if before else 1
                if t['tf'] in GROW: noise = max(noise, eps * before)
        if o == 'c2r': noise *= N ** 1.5
        if o == 'push': stack.append(noise)
        if o == 'pop': noise = stack.pop()
        noise = max(noise, eps * s); before = s
        for name, a in (('expected', w), ('on one rank', ref[k][-1][1])):
            close(full, a, noise, '%s, compared with the field %s' % (what, name))
        for j in range(len(want[k]) - 1):
            if op['op'] == 'readout':
                got = numpy.concatenate([r[k][j] for r in res])
                s = max([1e-12] + [float(numpy.abs(w).max())])
                t = max(noise, eps * s)
                close(got, want[k][j], t, what + ': values expected'); close(got, ref[k][j], t, what + ': values on one rank')
            else:
                for r in range(n):
                    for q, name in ((0, 'frequencies'), (1, 'power')):
                        a = res[r][k][j][q]
                        same(a, res[0][k][j][q], '%s: %s of spectrum on rank %d' % (what, name, r))
                        b = want[k][j][q]
                        sure = want[k][j][2]
                        check((numpy.isnan(a) == numpy.isnan(ref[k][j][q])).all(), '%s: bins filled on rank %d', what, r)
                        check((numpy.isnan(a) == numpy.isnan(b))[sure].all(), '%s: bins filled on rank %d', what, r)
                        z = lambda x: numpy.where(numpy.isnan(x), 0, x)
                        sc = max([1e-12] + list(abs(z(b)))) 
                        t = 10 * noise ** 2 + 10 * noise * sc ** 0.5 if q else 0
                        close(z(a), z(ref[k][j][q]), t + eps * max(sc, max([0] + list(abs(z(ref[k][j][q]))))), '%s: %s of spectrum on rank %d and on one rank' % (what, name, r))
                        close(z(a)[sure], z(b)[sure], t + 3 * eps * sc, '%s: %s of spectrum on rank %d' % (what, name, r))
