"""Global sums, means, norms, inner products."""
from .meshcase import *
from .c12 import TYPES, CLS, forward, backward
SHRINK = {'ops': 1}
METRICS = {'none': None, 'k2': lambda k: k ** 2, 'one': lambda k: 1.0 + 0 * k, 'gauss': lambda k: numpy.exp(-0.01 * k), 'step': lambda k: (k < 5) * 1.0}
NORMS = {'default': None, 'abs': lambda x: abs(x), 'quart': lambda x: (x.real ** 2 + x.imag ** 2) ** 2}
def gen(rng, tier, index):
    case = gen_mesh(rng)
    case['ops'] = [dict(op=rng.choice(['sum', 'mean', 'dot', 'dot', 'norm', 'norm', 'parseval', 'mixed']), kind=rng.choice(TYPES), metric=rng.choice(sorted(METRICS)), norm=rng.choice(sorted(NORMS)), dtype=rng.choice([None, None, 'f8', 'c16', 'f4']),
                   seed=rng.randrange(1 << 20), array=rng.random() < 0.2, self=rng.random() < 0.15) for i in range(rng.choice([1, 2, 3, 4]))]
    case['scale'] = rng.choice([1, 1, 1e3, 1e-3])
    case['swarm'] = swarm(rng, case['n'])
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('metric', 'none'), ('norm', 'default'), ('dtype', None), ('array', False), ('self', False)):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
def kabs(case, shape):
    k2 = numpy.zeros(shape)
    for d, n in enumerate(case['N']):
        w = numpy.fft.fftfreq(n) * n
        k = 2 * numpy.pi / boxsize(case)[d] * w[:shape[d]]
        k2 = k2 + (k ** 2).reshape([-1 if i == d else 1 for i in range(len(shape))])
    return k2 ** 0.5
def weights(case, shape):
    """how many modes of the full transform each stored one stands for"""
    w = numpy.ones(shape)
    if is_real(case):
        n = case['N'][-1]
        i = numpy.arange(shape[-1])
        w = w * numpy.where((i != 0) & (2 * i != n), 2.0, 1.0)
    return w
def run(case, choices):
    sc = case['scale']
    eps = 1e-5 if case['dtype'] in ('f4', 'c8') else 1e-12
    def content(op, which):
        g = global_field(case, (op['seed'], 0 if op['self'] else which), 'real' if op['kind'] == 'real' else 'complex')
        return (g * sc).astype(g.dtype)
    def fn(ctx):
        pm = mesh(ctx, case)
        outs = []
        for k, op in enumerate(case['ops']):
            ga, gb = content(op, 1), content(op, 2)
            kind = op['kind']
            a = set_local(pm.create(kind), ga)
            b = a if op['self'] else set_local(pm.create(kind), gb)
            m = METRICS[op['metric']]
            kw = dict(metric=m) if m is not None else {}
            o = op['op']
            if o == 'parseval': r = None
            if o in ('sum', 'mean'):
                if kind != 'real': r = None
                else:
                    dt = dict(dtype=op['dtype']) if op['dtype'] and (is_real(case) or op['dtype'] == 'c16') else {}
                    r = a.csum(**dt) if o == 'sum' else a.cmean(**dt)
            elif o == 'dot':
                arg = numpy.array(b.value) if op['array'] else b
                r = a.cdot(arg) if kind == 'real' else a.cdot(arg, **kw)
            elif o == 'norm':
                nk = dict(norm=NORMS[op['norm']]) if NORMS[op['norm']] is not None else {}
                r = a.cnorm() if kind == 'real' else a.cnorm(**dict(kw, **nk))
            elif o == 'mixed':
                # fields of two kinds have no inner product: refused on every rank
                other = TYPES[(TYPES.index(kind) + 1 + op['seed'] % 2) % 3]
                r = None
                try: a.cdot(pm.create(other, value=0))
                except TypeError: pass
                else: fail('step %d: inner product of a %s and a %s field' % (k, kind, other))
            elif o == 'parseval':
                t = pm.create('real'), pm.create('real')
                g1, g2 = global_field(case, (op['seed'], 1)), global_field(case, (op['seed'], 2))
                set_local(t[0], g1); set_local(t[1], g2)
                ck = kind if kind != 'real' else 'transposedcomplex'
                c1, c2 = t[0].cast(ck), t[1].cast(ck)
                r = (t[0].cdot(t[1]), c1.cdot(c2), t[0].cnorm(), c1.cnorm())
            same(numpy.array(a.value), ga[a.slices], '%s of a %s field: its operand' % (o, kind))
            if not op['self']: same(numpy.array(b.value), gb[b.slices], '%s of a %s field: its operand' % (o, kind))
            outs.append(r)
        return outs
    res = run_world(case['n'], fn, choices, params_of(case))
    for k, op in enumerate(case['ops']):
        kind, o = op['kind'], op['op']
        what = 'step %d: %s of %s field%s' % (k, o, kind, ' with metric' if op['metric'] != 'none' and kind != 'real' else '')
        vals = [r[k] for r in res]
        if vals[0] is None: continue
        if o == 'parseval':
            for i in range(4): agree([v[i] for v in vals], what)
            P = float(numpy.prod(case['N']))
            d, c, n1, n2 = vals[0]
            s = P * 50
            if is_real(case): close(numpy.real(c) * P, d, eps * s, what + ': inner product in Fourier and real space')
            if is_real(case): close(numpy.real(n2) * P, n1, eps * s, what + ': norm in Fourier and real space')
            continue
        agree(vals, what)
        a, b = content(op, 1), content(op, 2)
        A, B = a.astype('c16'), b.astype('c16')
        if o in ('sum', 'mean'):
            e = A.sum() / (a.size if o == 'mean' else 1)
            s = numpy.abs(A).sum() / (a.size if o == 'mean' else 1) * (1e3 if op['dtype'] == 'f4' and eps < 1e-10 else 1) * (1e4 if op['dtype'] == 'f4' and eps < 1e-10 else 1)
        elif kind == 'real':
            e = (A * (B if o == 'dot' else A)).sum(); s = numpy.abs(A * (B if o == 'dot' else A)).sum()
        else:
            w = weights(case, a.shape)
            m = METRICS[op['metric']]
            kk = kabs(case, a.shape)
            if op['metric'] == 'step' and numpy.abs(kk - 5).min() < 1e-3: continue
            mm = m(kk) if m is not None else 1.0
            if o == 'dot': t = A * numpy.conj(B) * w * mm
            else:
                nf = NORMS[op['norm']] or (lambda x: x.real ** 2 + x.imag ** 2)
                t = nf(A) * w * mm
            if o == 'dot' and is_real(case):
                # conjugates of the modes that are not stored: the imaginary part is not specified
                e = t.sum(); s = numpy.abs(t).sum()
                close(numpy.real(vals[0]), e.real, eps * (s + 1e-30), what); continue
            e = t.sum(); s = numpy.abs(t).sum()
        # asked to add in double precision: exact as such, whatever the precision of the field
        t = 1e-12 if o in ('sum', 'mean') and (op['dtype'] == 'c16' or op['dtype'] == 'f8' and is_real(case)) else eps
        close(numpy.asarray(vals[0]).astype('c16'), numpy.asarray(e).astype('c16'), t * (s + 1e-30), what)
