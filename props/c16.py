"""White noise depends on seed and mesh only."""
from .meshcase import *
from .c12 import TYPES, CLS, backward
SHRINK = {'ops': 1}
def gen(rng, tier, index):
    case = gen_mesh(rng, most=300)
    case['seedpool'] = [rng.randrange(1 << 31) for i in range(2)] + [rng.choice([0, 1, 2 ** 31 - 1, 2 ** 32 - 1])]
    case['ops'] = [dict(s=rng.randrange(3), kind=rng.choice(TYPES), unitary=rng.choice([False, False, True, 1]), mean=rng.choice([0, 0, 1.0, -2.5, 1e3]), base=rng.choice([None, None, 'fresh', 'old']), draw=rng.randrange(1, 1000), cls=rng.random() < 0.3, legacy=rng.random() < 0.1) for i in range(rng.choice([1, 2, 3, 4]))]
    case['finer'] = [rng.choice([0, 1, 2, 3, 6]) for x in case['N']] if len(case['N']) == 3 and rng.random() < 0.4 else None
    case['other'] = rng.randrange(31) if rng.random() < 0.3 else None
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    if case['finer']: yield dict(case, finer=None)
    if case['other'] is not None: yield dict(case, other=None)
    for i, o in enumerate(case['ops']):
        for k, v in (('unitary', False), ('mean', 0), ('base', None), ('kind', 'transposedcomplex'), ('cls', False), ('legacy', False)):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
def dual(N, shape):
    """the conjugate of each mode: indices, and whether it is stored"""
    idx = numpy.indices(shape)
    d = [(n - i) % n for i, n in zip(idx, N)]
    return d, numpy.all([a < s for a, s in zip(d, shape)], axis=0)

def run(case, choices):
    N = case['N']
    eps = 2e-6 if case['dtype'] in ('f4', 'c8') else 1e-13
    def work(ctx, single):
        pm = mesh(ctx, case, ref=single)
        outs, keep = [], []
        for k, op in enumerate(case['ops']):
            what = 'noise %d' % k
            kind = getattr(ctx.mod('pm'), CLS[op['kind']]) if op['cls'] else op['kind']
            kw = {}
            if op['unitary']: kw['unitary'] = op['unitary']
            if op['mean']: kw['mean'] = op['mean']
            if op['base'] == 'fresh': kw['base'] = pm.create('real')._base
            if op['base'] == 'old' and keep: kw['base'] = keep[-1][0]._base; keep.pop()
            if op['legacy']: kw['mode'] = kind
            else: kw['type'] = kind
            if not single:
                numpy.random.seed(op['draw'] + 17 * ctx.rank)
                ctx.pause()
            st = numpy.random.get_state()
            f = pm.generate_whitenoise(case['seedpool'][op['s']], **kw)
            if case['n'] == 1 and not single or op['kind'] != 'real':
                b = numpy.random.get_state()
                check(st[2] == b[2] and (st[1] == b[1]).all(), '%s: the random state of the caller was used', what)
            check(type(f).__name__ == CLS[op['kind']], '%s: %s, asked for %s', what, type(f).__name__, op['kind'])
            if 'base' in kw: check(f._base in kw['base'], '%s is not in the memory given', what)
            for g, v, w in keep: same(numpy.array(g.value), v, w + ' after ' + what)
            outs.append(grab(f))
            if case['spoil'] and k % 2 == 0: f.value[...] = 1
            keep.append((f, numpy.array(f.value, copy=True), what))
        if case['finer'] and not single:
            # the same noise on a finer mesh of the same volume
            op = case['ops'][-1]
            fine = pm.reshape(Nmesh=[a + b for a, b in zip(N, case['finer'])])
            kind = op['kind'] if op['kind'] != 'real' else 'untransposedcomplex'
            for p in (pm, fine): outs.append(grab(p.generate_whitenoise(case['seedpool'][op['s']], unitary=op['unitary'], type=kind)))
        if case['other'] is not None and not single:
            # another seed, one bit away
            op = case['ops'][-1]
            kind = op['kind'] if op['kind'] != 'real' else 'untransposedcomplex'
            for s in (0, 1 << case['other']): outs.append(grab(pm.generate_whitenoise(case['seedpool'][op['s']] ^ s, type=kind)))
        return outs
    ref = run_world(1, lambda ctx: work(ctx, True), ref=True)[0]
    res = run_world(case['n'], lambda ctx: work(ctx, False), choices, params_of(case))
    seen = {}
    for k, op in enumerate(case['ops']):
        what = 'noise %d (%s)' % (k, op['kind'])
        a = assemble([r[k] for r in res], what)
        b = assemble([ref[k]], what)
        P = float(numpy.prod(N))
        s = 10.0 + abs(op['mean'])
        real = op['kind'] == 'real'
        close(a, b, eps * s * (P ** 0.5 * 10 if real else 0) + (0 if not real else 1e-300), what + ': compared with one rank')
        key = (op['s'], bool(op['unitary']), op['mean'])
        if not real:
            if key in seen: same(a, seen[key], what + ': same seed again')
            seen[key] = a
            d, st = dual(N, a.shape)
            dd = [numpy.where(st, x, 0) for x in d]
            close(a[st], numpy.conj(a[tuple(dd)])[st], eps * s * P ** 0.5, what + ': Hermitian')
            z = (0,) * len(N)
            close(a[z], numpy.asarray(a.dtype.type(op['mean'])), 0, what + ': mean')
            if not op['unitary']:
                # noise: no two independent modes have the same value
                lin = numpy.arange(a.size).reshape(a.shape)
                dl = numpy.where(st, numpy.ravel_multi_index(dd, a.shape), lin)
                rep = (lin <= dl); rep[z] = False
                v = numpy.stack([a.real[rep], numpy.abs(a.imag[rep])], axis=-1)
                u = len(numpy.unique(v, axis=0))
                check(u == len(v), '%s: %d independent modes have only %d different values', what, len(v), u)
                # complex Gaussian of unit variance: the bounds are passed once in 10^12 fields
                m = a[rep & ~(st & (lin == dl))].astype('c16')
                M = len(m)
                if M:
                    check((m.imag != 0).all() and (m.real != 0).all(), '%s: modes with a real or imaginary part of zero', what)
                    x = (abs(m) ** 2).mean()
                    check(M * (x - 1 - numpy.log(x)) < 32, '%s: mean square of %d modes is %g', what, M, x)
                    for h in (1, 2):
                        c = abs(((m / abs(m)) ** h).sum())
                        check(c < 6.5 * M ** 0.5, '%s: phases of %d modes are not uniform', what, M)
            if op['unitary']:
                m = numpy.abs(a).astype('f8'); m[z] = 1.0
                close(m, numpy.ones_like(m), 10 * eps, what + ': modulus')
        else:
            close(a.astype('c16').mean(), numpy.asarray(complex(op['mean'])), eps * s * 50 * P, what + ': mean')
    # real-space output is the backward transform of the modes
    for k, op in enumerate(case['ops']):
        key = (op['s'], bool(op['unitary']), op['mean'])
        if op['kind'] == 'real' and key in seen:
            a = assemble([r[k] for r in res], 'noise')
            e = backward(case, seen[key])
            P = float(numpy.prod(N))
            close(a, e, eps * 100 * (10 + abs(op['mean'])) * P ** 0.5 * 3, 'noise %d: transform of the modes' % k)
    if case['other'] is not None:
        a, b = [assemble([r.pop(i) for r in res], 'noise for comparison') for i in (-2, -1)]
        a, b = a[a.imag != 0], b[a.imag != 0]
        check(min(case['seedpool'][op['s']], case['seedpool'][op['s']] ^ (1 << case['other'])) == 0 or not (a == b).any(), 'seeds %d and %d give %d modes the same value', case['seedpool'][op['s']], case['seedpool'][op['s']] ^ (1 << case['other']), (a == b).sum())
    if case['finer']:
        a, b = [assemble([r[i] for r in res], 'noise for comparison') for i in (-2, -1)]
        M = [x + y for x, y in zip(N, case['finer'])]
        low = [numpy.arange(-((n - 1) // 2), (n - 1) // 2 + 1) for n in N]
        if is_real(case): low[-1] = low[-1][low[-1] >= 0]
        close(a[numpy.ix_(*[i % n for i, n in zip(low, N)])], b[numpy.ix_(*[i % n for i, n in zip(low, M)])], eps * 10, 'the modes that meshes of %s and %s points have in common' % (N, M))
