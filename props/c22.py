"""Resampling between meshes, previews."""
from .meshcase import *
from .c12 import TYPES, CLS, forward, backward
SHRINK = {'ops': 1}
SMOOTH = ['cic', 'tsc', 'pcs', 'linear', 'quadratic', 'cubic', 'lanczos2', 'lanczos3']   # no jumps at which rounding decides
WIN = ['nnb', 'cic', 'tsc', 'pcs', 'nearest', 'linear', 'quadratic', 'cubic', 'lanczos2', 'lanczos3', 'db6', 'acg3']
def gen(rng, tier, index):
    case = gen_mesh(rng, most=250)
    N = case['N']; nd = len(N)
    ops = []
    for i in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['half', 'double', 'same', 'random', 'random', 'near'])
        if k == 'half': M = [max(1, n // 2) for n in N]
        elif k == 'double': M = [min(2 * n, 24) for n in N]
        elif k == 'same': M = list(N)
        elif k == 'near': M = [max(1, n + rng.choice([-2, -1, 0, 1, 2])) for n in N]
        else: M = [rng.randrange(1, {1: 25, 2: 13, 3: 8}[nd]) for n in N]
        o = rng.choice(['resample', 'resample', 'resample', 'upsample', 'downsample', 'preview', 'preview'])
        if o == 'preview' and rng.random() < 0.3: M = [M[0]] * nd
        if not is_real(case) and o in ('upsample', 'downsample'): o = 'resample'
        axes = rng.sample(range(nd), rng.randrange(1, nd + 1)) if rng.random() < 0.7 else None
        ops.append(dict(op=o, M=M, src=rng.choice(TYPES), dst=rng.choice(TYPES), window=rng.choice(WIN + [None, None]), keep=rng.random() < 0.5, axes=axes, aform=rng.choice(['list', 'tuple', 'int']), res=rng.choice([None, None, 'new', 'scalar']), method=rng.choice([None, 'upsample', 'downsample']),
                        how=rng.choice(['reshape', 'new', 'newnp']), seed=rng.randrange(1 << 20), dtype=rng.choice(['same', 'same', 'same', 'other', 'cross'])))
    case['ops'] = ops
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        alt = [('window', None), ('src', 'transposedcomplex'), ('dst', 'transposedcomplex'), ('keep', False), ('how', 'reshape'), ('dtype', 'same'), ('method', None), ('res', None), ('axes', None)]
        for k, v in alt:
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
        for d, m in enumerate(o['M']):
            for x in (1, 2, 4, m // 2, m - 1):
                if 1 <= x < m: yield dict(case, ops=case['ops'][:i] + [dict(o, M=o['M'][:d] + [x] + o['M'][d + 1:])] + case['ops'][i + 1:])

def truth(case, c, M):
    """modes of the field with modes c on a mesh of M points"""
    N = case['N']
    out = [m for m in M]
    if is_real(case): out[-1] = M[-1] // 2 + 1
    if list(M) == list(N): return c
    r = numpy.zeros(out, 'c16')
    def freq(n, k): return [i if 2 * i <= n else i - n for i in range(k)]
    dst = [freq(M[d], out[d]) for d in range(len(N))]
    src = []
    for d in range(len(N)):
        ok = [(j, f % N[d]) for j, f in enumerate(dst[d]) if 2 * abs(f) < M[d] and 2 * abs(f) < N[d]]
        src.append(ok)
    a = numpy.ix_(*[[j for j, s in x] for x in src])
    b = numpy.ix_(*[[s for j, s in x] for x in src])
    r[a] = c[b]
    return r

CROSS = {'f8': 'c16', 'f4': 'c8', 'c16': 'f8', 'c8': 'f4'}
def source(case, op):
    """the field resampled"""
    kind = 'real' if op['src'] == 'real' else 'complex'
    if op['dtype'] == 'cross' and not is_real(case):
        # only a field without imaginary part is one on a real mesh
        x = global_field(dict(case, dtype=CROSS[case['dtype']]), op['seed'], 'real').astype(case['dtype'])
        return x if kind == 'real' else forward(case, x).astype(case['dtype'])
    return global_field(case, op['seed'], kind)
def run(case, choices):
    N, nd, n = case['N'], len(case['N']), case['n']
    eps = 2e-5 if case['dtype'] in ('f4', 'c8') else 1e-12
    other = {'f8': 'f4', 'f4': 'f8', 'c16': 'c8', 'c8': 'c16'}
    def work(ctx, single):
        pm = mesh(ctx, case, ref=single)
        outs, mine = [], Results(case['spoil'])
        for k, op in enumerate(case['ops']):
            M = op['M']
            what = 'step %d: %s %s to %s' % (k, op['op'], N, M)
            if op['op'] == 'preview':
                g = global_field(case, op['seed'], 'real' if op['src'] == 'real' else 'complex')
                f = set_local(pm.create(op['src']), g)
                kw = {}
                if op['res'] == 'new' or op['res'] == 'scalar' and len(set(M)) == 1:
                    kw['Nmesh'] = M if op['res'] == 'new' else M[0]
                    kw['method'] = op['method']
                    kw['resampler'] = op['window']
                    if not is_real(case): kw = {}
                if op['axes'] is not None:
                    kw['axes'] = op['axes'][0] if op['aform'] == 'int' and len(op['axes']) == 1 else tuple(op['axes']) if op['aform'] == 'tuple' else list(op['axes'])
                r = f.preview(**kw)
                same(numpy.array(f.value), g[f.slices], what + ': the field')
                if kw.get('Nmesh') is None or op['M'] == N:
                    e = g if op['src'] == 'real' else backward(case, g)
                    axes = op['axes'] if op['axes'] is not None else list(range(nd))
                    drop = [d for d in range(nd) if d not in axes]
                    e = e.transpose(axes + drop).reshape([N[d] for d in axes] + [-1]).sum(axis=-1)
                    sc = numpy.abs(e).max() + numpy.prod(N) ** 0.5 * 20
                    close(r, e, eps * 10 * sc, what)
                e = None
                if single and kw.get('Nmesh') is not None and op['M'] != N and (op['window'] or case['window']) in SMOOTH:
                    # the definition: resampled keeping the mean, then summed over the other directions
                    B = numpy.ones(nd) * case['box']; w = op['window'] or case['window']
                    fr = f if op['src'] == 'real' else f.c2r()
                    if (op['method'] or ('downsample' if any(a < b for a, b in zip(M, N)) else 'upsample')) == 'upsample':
                        e = fr.readout(numpy.indices(M).reshape(nd, -1).T * (B / numpy.array(M)), resampler=w).astype('f8').reshape(M)
                    else:
                        pos = numpy.indices(N).reshape(nd, -1).T * (B / numpy.array(N))
                        e = numpy.array(mesh(ctx, case, Nmesh=M, ref=True).paint(pos, mass=numpy.array(fr.value).ravel() * (numpy.prod(M) / numpy.prod(N)), resampler=w).value).astype('f8')
                    axes = op['axes'] if op['axes'] is not None else list(range(nd))
                    e = e.transpose(axes + [d for d in range(nd) if d not in axes]).reshape([M[d] for d in axes] + [-1]).sum(axis=-1)
                outs.append((numpy.array(r), e)); mine.add(r, what); same(numpy.array(f.value), g[f.slices], what + ': the field, after its result was used'); continue
            dt = case['dtype'] if op['dtype'] == 'same' else other[case['dtype']] if op['dtype'] == 'other' or op['op'] != 'resample' else CROSS[case['dtype']]
            if op['how'] == 'reshape' and dt == case['dtype']: pm2 = pm.reshape(Nmesh=M)
            elif op['how'] == 'newnp': pm2 = mesh(ctx, dict(case, np=None), Nmesh=M, ref=single, dtype=dt)
            else: pm2 = mesh(ctx, case, Nmesh=M, ref=single, dtype=dt)
            if op['op'] == 'resample':
                g = source(case, op)
                f = set_local(pm.create(op['src']), g)
                out = pm2.create(op['dst'])
                r = f.resample(out)
                check(r is out, '%s returned another object', what)
                outs.append(grab(out))
            else:
                g = global_field(case, op['seed'])
                f = set_local(pm.create('real'), g)
                kw = {} if op['window'] is None else dict(resampler=op['window'])
                if op['keep']: kw['keep_mean'] = True
                r = (pm2.upsample if op['op'] == 'upsample' else pm2.downsample)(f, **kw)
                check(r.pm is pm2, '%s: result on another mesh', what)
                outs.append(grab(r))
                if single:
                    # the definition: values read out at the points of the target, or painted at those of the source
                    B = numpy.ones(nd) * case['box']; fine = numpy.indices(M if op['op'] == 'upsample' else N).reshape(nd, -1).T
                    ratio = numpy.prod(N) / numpy.prod(M)
                    w = op['window'] or case['window']
                    if op['op'] == 'upsample':
                        e = f.readout(fine * (B / numpy.array(M)), resampler=w).astype('f8') * (1.0 if op['keep'] else ratio)
                        e = e.reshape(M)
                    else:
                        e = numpy.array(pm2.paint(fine * (B / numpy.array(N)), mass=g.astype('f8').ravel() / (ratio if op['keep'] else 1.0), resampler=w).value)
                    outs[-1] = outs[-1] + (e,)
            same(numpy.array(f.value), g[f.slices], what + ': the source')
            mine.add(r, what)
        mine.check()
        return outs
    ref = run_world(1, lambda ctx: work(ctx, True), ref=True)[0]
    res = run_world(n, lambda ctx: work(ctx, False), choices, params_of(case))
    for k, op in enumerate(case['ops']):
        M = op['M']
        what = 'step %d: %s %s to %s' % (k, op['op'], N, M)
        if op['op'] == 'preview':
            agree([r[k][0] for r in res], what)
            p, e = ref[k]
            s = (float(numpy.abs(p).max()) if p.size else 0) + numpy.prod(N) ** 0.5 * 20
            close(res[0][k][0], p, eps * 10 * s, what + ': compared with one rank')
            if e is not None: close(p, e, eps * 100 * (s + numpy.abs(e).max() + numpy.prod(M) / numpy.prod(N)), what + ': compared with the definition')
            continue
        a = assemble([r[k] for r in res], what)
        check(a.shape == ref[k][1].shape, '%s: shape %s, on one rank %s', what, a.shape, ref[k][1].shape)
        b = assemble([ref[k][:3]], what)
        P = float(numpy.prod(N))
        if op['op'] == 'resample':
            what += ' (%s to %s)' % (op['src'], op['dst'])
            g = source(case, op)
            c = forward(case, g) if op['src'] == 'real' else g.astype('c16')
            target = case
            if op['dtype'] == 'cross':
                what += ' (%s to %s)' % (case['dtype'], CROSS[case['dtype']])
                target = dict(case, dtype=CROSS[case['dtype']])
                x = g if op['src'] == 'real' else backward(case, g)
                c = forward(target, x.astype('c16') if is_real(case) else x.real)
            t = truth(target, c, M)
            e = t if op['dst'] != 'real' else backward(dict(target, N=M), t)
            s = numpy.abs(t).sum() + numpy.abs(c).sum() + 1
            close(a, e, (2e-5 if op['dtype'] == 'other' or case['dtype'] in ('f4', 'c8') else 1e-12) * s, what)
        else:
            g = global_field(case, op['seed']).astype('f8')
            s = (numpy.abs(g).sum() * 3 + 1) * max(1.0, numpy.prod(M) / P, P / numpy.prod(M))
            tol = 2e-5 if case['dtype'] in ('f4', 'c8') or op['dtype'] != 'same' else 1e-12
            close(a, b, tol * s, what + ': compared with one rank')
            w = op['window'] or case['window']
            if w in SMOOTH: close(a, ref[k][3], tol * 10 * s, what + ': compared with the definition')
            if op['op'] == 'downsample' and w in EXACT_SUM:
                tot = g.sum() * (numpy.prod(M) / P if op['keep'] else 1.0)
                close(a.astype('f8').sum(), tot, tol * s, what + (': mean' if op['keep'] else ': total'))
