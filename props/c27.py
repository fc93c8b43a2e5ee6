"""Functions applied over fields see each cell once, with its coordinates."""
from .meshcase import *
from .c12 import TYPES, CLS
SHRINK = {'ops': 1}
def gen(rng, tier, index):
    case = gen_mesh(rng)
    case['ops'] = []
    for i in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(TYPES)
        case['ops'].append(dict(op=rng.choice(['apply', 'apply', 'apply', 'slabs', 'coords']), field=k, kind=rng.choice(['default', 'index', 'relative', 'absolute'] if k == 'real' else ['default', 'index', 'wavenumber', 'circular']), out=rng.choice(['none', 'inplace', 'field', 'array', 'self', 'farray']), seed=rng.randrange(1 << 20), fn=rng.choice(['record', 'record', 'normp', 'zeromode', 'compensate']), p=rng.choice([2, 2, 1, 3, 1.5]), z=rng.choice([1, 1, -2.0, 0.5]), window=rng.choice(['nnb', 'cic', 'tsc', 'pcs', 'linear', 'quadratic', 'cubic', 'lanczos2', 'db6', 'acg3'])))
        o = case['ops'][-1]
        if o['kind'] == 'index' and o['z'] == 0.5: o['z'] = 2
        if o['fn'] == 'compensate' and o['kind'] != 'circular': o['fn'] = 'record'
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('out', 'none'), ('kind', 'default'), ('fn', 'record'), ('p', 2), ('z', 1)):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
def truth(case, kind, field, d, idx):
    """coordinate of global index idx along direction d; at the Nyquist frequency either sign"""
    N = case['N'][d]; L = boxsize(case)[d]
    if kind == 'index': return idx.astype('f8')
    s = numpy.where(idx >= (N + 1) // 2, idx - N, idx).astype('f8')
    if field == 'real': return s * L / N
    if kind == 'circular': return s * 2 * numpy.pi / N
    return s * 2 * numpy.pi / L
def run(case, choices):
    N, nd, n = case['N'], len(case['N']), case['n']
    eps = 1e-5 if case['dtype'] in ('f4', 'c8') else 1e-12
    def same_coord(v, e, N, L, what):
        close(numpy.asarray(v).astype('f8'), e, eps * (numpy.abs(e) + 1e-30), what)
    def fn(ctx):
        pm = mesh(ctx, case)
        outs, kept = [], Results(case['spoil'])
        for k, op in enumerate(case['ops']):
            field, kind = op['field'], op['kind']
            keff = kind if kind != 'default' else ('relative' if field == 'real' else 'wavenumber')
            g = global_field(case, op['seed'], 'real' if field == 'real' else 'complex')
            f = set_local(pm.create(field), g)
            mine = g[f.slices]
            what = 'step %d: %s on %s field, %s' % (k, op['op'], field, keff)
            # what every slab says about its cells
            seen = []
            def record(c, v):
                check(len(c) == nd, '%s: %d coordinates', what, len(c))
                full = [numpy.broadcast_to(x, v.shape) for x in c]
                seen.append((numpy.array(v).ravel(), [numpy.array(x).ravel() for x in full], [numpy.array(numpy.broadcast_to(i, v.shape)).ravel() for i in v.i]))
                if op['seed'] % 3 == 0 and len(seen) == 1:
                    # while one function is applied, another is
                    inner = []
                    def count(c, v): inner.append(v.size); return v * 1
                    r = f.apply(count, kind='index') if op['out'] not in ('inplace', 'self') else set_local(pm.create(field), g).apply(count, kind='index')
                    check(sum(inner) == f.size, '%s: applied meanwhile to %d cells of %d', what, sum(inner), f.size)
                    same(numpy.array(r.value), mine, what + ': applied meanwhile')
                return 3.0 * v + full[0] * 0.5 + (full[-1] * 0.25 if nd > 1 else 0)
            def normp(c, v):
                check(numpy.broadcast_shapes(numpy.shape(c.normp()), v.shape) == v.shape, '%s: norm of shape %s for values of shape %s', what, numpy.shape(c.normp()), v.shape)
                return v * c.normp(p=op['p'])
            def zeromode(c, v): return v / c.normp(p=op['p'], zeromode=op['z'])
            # expected result
            idx = numpy.indices(g.shape)[(slice(None),) + f.slices]
            co = [truth(case, keff, field, d, idx[d]) for d in range(nd)]
            if op['op'] == 'coords':
                for d in range(nd):
                    same_coord(numpy.broadcast_to(f.x[d], f.shape), truth(case, 'x', field, d, idx[d]), N[d], 1, '%s: x[%d]' % (what, d))
                    same(numpy.array(numpy.broadcast_to(f.i[d], f.shape)), idx[d], '%s: i[%d]' % (what, d))
                    xs = pm.create_coords(field); ii = pm.create_coords(field, return_indices=True)
                    same(numpy.asarray(xs[d]), numpy.asarray(f.x[d]), what); same(numpy.asarray(ii[d]), numpy.asarray(f.i[d]), what)
                    xs[d][...] = 77; ii[d][...] = 77         # copies
                    same(numpy.array(numpy.broadcast_to(f.i[d], f.shape)), idx[d], '%s: i[%d] after changing a copy' % (what, d))
                continue
            if op['op'] == 'slabs':
                tot = 0
                every = zip(f.slabs.x, f.slabs.i, f.slabs)
                if op['seed'] % 2:
                    every = list(every)             # all slabs at once, and another pass in between
                    for x, s in zip(f.slabs.i, f.slabs): pass
                for x, i, s in every:
                    tot += s.size
                    at = tuple(numpy.array(numpy.broadcast_to(j, s.shape)) for j in i)
                    same(numpy.array(s), g[at], what + ': values')
                    for d in range(nd):
                        same_coord(numpy.broadcast_to(x[d], s.shape), truth(case, 'x', field, d, at[d]), N[d], 1, '%s: x[%d]' % (what, d))
                        same_coord(numpy.broadcast_to(s.x[d], s.shape), truth(case, 'x', field, d, at[d]), N[d], 1, '%s: slab.x[%d]' % (what, d))
                    for q in (s, x):
                        check([int(v) for v in q.Nmesh] == N, '%s: Nmesh %s', what, q.Nmesh)
                        close(numpy.array(q.BoxSize, 'f8'), boxsize(case), 0, what + ': BoxSize')
                    s[...] = s * 2
                check(tot == f.size, '%s: %d cells seen of %d', what, tot, f.size)
                close(numpy.asarray(f.value), mine * 2, 0, what + ': written through the slabs')
                continue
            W = ctx.mod('window').FindResampler(op['window'])
            func = dict(record=record, normp=normp, zeromode=zeromode, compensate=W.get_compensation())[op['fn']]
            if op['fn'] == 'record': e = 3.0 * mine + co[0] * 0.5 + (co[-1] * 0.25 if nd > 1 else 0)
            elif op['fn'] == 'compensate':
                p = dict(nnb=1, cic=2, tsc=3, pcs=4).get(op['window'])
                e = mine
                for c in co: e = e / (numpy.sinc(c / 2 / numpy.pi) ** p if p else numpy.asarray(W.get_fwindow(numpy.array(c))).reshape(c.shape))
            else:
                r2 = sum(numpy.abs(c) ** op['p'] for c in co) if nd else 0
                e = mine * r2 if op['fn'] == 'normp' else mine / numpy.where(r2 == 0, op['z'], r2)
            kw = {} if kind == 'default' else dict(kind=kind)
            o = op['out']
            if o == 'inplace': out, where = Ellipsis, f
            elif o == 'field': out = where = pm.create(field)
            elif o == 'self': out = where = f
            elif o == 'array': out = where = numpy.zeros(f.shape, g.dtype)
            elif o == 'farray': out = where = numpy.zeros(f.shape[::-1], g.dtype).T
            else: out = where = None
            if o == 'farray' and nd > 2:
                out = where = numpy.zeros(f.shape, g.dtype)
            r = f.apply(func, out=out, **kw)
            if where is not None: check(r is where, '%s: result is not the object given', what)
            check(isinstance(r, numpy.ndarray) or type(r).__name__ == CLS[field], '%s gave %s', what, type(r).__name__)
            val = numpy.asarray(r.value) if hasattr(r, 'value') else r
            tol = eps * (numpy.abs(e) + numpy.abs(mine) * 4 + sum(numpy.abs(c) for c in co) + 1e-30)
            close(val, e, tol, '%s (%s)' % (what, o))
            if o in ('none', 'field', 'array', 'farray'): same(numpy.array(f.value), mine, what + ': its input')
            if o == 'none': kept.add(r, what)
            if op['fn'] == 'record':
                v = numpy.concatenate([s[0] for s in seen]) if seen else numpy.zeros(0)
                check(len(v) == f.size, '%s: %d cells seen of %d', what, len(v), f.size)
                if len(v):
                    at = tuple(numpy.concatenate([s[2][d] for s in seen]) for d in range(nd))
                    same(v, g[at], what + ': values seen with their indices')
                    lin = numpy.ravel_multi_index(at, g.shape)
                    check(len(set(lin.tolist())) == f.size, '%s: cells seen twice', what)
                    for d in range(nd): same_coord(numpy.concatenate([s[1][d] for s in seen]), truth(case, keff, field, d, at[d]), N[d], 1, '%s: coordinate %d' % (what, d))
                    outs.append((k, lin))
                else: outs.append((k, numpy.zeros(0, 'i8')))
        kept.check()
        return outs
    res = run_world(n, fn, choices, params_of(case))
    for j in range(len(res[0])):
        k = res[0][j][0]
        lin = numpy.sort(numpy.concatenate([r[j][1] for r in res]))
        N_o = N if case['ops'][k]['field'] == 'real' or not is_real(case) else N[:-1] + [N[-1] // 2 + 1]
        same(lin, numpy.arange(int(numpy.prod(N_o))), 'step %d: cells seen over all ranks' % k)
