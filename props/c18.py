"""Mesh coordinates and uniform particles cover each point once."""
from .meshcase import *
SHRINK = {'ops': 1}
def gen(rng, tier, index):
    case = gen_mesh(rng, ndims=(1, 2, 2, 3, 3, 3, 3, 4))
    nd = len(case['N'])
    case['ops'] = []
    for i in range(rng.choice([1, 2, 3])):
        sh = rng.choice(['zero', 'zero', 'half', 'default', 'vector', 'big', 'neg'])
        shift = {'zero': 0, 'half': 0.5, 'default': None, 'vector': [rng.choice([0, 0.5, 0.25, rng.random()]) for d in range(nd)], 'big': 1.75, 'neg': -0.5}[sh]
        case['ops'].append(dict(op=rng.choice(['grid', 'grid', 'coords']), shift=shift, dtype=rng.choice([None, 'f8', 'f8', 'f4']) if sh in ('zero',) or True else 'f8', id=rng.random() < 0.6, cdtype=rng.choice([None, 'i4', 'i8', 'f8', 'f4']), zero=rng.random() < 0.5))
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case, lambda c: c): yield c
def run(case, choices):
    N, nd, n = case['N'], len(case['N']), case['n']
    h = boxsize(case) / N
    def fn(ctx):
        pm = mesh(ctx, case)
        outs, mine = [], Results(case['spoil'])
        for op in case['ops']:
            if op['op'] == 'coords':
                r = pm.mesh_coordinates(**(dict(dtype=op['cdtype']) if op['cdtype'] else {}))
                outs.append((numpy.array(r), None, None, None))
                mine.add(r, 'mesh coordinates')
                continue
            kw = dict(shift=op['shift'])
            if op['shift'] is None: kw = {}
            if op['zero'] and op['shift'] == 0: kw = dict(shift=numpy.zeros(nd))
            kw['dtype'] = op['dtype'] or 'f8'
            r = pm.generate_uniform_particle_grid(return_id=op['id'], **kw)
            q, i = r if op['id'] else (r, None)
            prim = None
            if op['shift'] == 0 and kw['dtype'] == 'f8':
                prim = pm.domain.isprimary(numpy.array(q), transform=lambda x: x * pm.affine.scale)
                lay = pm.decompose(numpy.array(q), smoothing=0)
                got = numpy.array(lay.exchange(numpy.array(q)))
                prim = (prim, got)
            f = pm.create('real')
            check(len(q) == f.size, 'rank %d lists %d points, its mesh has %d', ctx.rank, len(q), f.size)
            outs.append((numpy.array(q), None if i is None else numpy.array(i), prim, f.start.tolist()))
            for a in (q, i): mine.add(a, 'uniform grid')
        mine.check()
        return outs
    res = run_world(n, fn, choices, params_of(case))
    P = int(numpy.prod(N))
    full = numpy.indices(N).reshape(nd, -1).T
    for k, op in enumerate(case['ops']):
        what = 'step %d: %s' % (k, 'mesh coordinates' if op['op'] == 'coords' else 'uniform grid (shift %s)' % (op['shift'],))
        q = numpy.concatenate([r[k][0].reshape(-1, nd) for r in res]).astype('f8')
        check(len(q) == P, '%s: %d points of %d', what, len(q), P)
        if op['op'] == 'coords':
            lin = numpy.ravel_multi_index(q.astype('i8').T, N, mode='clip')
            check(len(set(lin.tolist())) == P, '%s: only %d different points of %d', what, len(set(lin.tolist())), P)
            same(q[numpy.argsort(lin)], full.astype('f8'), what)
            continue
        shift = numpy.broadcast_to(0.5 if op['shift'] is None else op['shift'], nd)
        tol = 1e-12 if (op['dtype'] or 'f8') == 'f8' else 1e-6
        lin = numpy.ravel_multi_index(numpy.rint(q / h - shift).astype('i8').T, N, mode='clip')
        check(len(set(lin.tolist())) == P, '%s: only %d different points of %d', what, len(set(lin.tolist())), P)
        o = numpy.argsort(lin)
        close(q[o], (full + shift) * h, tol * (boxsize(case) * 3), what)
        if op['id']:
            i = numpy.concatenate([r[k][1] for r in res])
            check(i.dtype.kind == 'i', '%s: identifiers of type %s', what, i.dtype)
            same(i[o].astype('i8'), numpy.arange(P), what + ': identifiers')
        for r in range(n):
            p = res[r][k][2]
            if p is None: continue
            # a point may be a rounding error below its cell only if it is not exact
            x = res[r][k][0]
            exact = numpy.all((x * (numpy.array(N) / boxsize(case))) == numpy.rint(x / h), axis=-1) if len(x) else numpy.zeros(0, '?')
            check(numpy.asarray(p[0])[exact].all(), '%s: points of rank %d outside of its primary region', what, r)
            if exact.all(): check(len(p[1]) >= len(x), '%s: rank %d got %d points of %d', what, r, len(p[1]), len(x))
