"""Exchange delivers each particle exactly once to every domain it touches."""
from .domcase import *
from .meshcase import gen_mesh, mesh, simplify_mesh, boxsize, support, NARROW
SHRINK = {'pts': 0}
def on_mesh(case):
    """the grid of the mesh, in cells"""
    return dict(case, edges=[[float(i) for i in range(k + 1)] for k in case['N']])
def simplify(case):
    if not case.get('N'):
        for c in simplify_grid(case): yield c
        return
    for c in simplify_mesh(case, on_mesh): yield dict(c, pts=[[p[0] % c['n']] + p[1:] for p in c['pts']])
    if case['posdtype'] != 'f8': yield dict(case, posdtype='f8')
    if isinstance(case['smoothing'], list): yield dict(case, smoothing=max(case['smoothing']))
    elif case['smoothing'] != 0: yield dict(case, smoothing=0)

def gen(rng, tier, index):
    if index % 6 == 5:
        # the domains of a mesh, positions in the units of its box
        case = on_mesh(dict(gen_mesh(rng, ndims=(1, 2, 2, 3, 3, 3, 4)), periodic=True))
        case['pts'] = gen_points(rng, case)
        k = rng.choice(['default', 'name', 'number', 'perdim', 'perdim'])
        case['smoothing'] = dict(default=None, name=rng.choice(NARROW), number=rng.choice([0, 0.5, 1, 2.5, rng.uniform(0, 9)]), perdim=[rng.choice([0, 0.5, 1, rng.uniform(0, 3)]) for d in case['N']])[k]
        case['posdtype'] = rng.choice(['f8', 'f8', 'f4'])
        case['swarm'] = swarm(rng, case['n'])
        case['again'] = rng.random() < 0.4
        return case
    case = gen_grid(rng)
    case['pts'] = gen_points(rng, case)
    gen_options(rng, case)
    if index % 40 == 7 and small(case):
        # more particles on a rank than are handled in one chunk
        case['bulk'] = dict(seed=rng.randrange(1 << 30), counts=[rng.choice([0, 50000, 98305, 49152]) if r == 0 else rng.choice([0, 100]) for r in range(case['n'])])
        rng.shuffle(case['bulk']['counts'])
    case['swarm'] = swarm(rng, case['n'])
    case['again'] = rng.random() < 0.4
    return case

def run_mesh(case, choices):
    n, sm = case['n'], case['smoothing']
    h = boxsize(case) / numpy.array(case['N'])
    def fn(ctx):
        u, ids = arrays(case, ctx.rank)
        pm = mesh(ctx, case)
        x = (u * h).astype(case['posdtype'])
        x0 = x.copy()
        layout = pm.decompose(x, **({} if sm is None else dict(smoothing=sm)))
        if case['again']: other = pm.decompose(x[::-1], **({} if sm is None else dict(smoothing=sm)))
        got = layout.exchange(ids)
        if case['again']: same(numpy.sort(other.exchange(ids[::-1])), numpy.sort(got), 'particles received by another layout')
        same(x, x0, 'positions given to decompose')
        f = pm.create('real')
        return (x0 * (1.0 * pm.Nmesh / pm.BoxSize)).astype('f8'), ids, numpy.array(got), [[float(v) for v in e] for e in pm.domain.edges], [int(v) for v in pm.domain.DomainAssign], [(int(s.start), int(s.stop)) for s in f.slices]
    res = run_world(n, fn, choices, params_of(case))
    for r in range(n): check(res[r][3:5] == res[0][3:5], 'the domains of the mesh differ on rank %d', r)
    s = 0.5 * support(case['window']) if sm is None else 0.5 * support(sm) if isinstance(sm, str) else sm
    case = dict(case, edges=res[0][3], assign=res[0][4], smoothing=s)
    x = numpy.concatenate([r[0] for r in res])
    geo, hits = delivery(case, x, numpy.concatenate([r[1] for r in res]), [r[2] for r in res])
    # the domain of a rank is the piece of the mesh it holds
    home = geo.home(x)
    for r in range(n):
        own = numpy.ones(len(x), '?')
        for d, (a, b) in enumerate(res[r][5]):
            y = numpy.remainder(x[:, d], case['N'][d])
            own &= (y > a + 1e-5) & (y < b - 1e-5) & (a < b)
        for k in numpy.nonzero(own)[0]: check(hits[k, r] == 1, 'particle at %s (in cells) did not reach rank %d, which holds the cell it is in', x[k].tolist(), r)

def run(case, choices):
    if case.get('N'): return run_mesh(case, choices)
    n = case['n']
    def fn(ctx):
        pos, ids = arrays(case, ctx.rank)
        a = make_pos(case, pos)
        before = a.copy()
        g = grid(ctx, case)
        layout = decompose(g, a, case)
        if case['again']:
            # another layout of the same domains, in use at the same time
            other = decompose(g, numpy.ascontiguousarray(a[::-1]), case)
            got = layout.exchange(ids)
            got2 = numpy.array(other.exchange(ids[::-1]))
            same(numpy.sort(got2), numpy.sort(got), 'particles received by another layout')
        else: got = layout.exchange(ids)
        same(a, before, 'positions given to decompose')
        return seen_pos(case, before), ids, numpy.array(got)
    res = run_world(n, fn, choices, params_of(case))
    x = numpy.concatenate([r[0] for r in res])
    ids = numpy.concatenate([r[1] for r in res])
    geo, hits = delivery(case, x, ids, [r[2] for r in res])
    if geo.periodic and not geo.degenerate.all():
        for k in numpy.nonzero(hits.sum(axis=1) == 0)[0]:
            fail('particle at %s reached no rank' % x[k].tolist())
    # a position exactly inside its domain needs no tolerance
    if case.get('posdtype', 'f8') == 'f8' and not case.get('transform'):
        home = geo.home(x)
        L = numpy.array([e[-1] for e in geo.edges])
        inside = (home >= 0) & ((x >= 0) & (x < L)).all(axis=1)
        for k in numpy.nonzero(inside)[0]:
            r = geo.assign[home[k]]
            check(hits[k, r] == 1, 'particle at %s did not reach rank %d, which owns the domain it is in', x[k].tolist(), r)
