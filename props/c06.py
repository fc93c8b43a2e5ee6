"""A uniform decomposition is valid for every box and rank count."""
from .domcase import *
SHRINK = {'pts': 0, 'n': 1, 'periodic': False}
def gen(rng, tier, index):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 16, 27, 32] if index % 3 == 0 else [1, 2, 3, 4, 5, 6, 7, 8])
    nd = rng.choice([1, 2, 2, 3, 3, 3, 4])
    k = rng.choice(['unit', 'cube', 'int', 'rand', 'thin', 'mix', 'decimal'])
    b = dict(unit=lambda: 1.0, cube=lambda: 1.0, int=lambda: float(rng.randrange(1, 9)), rand=lambda: rng.uniform(0.1, 10), thin=lambda: rng.choice([1.0, 1.0, 100.0, 1000.0]), mix=lambda: 10 ** rng.uniform(-3, 3), decimal=lambda: rng.randrange(1, 10) / 10.)[k]
    box = [b() for d in range(nd)]
    if k == 'cube': box = [rng.choice([0.1, 0.5, 3.0, 125.0, 1e4])] * nd
    return dict(n=n, box=box, units=[rng.choice([1e-3, 0.1, 0.5, 2.0, 8.0, 250.0, 3.0857e24]) for i in range(2)], periodic=rng.random() < 0.7, count=rng.choice([0, 5, 20]), seed=rng.randrange(1 << 30), smoothing=rng.choice([0, 0, 0.1, 0.7]), ints=rng.random() < 0.2, swarm=swarm(rng, n))
def simplify(case):
    b = case['box']
    if len(b) > 1:
        for d in range(len(b)): yield dict(case, box=b[:d] + b[d + 1:])
    for d in range(len(b)):
        if b[d] != 1.0: yield dict(case, box=b[:d] + [1.0] + b[d + 1:])
    if case['smoothing']: yield dict(case, smoothing=0)
    if len(case['units']) > 1: yield dict(case, units=case['units'][1:]); yield dict(case, units=case['units'][:1])
def run(case, choices):
    n, nd = case['n'], len(case['box'])
    box = numpy.array(case['box'])
    if case['ints'] and (box == numpy.round(box)).all(): box = [int(x) for x in box]
    def fn(ctx):
        G = ctx.mod('domain').GridND
        g = G.uniform(box, comm=ctx.comm) if case['periodic'] and case['count'] == 5 else G.uniform(box, comm=ctx.comm, periodic=case['periodic'])
        shapes = [G.uniform([u * b for b in box], comm=ctx.comm, periodic=case['periodic']).shape.tolist() for u in case['units']]
        pos = nprng(case['seed'], ctx.rank).uniform(0, 1, size=(case['count'], nd)) * numpy.array(box)
        pos = numpy.where(pos < numpy.array(box), pos, 0)
        ids = numpy.arange(len(pos)) + 1000 * ctx.rank
        s = case['smoothing'] * min(box)
        lay = g.decompose(pos, smoothing=s)
        return g.shape.tolist(), [e.tolist() for e in g.edges], shapes, pos, ids, numpy.array(lay.exchange(ids)), numpy.array(g.DomainAssign), bool(g.periodic), g.comm.size
    res = run_world(n, fn, choices, params_of(case))
    for k, what in ((0, 'shape'), (6, 'assignment'), (2, 'shape in other units')): agree([r[k] for r in res], what)
    for r in res: check(r[1] == res[0][1], 'edges differ between ranks')
    shape, edges, shapes, assign = res[0][0], res[0][1], res[0][2], res[0][6]
    check(len(shape) == nd and all(s >= 1 for s in shape), 'shape %s for box %s on %d ranks', shape, case['box'], n)
    check(numpy.prod(shape) <= n, 'shape %s has more domains than the %d ranks', shape, n)
    for d in range(nd):
        e = numpy.array(edges[d])
        check(len(e) == shape[d] + 1 and e[0] == 0 and e[-1] == case['box'][d] and (numpy.diff(e) > 0).all(), 'edges %s for box %s', edges[d], case['box'][d])
    for s in shapes: check(s == shape, 'shape %s for box %s, %s in other units', shape, case['box'], s)
    check(all(r[7] == case['periodic'] and r[8] == n for r in res), 'periodicity or communicator not as asked for')
    ids = numpy.concatenate([r[4] for r in res]); x = numpy.concatenate([r[3] for r in res])
    geo = Geometry(dict(edges=edges, periodic=case['periodic'], n=n, assign=[int(a) for a in assign]))
    home = geo.home(x)
    for r in range(n):
        got = res[r][5].tolist()
        check(len(set(got)) == len(got), 'rank %d received a particle twice', r)
        got = set(got)
        for j in numpy.nonzero(assign[home] == r)[0]:
            check(int(ids[j]) in got, 'particle %s of the domain of rank %d was not delivered to it', x[j].tolist(), r)
        if case['smoothing'] == 0: check(len(got) == (assign[home] == r).sum(), 'rank %d received particles of other domains', r)
