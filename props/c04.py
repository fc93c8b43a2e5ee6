"""Every point of the box is primary on exactly one rank."""
from .domcase import *
SHRINK = {'pts': 0, 'balance': 0}
simplify = simplify_grid
def gen(rng, tier, index):
    case = gen_grid(rng)
    case['pts'] = gen_points(rng, case, most=40, outside=None if case['periodic'] or rng.random() < 0.5 else False)
    gen_options(rng, case)
    case['smoothing'] = 0
    case['balance'] = rng.random() < 0.5
    case['twin'] = rng.random() < 0.5           # another grid, made with the assignment of this one
    case['gamma'] = rng.choice([1, 2, 0.5])
    if index % 30 == 7 and small(case) and case['periodic']:
        case['bulk'] = dict(seed=rng.randrange(1 << 30), counts=[rng.choice([50000, 98305, 49152]) if r == 0 else rng.choice([0, 100]) for r in range(case['n'])])
        rng.shuffle(case['bulk']['counts'])
    case['swarm'] = swarm(rng, case['n'])
    return case

def run(case, choices):
    n = case['n']
    nd = len(case['edges'])
    L = numpy.array([e[-1] for e in case['edges']])
    everyone = [arrays(case, r) for r in range(n)]
    allpos = numpy.concatenate([a for a, i in everyone])
    allids = numpy.concatenate([i for a, i in everyone])
    order = numpy.argsort(allids)
    def fn(ctx):
        out = []
        g, pos, ids, layout = do_decompose(ctx, case)
        tr = make_transform(case)
        every = listed(make_pos(case, allpos), case)
        out.append((g.isprimary(every, transform=tr), numpy.array(layout.exchange(ids))))
        if case['balance']:
            if case['twin']:
                other = ctx.mod('domain').GridND(g.edges, comm=ctx.comm, periodic=g.periodic, DomainAssign=g.DomainAssign)
                before = numpy.array(other.DomainAssign)
            g.loadbalance(g.load(pos, transform=tr, gamma=case['gamma']))
            if case['twin']:
                _, _, _, layout = do_decompose(ctx, case, other)
                same(numpy.array(other.DomainAssign), before, 'assignment of a grid that was not balanced')
                out.append((other.isprimary(every, transform=tr), numpy.array(layout.exchange(ids))))
            g, pos, ids, layout = do_decompose(ctx, case, g)
            out.append((g.isprimary(every, transform=tr), numpy.array(layout.exchange(ids))))
        return out
    res = run_world(n, fn, choices, params_of(case))
    x = seen_pos(case, make_pos(case, allpos))
    tol = tolerance(case, x)
    if case['periodic']: care = numpy.ones(len(x), '?')
    else: care = ((x >= 0) & (x < L)).all(axis=1)
    for when in range(len(res[0])):
        w = 'initially' if when == 0 else 'after load balancing' if when == len(res[0]) - 1 else 'after another grid was balanced'
        prim = numpy.array([r[when][0] for r in res])
        check(prim.shape == (n, len(x)) and prim.dtype == bool, 'isprimary returned %s %s', prim.dtype, prim.shape)
        c = prim.sum(axis=0)
        for k in numpy.nonzero(care & (c != 1))[0]:
            fail('%s: position %s is primary on %d ranks %s' % (w, x[k].tolist(), c[k], numpy.nonzero(prim[:, k])[0].tolist()))
        if not case['periodic']:
            for k in numpy.nonzero(((x < -tol) | (x > L + tol)).any(axis=1) & (c != 0))[0]:
                fail('%s: position %s outside of the box is primary on ranks %s' % (w, x[k].tolist(), numpy.nonzero(prim[:, k])[0].tolist()))
        for r in range(n):
            got = numpy.zeros(len(x), '?'); got[order[numpy.searchsorted(allids, res[r][when][1], sorter=order)]] = True
            for k in numpy.nonzero(care & (got != prim[r]))[0]:
                fail('%s: position %s is %sprimary on rank %d but was %sdelivered to it' % (w, x[k].tolist(), '' if prim[r][k] else 'not ', r, '' if got[k] else 'not '))
