"""Domain load is counted globally and balancing is agreed by all ranks."""
from .domcase import *
SHRINK = {'pts': 0, 'rounds': 1}
simplify = simplify_grid
def gen(rng, tier, index):
    case = gen_grid(rng)
    case['pts'] = gen_points(rng, case, most=40, outside=None if case['periodic'] else False)
    gen_options(rng, case)
    case['smoothing'] = 0
    case['gamma'] = rng.choice([1, 2, 2, 3, 0.5, 1.5])
    case['default'] = case['gamma'] == 2 and rng.random() < 0.5       # two is the default
    case['rounds'] = [gen_load(rng) for i in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    if index % 60 == 11 and small(case):
        case['bulk'] = dict(seed=rng.randrange(1 << 30), counts=[rng.choice([0, 50000, 98305]) if r == 0 else 0 for r in range(case['n'])])
        if not case['periodic']: case['bulk'] = None
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def gen_load(rng):
    """the loads to balance: those counted (None), or made up ones"""
    k = rng.random()
    if k < 0.5: return None
    if k < 0.7: v = [rng.choice([0, 0, 1, 2, 3, 10, 100]) for i in range(64)]
    elif k < 0.82: v = [rng.choice([0, 1, 1, 4.5])] * 64
    elif k < 0.92:
        v = [rng.choice([0, 1, 1, 2])] * 64
        for i in range(rng.choice([1, 1, 2])): v[rng.randrange(12)] = rng.choice([20, 100])
    else: v = [rng.random() * 10 ** rng.choice([0, 0, 3, -3]) for i in range(64)]
    return dict(load=v, kind=rng.choice(['f8', 'f8', 'f4', 'i8', 'list']))
def make_load(spec, load, size):
    if spec is None: return numpy.array(load, copy=True)
    v = (spec['load'] * (1 + size // 64))[:size]
    if spec['kind'] == 'list': return v
    return numpy.array(v).astype(spec['kind'])
def greedy(load, n):
    heap = [0.0] * n
    for l in sorted(load, reverse=True):
        heap.sort(); heap[0] += l
    return max(heap)
def run(case, choices):
    n = case['n']
    L = numpy.array([e[-1] for e in case['edges']])
    def fn(ctx):
        g, pos, ids, layout = do_decompose(ctx, case)
        tr = make_transform(case)
        first = numpy.array(layout.exchange(ids))
        cost = numpy.array(layout.get_exchange_cost())
        rounds, mine = [], Results(case['spoil'])
        lay = layout
        for k, spec in enumerate(case['rounds']):
            before = numpy.array(g.DomainAssign)
            load = g.load(listed(pos, case), transform=tr, **({} if case.get('default') else dict(gamma=case['gamma'])))
            given = make_load(spec, load, int(g.size))
            g.loadbalance(given)
            given = numpy.array(make_load(spec, load, int(g.size)), 'f8')
            assign = numpy.array(g.DomainAssign)
            _, _, _, lay2 = do_decompose(ctx, case, g)
            new = numpy.array(lay2.exchange(ids))
            again = numpy.array(layout.exchange(ids))
            same(again, first, 'exchange with the layout made before balancing')
            rounds.append((before, numpy.array(load), given, assign, new))
            mine.add(load, 'load of round %d' % k); mine.add(layout.get_exchange_cost(), 'cost')
        mine.check()
        return pos, ids, first, rounds, cost
    res = run_world(n, fn, choices, params_of(case))
    geo = Geometry(case)
    x = numpy.concatenate([seen_pos(case, r[0]) for r in res])
    ids = numpy.concatenate([r[1] for r in res])
    owner = numpy.concatenate([[k] * len(r[1]) for k, r in enumerate(res)]).astype(int)
    tol = tolerance(case, x)
    home = geo.home(x)
    inside = (home >= 0)
    exact = inside.all()
    want = numpy.bincount(home[inside], minlength=geo.size).astype('f8')
    # cost: what each rank sends to others
    exp = numpy.zeros(n)
    for q in range(n):
        o = {int(i): int(k) for i, k in zip(ids, owner)}
        for i in res[q][2]:
            if o[int(i)] != q: exp[o[int(i)]] += 1
    for r in range(n):
        same(res[r][4].astype('f8'), exp, 'exchange cost on rank %d' % r)
    for k in range(len(case['rounds'])):
        agree([r[3][k][1] for r in res], 'domain load')
        agree([r[3][k][3] for r in res], 'assignment of domains')
        load, given, assign, before = res[0][3][k][1], res[0][3][k][2], res[0][3][k][3], res[0][3][k][0]
        check(load.shape == (geo.size,), 'domain load has shape %s for %d domains', load.shape, geo.size)
        if exact: close(load.astype('f8'), want ** case['gamma'], 1e-9 * (1 + want ** case['gamma']), 'domain load')
        else:
            if inside.all():
                with numpy.errstate(all='ignore'): tot = (load.astype('f8') ** (1.0 / case['gamma'])).sum()
                close(tot, float(len(x)), 1e-6 * (1 + len(x)), 'number of particles counted')
        check(((assign >= 0) & (assign < n)).all(), 'assignment %s has invalid ranks', assign.tolist())
        if geo.size <= n:
            same(assign, before, 'assignment with no more domains than ranks')
        else:
            per = numpy.bincount(assign, weights=given, minlength=n)
            num = numpy.bincount(assign[given > 0], minlength=n)
            if (num == 0).any(): check(num.max() <= 1, 'a rank has no loaded domain while another has %d: assignment %s of load %s', num.max(), assign.tolist(), given.tolist())
            best = greedy(given.tolist(), n)
            check(per.max() <= best * (1 + 1e-9), 'busiest rank has load %s, greedy assignment gives %s (load %s, assignment %s)', per.max(), best, given.tolist(), assign.tolist())
        # the new layout follows the assignment
        for r in range(n):
            got = set(int(i) for i in res[r][3][k][4])
            for j in numpy.nonzero(inside)[0]:
                check((int(ids[j]) in got) == (assign[home[j]] == r), 'after balancing, particle in domain %d assigned to rank %d was %sdelivered to rank %d', home[j], assign[home[j]], '' if int(ids[j]) in got else 'not ', r) if ids[j] < 10 ** 6 else None
