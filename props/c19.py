"""Co-array transfers."""
from .meshcase import *
SHRINK = {'steps': 1}
def gen(rng, tier, index):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    R, C = rng.choice([6, 10, 16]), rng.choice([1, 2, 3])
    steps = []
    pend = []
    used = [{} for r in range(n)]        # rows that pending operations will write: only operations of one kind by one image may meet there
    for k in range(rng.choice([1, 2, 3, 4])):
        ops = []
        for r in range(n):
            for j in range(rng.choice([0, 1, 1, 2, 3, 4])):
                q = rng.randrange(n)
                push = rng.random() < 0.5
                t = q if push else r
                size = rng.choice([1, 1, 1, 2, 3])
                who = (push, r)
                free = [i for i in range(R - size + 1) if not any(used[t].get(i + m, [who])[-1] != who for m in range(size))]
                mine = [i for i in free if any(i + m in used[t] for m in range(size))]
                if not mine or rng.random() < 0.6: free = [i for i in free if i not in mine]
                else: free = mine
                if not free: continue
                i = rng.choice(free)
                for m in range(size): used[t].setdefault(i + m, []).append(who)
                form = rng.choice(['row', 'slice', 'slice', 'elem', 'elem', 'chain', 'neg', 'column', 'step'])
                ops.append(dict(rank=r, image=q, push=push, dst=i, src=rng.randrange(R - size + 1), size=size, form=form, col=rng.randrange(C), view=form != 'elem' and rng.random() < 0.6, seed=rng.randrange(1 << 20)))
        rng.shuffle(ops)
        last = k == -1
        if rng.random() < 0.6: images = [None] * n
        else: images = [sorted(rng.sample(range(n), rng.randrange(0, n + 1))) if rng.random() < 0.8 else None for r in range(n)]
        pend += ops
        keep = []
        for o in pend:
            im = images[o['rank']]
            if im is None or o['image'] in im:
                t = o['image'] if o['push'] else o['rank']
                for m in range(o['size']):
                    used[t][o['dst'] + m].pop()
                    if not used[t][o['dst'] + m]: del used[t][o['dst'] + m]
            else: keep.append(o)
        pend = keep
        steps.append(dict(ops=ops, images=images, local=[[r, rng.randrange(1 << 20)] for r in range(n) if rng.random() < 0.4]))
    return dict(n=n, R=R, C=C, dtype=rng.choice(['f8', 'f8', 'i4', 'c16', 'f4']), make=rng.choice(['zeros', 'fromarray', 'new']), steps=steps, swarm=swarm(rng, n))
def simplify(case):
    for k, s in enumerate(case['steps']):
        for i in range(len(s['ops'])):
            yield dict(case, steps=case['steps'][:k] + [dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])] + case['steps'][k + 1:])
        for i, o in enumerate(s['ops']):
            if o['form'] != 'row' and o['size'] == 1:
                yield dict(case, steps=case['steps'][:k] + [dict(s, ops=s['ops'][:i] + [dict(o, form='row')] + s['ops'][i + 1:])] + case['steps'][k + 1:])
        if s['local']: yield dict(case, steps=case['steps'][:k] + [dict(s, local=[])] + case['steps'][k + 1:])
        if any(i is not None for i in s['images']): yield dict(case, steps=case['steps'][:k] + [dict(s, images=[None] * case['n'])] + case['steps'][k + 1:])
    if case['n'] > 2:
        m = case['n'] - 1
        if all(o['rank'] < m and o['image'] < m for s in case['steps'] for o in s['ops']):
            yield dict(case, n=m, steps=[dict(s, images=[None if i is None else [x for x in i if x < m] for i in s['images'][:m]], local=[l for l in s['local'] if l[0] < m]) for s in case['steps']])

def value(case, seed, shape=None):
    g = nprng('coa', seed)
    a = g.randint(-1000, 1000, size=shape or (case['R'], case['C']))
    return (a + 1j * a[::-1] if case['dtype'] == 'c16' else a).astype(case['dtype'])
def index(o, at, R, chain=True):
    """the successive indices applied for an operation whose rows start at `at`"""
    s, f = o['size'], o['form']
    if f == 'row' and s == 1: return [at]
    if f == 'neg' and s == 1: return [at - R]
    if f == 'elem' and s == 1: return [(at, o['col'])]
    if f == 'column': return [(slice(at, at + s), o['col'])]
    if f == 'chain': return [slice(at, at + s), Ellipsis]
    if f == 'step' and s > 1: return [slice(at, at + s, 2)]
    return [slice(at, at + s)]
def get(a, idx):
    for i in idx: a = a[i]
    return a
def put(a, idx, v):
    for i in idx[:-1]: a = a[i]
    a[idx[-1]] = v
def given(case, o, state):
    """what a push of this operation sends"""
    R = case['R']
    if o['view']: return get(state, index(o, o['src'], R))
    t = numpy.zeros((R, case['C']), case['dtype'])
    return numpy.array(get(value(case, o['seed']), index(o, o['src'], R)))
def run(case, choices):
    n, R, C = case['n'], case['R'], case['C']
    def fn(ctx):
        co = ctx.mod('coarray').coarray
        first = value(case, ('start', ctx.rank))
        if case['make'] == 'zeros': coa = co.zeros(ctx.comm, (R, C), dtype=case['dtype'])
        elif case['make'] == 'new': coa = co(ctx.comm, (R, C), dtype=case['dtype'])
        else: coa = co.fromarray(ctx.comm, numpy.zeros((R, C), case['dtype']))
        check(coa.thisimage == ctx.rank and coa.num_images == n, 'image %s of %s', coa.thisimage, coa.num_images)
        coa[...] = first
        outs = []
        for s in case['steps']:
            for o in s['ops']:
                if o['rank'] != ctx.rank: continue
                dst = index(o, o['dst'], R)
                src = index(o, o['src'], R)
                if o['push']:
                    p = coa(o['image'])
                    for i in dst[:-1]: p = p[i]
                    p[dst[-1]] = given(case, o, coa)
                else:
                    p = coa(o['image'])
                    for i in src: p = p[i]
                    put_local(coa, dst, p)
            before = numpy.array(coa)
            for r, seed in s['local']:
                # rows nobody is about to write may be written by their owner
                if r == ctx.rank: coa[...] = value(case, seed)
            im = s['images'][ctx.rank]
            if im is None: coa.sync()
            else: coa.sync(im)
            outs.append(numpy.array(coa))
        return outs
    def put_local(coa, idx, p):
        i = idx[0] if len(idx) == 1 else idx[0]
        coa[i] = p
    res = run_world(n, fn, choices, params_of(case))
    A = [value(case, ('start', r)) for r in range(n)]
    pend = []
    for k, s in enumerate(case['steps']):
        for o in s['ops']: pend.append(o)
        for r, seed in s['local']: A[r][...] = value(case, seed)
        S = [a.copy() for a in A]
        keep = []
        for o in pend:
            im = s['images'][o['rank']]
            if im is not None and o['image'] not in im: keep.append(o); continue
            if o['push']: put(A[o['image']], index(o, o['dst'], R), given(case, o, S[o['rank']]))
            else: put(A[o['rank']], index(o, o['dst'], R), get(S[o['image']], index(o, o['src'], R)))
        pend = keep
        for r in range(n): same(res[r][k], A[r], 'array of image %d after synchronisation %d' % (r, k))
