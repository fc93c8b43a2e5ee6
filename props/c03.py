"""Gather returns ghosts to their origin in the original order."""
from .domcase import *
SHRINK = {'pts': 0, 'ops': 1}
UF = ['add', 'maximum', 'minimum', 'multiply', 'fmax', 'bitwise_or', 'logical_or', 'bitwise_xor']
def gen_op(rng):
    mode = rng.choice(['sum', 'sum', 'any', 'mean', 'all', 'local'] + ['uf:' + u for u in UF])
    dt = rng.choice(['f8', 'f8', 'f4', 'i8', 'i4', 'c16', 'c8', 'g', '?', 'u1'])
    if mode in ('uf:bitwise_or', 'uf:bitwise_xor'): dt = rng.choice(['i8', 'i4', 'u1', '?'])
    if mode in ('uf:maximum', 'uf:minimum', 'uf:fmax') and dt in ('c16', 'c8'): dt = 'f8'
    if mode in ('uf:add', 'uf:multiply') and dt in ('?', 'u1', 'i4') or mode == 'sum' and dt == 'u1': dt = 'i8'
    return dict(mode=mode, dtype=dt, trail=rng.choice([[], [], [3], [2, 2], [1], [0]]), out=rng.choice(['none', 'none', 'given', 'given', 'strided']), layout=rng.choice(['C', 'C', 'C', 'F', 'strided', 'reversed', 'readonly', 'T']), big=dt == 'i8' and rng.random() < 0.3)
def gen(rng, tier, index):
    case = gen_grid(rng)
    case['pts'] = gen_points(rng, case)
    gen_options(rng, case)
    case['ops'] = [gen_op(rng) for i in range(rng.choice([1, 2, 3, 4]))]
    case['overwrite'] = rng.random() < 0.5
    if index % 50 == 9 and small(case):
        case['bulk'] = dict(seed=rng.randrange(1 << 30), counts=[rng.choice([0, 100, 33000, 50000, 66000]) for r in range(case['n'])])
        case['ops'] = case['ops'][:2]
    case['swarm'] = swarm(rng, case['n'])
    return case
def simplify(case):
    for c in simplify_grid(case): yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('out', 'none'), ('layout', 'C'), ('trail', []), ('big', False)):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])

def values(op, k, ids, rank):
    """the data rank holds for its received particles: a function of id and rank"""
    ids = numpy.asarray(ids, 'i8')
    m = int(numpy.prod(op['trail'])) if op['trail'] else 1
    h = (ids[:, None] * 7919 + rank * 104729 + k * 31 + numpy.arange(m)[None, :] * 53) % 1009
    h = h.reshape((len(ids),) + tuple(op['trail']))
    dt = numpy.dtype(op['dtype'])
    if op['big']: return (h + 2 ** 53 + 1).astype('i8')
    if dt.kind == 'f': return without_padding(((h - 500) / 64.).astype(dt))
    if dt.kind == 'c': return ((h - 500) / 64. + 1j * (h % 17)).astype(dt)
    if dt.kind == 'b': return h % 2 == 1
    return (h % 100).astype(dt)

def run(case, choices):
    n = case['n']
    def fn(ctx):
        g, pos, ids, layout = do_decompose(ctx, case)
        got = numpy.array(layout.exchange(ids))
        outs, kept = [], []
        for k, op in enumerate(case['ops']):
            data = values(op, k, got, ctx.rank)
            arg = data
            if op['layout'] == 'T': arg = numpy.array(data.T, order='C').T
            elif op['layout'] != 'C': arg = laid_out(dict(layout=op['layout'], dtype=op['dtype']), data)
            mode = getattr(numpy, op['mode'][3:]) if op['mode'].startswith('uf:') else op['mode']
            out = None
            N = len(layout.indices) if op['mode'] == 'all' else len(ids)
            if len(ids) == 0: N = 0
            if op['out'] != 'none':
                # the dtype of the result for this mode
                dt = data.dtype
                if op['mode'] == 'mean' and dt.kind not in 'fc': dt = 'f8'
                if op['mode'] == 'uf:logical_or': dt = '?'
                shape = (N,) + data.shape[1:]
                out = numpy.full(shape, 7, dt)
                if op['out'] == 'strided': out = numpy.full((2 * N,) + data.shape[1:], 7, dt)[::2]
            r = layout.gather(arg, mode=mode, out=out)
            same(arg, data, 'the data given to gather')
            if out is not None: check(r is out or r.base is out or numpy.shares_memory(r, out) or r.size == 0, 'gather returned another array than out=')
            outs.append(r.copy()); kept.append(r)
            if case.get('overwrite') and isinstance(arg, numpy.ndarray) and arg.flags.writeable: arg[...] = 1
        # what was returned is independent of what was given, and of later calls
        for k, (r, o) in enumerate(zip(kept, outs)): same(r, o, 'the result of gather %d (%s), after later calls' % (k, case['ops'][k]['mode']))
        return ids, got, outs, numpy.array(layout.indices)
    res = run_world(n, fn, choices, params_of(case))
    holders = {}
    # of many particles, look at some
    def some(a, key): return numpy.arange(len(a)) if len(a) <= 300 else numpy.unique(numpy.concatenate([numpy.arange(20), numpy.arange(len(a) - 20, len(a)), nprng('some', key).randint(0, len(a), 200)]))
    watch = numpy.concatenate([res[r][0][some(res[r][0], r)] for r in range(n)])
    for r in range(n):
        for i in res[r][1][numpy.isin(res[r][1], watch)]: holders.setdefault(int(i), []).append(r)
    for r in range(n):
        ids, got, outs, indices = res[r]
        for k, op in enumerate(case['ops']):
            o = outs[k]
            what = 'gather %s of %s%s on rank %d' % (op['mode'], op['dtype'], tuple(op['trail']), r)
            if op['mode'] == 'all':
                check(len(o) == len(indices), '%s: %d entries for %d deliveries', what, len(o), len(indices))
                seen = {}
                for j in numpy.nonzero(numpy.isin(ids[indices], watch))[0]: seen.setdefault(int(ids[indices[j]]), []).append(o[j])
                for i in ids[some(ids, r)]:
                    i = int(i)
                    exp = [values(op, k, [i], q)[0] for q in holders.get(i, [])]
                    have = list(seen.get(i, []))
                    check(len(exp) == len(have), '%s: %d values for particle %d held by %d ranks', what, len(have), i, len(exp))
                    a = sorted(repr(x) for x in exp); b = sorted(repr(x) for x in have)
                    check(a == b, '%s: particle %d has %s, expected %s', what, i, have, exp)
                continue
            check(len(o) == len(ids), '%s: %d entries for %d particles', what, len(o), len(ids))
            check(o.shape[1:] == tuple(op['trail']), '%s: shape %s', what, o.shape)
            for j in some(ids, r):
                i = int(ids[j])
                hs = holders.get(i, [])
                v = [values(op, k, [i], q)[0] for q in hs]
                w = '%s, particle %d (held by ranks %s)' % (what, i, hs)
                m = op['mode']
                if m == 'local':
                    if r in hs: same(o[j], values(op, k, [i], r)[0], w)
                    continue
                if m == 'sum' and not hs:
                    same(o[j], numpy.zeros(op['trail'], o.dtype), w); continue
                if not hs: continue
                if m == 'any':
                    check(any(numpy.array_equal(o[j], x) for x in v), '%s: %s is none of %s', w, o[j], v); continue
                if m in ('sum', 'uf:add'): e = sum(v[1:], v[0])
                elif m == 'mean':
                    e = sum([numpy.asarray(x, 'c16' if op['dtype'] in ('c16', 'c8') else 'f8') for x in v]) / len(v)
                else:
                    e = v[0]
                    f = getattr(numpy, m[3:])
                    if m == 'uf:logical_or': e = f.reduce(numpy.array(v), axis=0)
                    else:
                        for x in v[1:]: e = f(e, x)
                if m == 'uf:logical_or': same(o[j], e, w)
                elif op['dtype'] in ('f8', 'f4', 'c16', 'c8', 'g') or m == 'mean':
                    close(o[j], e, (1e-4 if op['dtype'] in ('f4', 'c8') else 1e-12) * (numpy.abs(e) + sum(numpy.abs(numpy.asarray(x, 'c16')) for x in v) + 1), w)
                else: same(o[j], e, w)
