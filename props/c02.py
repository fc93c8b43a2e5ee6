"""Exchanged columns arrive intact and aligned."""
from .domcase import *
SHRINK = {'pts': 0, 'calls': 1}

def gen(rng, tier, index):
    case = gen_grid(rng)
    case['pts'] = gen_points(rng, case)
    gen_options(rng, case)
    case['calls'] = [dict(pack=rng.random() < 0.6, cols=[gen_column(rng) for i in range(rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.95 else rng.randrange(10, 14))]) for k in range(rng.choice([1, 2, 2, 3, 4]))]
    case['overwrite'] = rng.random() < 0.5
    if index % 50 == 9 and small(case):
        case['bulk'] = dict(seed=rng.randrange(1 << 30), counts=[rng.choice([0, 100, 33000, 50000, 66000]) for r in range(case['n'])])
        case['calls'] = case['calls'][:2]
    case['swarm'] = swarm(rng, case['n'])
    return case

def simplify(case):
    for c in simplify_grid(case): yield c
    for i, k in enumerate(case['calls']):
        if len(k['cols']) > 1:
            for j in range(len(k['cols'])):
                yield dict(case, calls=case['calls'][:i] + [dict(k, cols=k['cols'][:j] + k['cols'][j + 1:])] + case['calls'][i + 1:])
        for j, c in enumerate(k['cols']):
            for key, v in (('dtype', 'f8'), ('trail', []), ('layout', 'C')):
                if c[key] != v:
                    yield dict(case, calls=case['calls'][:i] + [dict(k, cols=k['cols'][:j] + [dict(c, **{key: v})] + k['cols'][j + 1:])] + case['calls'][i + 1:])

def run(case, choices):
    def fn(ctx):
        g, pos, ids, layout = do_decompose(ctx, case)
        got = layout.exchange(ids)
        check(isinstance(got, numpy.ndarray) and got.dtype == ids.dtype and got.shape == (layout.recvlength,), 'exchange of ids returned %s', short(got))
        got = got.copy()
        kept = []
        for ic, call in enumerate(case['calls']):
            cols = [column(c, ids) for c in call['cols']]
            args = [laid_out(c, a) for c, a in zip(call['cols'], cols)]
            out = layout.exchange(*args, pack=call['pack'])
            if len(args) == 1: out = (out,)
            check(isinstance(out, tuple) and len(out) == len(args), 'exchange of %d columns returned %s', len(args), type(out))
            for k, (c, a, o) in enumerate(zip(call['cols'], cols, out)):
                what = 'call %d (%s), column %d (%s%s, %s)' % (ic, 'packed' if call['pack'] else 'one at a time', k, c['dtype'], tuple(c['trail']), c['layout'])
                same_bytes(numpy.asarray(args[k]), a, what + ' after exchange, input')
                same_bytes(o, column(c, got), what)
            if case['overwrite']:
                # what was returned is independent of what was given
                for k, (c, a, o) in enumerate(zip(call['cols'], args, out)):
                    if isinstance(a, numpy.ndarray) and a.flags.writeable and a.nbytes: a.view('u1' if a.flags.c_contiguous else a.dtype)[...] = numpy.zeros(1, 'u1' if a.flags.c_contiguous else a.dtype)
                    same_bytes(o, column(c, got), 'column %d after the input was overwritten' % k)
            kept.append(out)
        for call, out in zip(case['calls'], kept):
            for k, (c, o) in enumerate(zip(call['cols'], out)):
                same_bytes(o, column(c, got), 'column %d of an earlier call, after later calls' % k)
        return got, ids, seen_pos(case, pos)
    res = run_world(case['n'], fn, choices, params_of(case))
    # the ids, by which the columns are compared, are those of the particles that belong where they arrived
    delivery(case, numpy.concatenate([r[2] for r in res]), numpy.concatenate([r[1] for r in res]), [r[0] for r in res])
