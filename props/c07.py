"""A wrong-length argument is refused on every rank and nothing hangs."""
from .domcase import *
SHRINK = {'pts': 0, 'ops': 1}
def gen(rng, tier, index):
    case = gen_grid(rng)
    n = case['n']
    case['pts'] = gen_points(rng, case)
    gen_options(rng, case)
    ops = []
    for k in range(rng.choice([1, 1, 2, 3])):
        what = rng.choice(['exchange', 'exchange', 'gather'])
        bad = rng.sample(range(n), rng.choice([1, 1, rng.randrange(1, n + 1), n]))
        op = dict(what=what, bad=sorted(bad), how=rng.choice(['longer', 'shorter', 'empty', 'double', 'trail']), cols=rng.choice([1, 1, 2, 3]), badcol=rng.randrange(3), pack=rng.random() < 0.6,
                  mode=rng.choice(['sum', 'any', 'mean', 'all', 'local', 'max']), trail=rng.choice([[], [3], [1], [2, 2]]), ok=rng.random() < 0.1)
        ops.append(op)
    case['ops'] = ops
    case['swarm'] = swarm(rng, n)
    return case
def simplify(case):
    for c in simplify_grid(case):
        if c['n'] != case['n']:
            c['ops'] = [dict(o, bad=sorted(set(b % c['n'] for b in o['bad']))) for o in c['ops']]
        yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('cols', 1), ('trail', []), ('badcol', 0), ('pack', False)):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])

def spoil(op, a):
    """a wrong version of the data, or None when this cannot be made wrong"""
    h = op['how']
    if h == 'longer': return numpy.concatenate([a, numpy.zeros((1,) + a.shape[1:], a.dtype)])
    if h == 'double': return numpy.concatenate([a, a]) if len(a) else None
    if h == 'shorter': return a[:-1] if len(a) else None
    if h == 'empty': return a[:0] if len(a) else None
    if h == 'trail':
        # a rank without data may hold it in any shape
        return numpy.zeros(a.shape + (2,), a.dtype) if len(a) else None

def run(case, choices):
    n = case['n']
    def fn(ctx):
        g, pos, ids, layout = do_decompose(ctx, case)
        got = numpy.array(layout.exchange(ids))
        outs = []
        for op in case['ops']:
            base = ids if op['what'] == 'exchange' else got
            ncol = op['cols'] if op['what'] == 'exchange' else 1
            cols = [numpy.zeros((len(base),) + tuple(op['trail']), 'f8') + base.reshape([-1] + [1] * len(op['trail'])) + 0.25 * c for c in range(ncol)]
            args = [c.copy() for c in cols]
            spoiled = False
            if ctx.rank in op['bad'] and not op['ok']:
                b = spoil(op, args[op['badcol'] % ncol])
                if b is not None: args[op['badcol'] % ncol] = b; spoiled = True
            what = '%s %s' % (op['what'], 'packed' if op['pack'] else 'unpacked')
            raised = None
            try:
                if op['what'] == 'exchange': layout.exchange(*args, pack=op['pack'])
                else: layout.gather(args[0], mode=numpy.maximum if op['mode'] == 'max' else op['mode'])
            except Exception as e:
                raised = '%s: %s' % (type(e).__name__, e)
            outs.append((spoiled, raised))
            # the layout still works
            if op['what'] == 'exchange':
                r = layout.exchange(*cols, pack=op['pack'])
                r = (r,) if ncol == 1 else r
                for c, x in enumerate(r): same(x, numpy.zeros((len(got),) + tuple(op['trail'])) + got.reshape([-1] + [1] * len(op['trail'])) + 0.25 * c, '%s afterwards, column %d' % (what, c))
            else:
                layout.gather(cols[0], mode=numpy.maximum if op['mode'] == 'max' else op['mode'])
            same(numpy.array(layout.exchange(ids)), got, 'exchange afterwards')
        return outs, ctx.datatypes, len(ids)
    res = run_world(n, fn, choices, params_of(case))
    for k, op in enumerate(case['ops']):
        bad = [r for r in range(n) if res[r][0][k][0]]
        # when every rank gives the same other trailing shape, it is not a mismatch
        if op['how'] == 'trail' and not any(res[r][2] and not res[r][0][k][0] for r in range(n)) : continue
        raised = [r for r in range(n) if res[r][0][k][1]]
        if op['how'] == 'trail' and op['what'] == 'gather' and not bad_trail_gather(res, k, n): continue
        if bad: check(len(raised) == n, '%s with wrong data (%s) on ranks %s raised on ranks %s only', op['what'], op['how'], bad, raised)
        else: check(not raised, '%s with correct data raised on ranks %s: %s', op['what'], raised, res[raised[0]][0][k][1] if raised else '')
    for r in range(n): check(res[r][1] == 0, 'rank %d still holds %d datatypes', r, res[r][1])

def bad_trail_gather(res, k, n):
    return len(set(res[r][0][k][0] for r in range(n))) == 2
