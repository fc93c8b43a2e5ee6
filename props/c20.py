"""Rotated sections run one rank at a time in rank order; root-only functions run once."""
from .meshcase import *
SHRINK = {'ops': 1}
class Boom(Exception): pass
def gen(rng, tier, index):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
    ops = []
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        ops.append(dict(op=rng.choice(['rotate', 'rotate', 'rotate', 'root', 'root', 'barrier', 'both']), group=rng.random() < 0.3, same=rng.random() < 0.5, pause=[[rng.choice([0, 0, 1, 3, 8]) for r in range(n)], [rng.choice([0, 1, 2, 5]) for r in range(n)], [rng.choice([0, 0, 0, 4]) for r in range(n)]],
            fail=[rng.random() < 0.25 for r in range(n)] if rng.random() < 0.4 else [False] * n, rfail=rng.random() < 0.2, size=rng.randrange(4), ret=rng.choice(['dict', 'dict', 'none', 'zero', 'empty', 'array', 'tuple']), inner=rng.random() < 0.2))
    return dict(n=n, ops=ops, colors=[rng.randrange(2) for r in range(n)], swarm=swarm(rng, n))
def simplify(case):
    n = case['n']
    for m in (1, 2, n - 1):
        if 0 < m < n:
            yield dict(case, n=m, colors=case['colors'][:m], ops=[dict(o, pause=[p[:m] for p in o['pause']], fail=o['fail'][:m]) for o in case['ops']])
    for i, o in enumerate(case['ops']):
        for k, v in (('fail', [False] * n), ('rfail', False), ('group', False), ('inner', False), ('size', 0), ('ret', 'dict')):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
def run(case, choices):
    n = case['n']
    events = []        # (operation, communicator, event, rank in it) in the order of the execution
    calls = []
    def fn(ctx):
        T = ctx.mod('tools')
        me = ctx.rank
        sub = ctx.comm.Split(case['colors'][me], me)
        kept = {}
        outs = []
        for k, op in enumerate(case['ops']):
            comm = sub if op['group'] else ctx.comm
            tag = (k, case['colors'][me] if op['group'] else 'all')
            for i in range(op['pause'][0][me]): ctx.pause()
            out = None
            if op['op'] in ('rotate', 'both'):
                rot = kept.get(op['group']) if op['same'] else None
                if rot is None: rot = kept[op['group']] = T.Rotator(comm)
                raised = False
                try:
                    with rot:
                        events.append((tag, 'enter', comm.rank))
                        for i in range(op['pause'][1][me]):
                            ctx.pause()
                            if op['inner']: ctx.self_comm.Barrier()
                        events.append((tag, 'leave', comm.rank))
                        if op['fail'][me]: raise Boom(me)
                except Boom as e:
                    raised = True
                    check(e.args == (me,), 'step %d: the exception of rank %s arrived on rank %d', k, e.args, me)
                check(raised == op['fail'][me], 'step %d: rank %d: exception in the rotated section %s', k, me, 'lost' if op['fail'][me] else 'appeared')
            if op['op'] in ('root', 'both'):
                @T.FromRoot(comm)
                def f(a, b=1):
                    calls.append((tag, comm.rank))
                    for i in range(op['pause'][1][me]): ctx.pause()
                    if op['rfail']: raise Boom('root')
                    return dict(none=None, zero=0, empty='', array=numpy.arange(op['size']), tuple=(a, b, comm.rank)).get(op['ret'], dict(v=a + b, x=numpy.arange(op['size'])))
                try:
                    out = f(10 * k, b=7)
                    check(not op['rfail'], 'step %d: the function raised on the root, rank %d got %s', k, me, out)
                    ret = op['ret']
                    if ret == 'dict':
                        check(out['v'] == 10 * k + 7, 'step %d: rank %d got %s', k, me, out['v'])
                        same(out['x'], numpy.arange(op['size']), 'step %d: result on rank %d' % (k, me))
                        # what one rank does with its result is its own affair
                        out['x'] += comm.rank
                    elif ret == 'array':
                        same(out, numpy.arange(op['size']), 'step %d: result on rank %d' % (k, me))
                        out += comm.rank
                    else:
                        want = dict(none=None, zero=0, empty='', tuple=(10 * k, 7, 0))[ret]
                        check(type(out) is type(want) and out == want, 'step %d: rank %d got %r', k, me, out)
                except Exception as e:
                    if isinstance(e, Violation): raise
                    check(op['rfail'], 'step %d: rank %d: %r', k, me, e)
                    if comm.rank == 0: check(isinstance(e, Boom), 'step %d: the root got %r', k, e)
            if op['op'] == 'barrier': comm.Barrier()
            for i in range(op['pause'][2][me]): ctx.pause()
        return True
    run_world(n, fn, choices, params_of(case))
    # all sections on one communicator, whatever round they belong to
    order = {g: [(e, r) for t, e, r in events if t[1] == g] for g in ('all', 0, 1)}
    for k, op in enumerate(case['ops']):
        groups = [('all', n)] if not op['group'] else [(c, case['colors'].count(c)) for c in sorted(set(case['colors']))]
        for g, size in groups:
            ev = [(e, r) for t, e, r in events if t == (k, g)]
            want = [(e, r) for r in range(size) for e in ('enter', 'leave')] if op['op'] in ('rotate', 'both') else []
            check(ev == want, 'step %d: sections ran as %s', k, ev)
            check(want == [] or order[g][:len(want)] == want, 'step %d: sections of different rounds overlap: %s', k, order[g][:len(want)])
            order[g] = order[g][len(want):]
            c = [r for t, r in calls if t == (k, g)]
            want = [0] if op['op'] in ('root', 'both') else []
            check(c == want, 'step %d: the function of the root ran on ranks %s', k, c)
