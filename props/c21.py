"""Timers accumulate the time spent inside their sections."""
from .meshcase import *
SHRINK = {'ops': 1}
KEYS = ['Paint', 'r2c', 3, ('a', 1)]
class Boom(Exception): pass
def gen(rng, tier, index):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    def prog(depth, busy):
        ops = []
        for i in range(rng.choice([1, 2, 3])):
            free = [k for k in range(len(KEYS)) if k not in busy]
            if depth < 3 and free and rng.random() < 0.7:
                k = rng.choice(free)
                ops.append(dict(op='with', key=k, body=prog(depth + 1, busy | {k}), fail=[rng.random() < 0.15 for r in range(n)], hold=rng.random() < 0.3))
            else:
                ops.append(dict(op=rng.choice(['pause', 'pause', 'print', 'read', 'sleep']), key=rng.randrange(len(KEYS)), k=[rng.randrange(5) for r in range(n)]))
        return ops
    ops = [o for i in range(rng.choice([1, 2, 4])) for o in prog(0, frozenset())]
    clock = dict(skew={str(r): rng.choice([0.0, 0.0, rng.uniform(-1e3, 1e3), 1.7e9]) for r in range(n)}, jumps={str(r): [[rng.randrange(5, 120), rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 3)] for j in range(rng.choice([0, 0, 1, 2]))] for r in range(n)})
    return dict(n=n, ops=ops, clock=clock, swarm=swarm(rng, n), single=rng.random() < 0.3)
def simplify(case):
    for r in case['clock']['skew']:
        if case['clock']['skew'][r]: yield dict(case, clock=dict(case['clock'], skew=dict(case['clock']['skew'], **{r: 0.0})))
        if case['clock']['jumps'][r]: yield dict(case, clock=dict(case['clock'], jumps=dict(case['clock']['jumps'], **{r: []})))
    for i, o in enumerate(case['ops']):
        if o['op'] == 'with':
            yield dict(case, ops=case['ops'][:i] + o['body'] + case['ops'][i + 1:])
            for j in range(len(o['body'])): yield dict(case, ops=case['ops'][:i] + [dict(o, body=o['body'][:j] + o['body'][j + 1:])] + case['ops'][i + 1:])
def run(case, choices):
    n = case['n']
    def fn(ctx):
        T = ctx.mod('tools')
        me = ctx.rank
        timers = T.Timers(ctx.comm)
        lone = T.Timer(ctx.comm)
        want = {}
        now = lambda: ctx.sim.wtime()
        def compare(what):
            for k in want:
                s = timers[k].spent
                close(numpy.float64(s), numpy.float64(want[k][0]), 1e-9 * want[k][1] + 1e-300, '%s: timer %r on rank %d' % (what, k, me))
            check(sorted(map(str, timers)) == sorted(map(str, want)), '%s: timers %s, used %s', what, sorted(map(str, timers)), sorted(map(str, want)))
        def go(ops):
            for o in ops:
                key = KEYS[o['key']]
                if o['op'] == 'with':
                    e = want.setdefault(key, [0.0, 0.0])
                    t = timers[key]
                    check(t is timers[key], 'another timer for the same key')
                    t0 = now()
                    try:
                        with t if o['hold'] else timers[key]:
                            go(o['body'])
                            if o['fail'][me]: t1 = now(); raise Boom()
                            t1 = now()
                        check(not o['fail'][me], 'an exception inside a timed section was lost')
                    except Boom:
                        if not o['fail'][me]: raise
                    e[0] += t1 - t0
                    e[1] += abs(t0) + abs(t1)
                elif o['op'] == 'pause':
                    for i in range(o['k'][me]): ctx.pause()
                elif o['op'] == 'sleep':
                    ctx.sim.now += 0.125 * o['k'][me]; ctx.pause()
                elif o['op'] == 'print':
                    s = str(timers); repr(timers)
                    for k in want: check(str(k) in s, 'timer %r is missing in %r', k, s)
                else:
                    for k in list(want): timers[k].spent
                    len(timers)
        go(case['ops'])
        compare('in the end')
        str(timers)
        compare('after printing')
        if case['single']:
            t0 = now()
            with lone: ctx.pause()
            t1 = now()
            close(numpy.float64(lone.spent), numpy.float64(t1 - t0), 1e-9 * (abs(t0) + abs(t1)), 'a single timer')
        return True
    run_world(n, fn, choices, params_of(case))
