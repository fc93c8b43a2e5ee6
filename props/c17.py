"""Creating, sharing and dropping meshes stays consistent on all ranks."""
import gc
from .meshcase import *
SHRINK = {'ops': 1}
SIZES = {1: [[4], [5], [8]], 2: [[4, 4], [5, 3], [4, 6]], 3: [[4, 4, 4], [3, 4, 5], [2, 6, 4]]}
def gen(rng, tier, index):
    n = rng.choice([1, 2, 2, 3, 4, 4, 5, 6])
    pool = []
    for i in range(rng.choice([1, 2, 2, 3])):
        nd = rng.choice([2, 3, 3])
        pool.append(dict(N=rng.choice(SIZES[nd]), np=rng.choice([None, None, factor(rng, n, rng.choice([nd - 1, nd - 1, 1, nd]))]), dtype=rng.choice(['f8', 'f8', 'f4', 'c16', 'c8']), method=rng.choice(['estimate', 'estimate', 'measure'])))
    ops = []
    for i in range(rng.choice([3, 5, 8, 12, 16])):
        o = rng.choice(['create', 'create', 'create', 'create', 'drop', 'drop', 'drop', 'use', 'use', 'reshape', 'respawn', 'newcomm', 'freecomm', 'bad', 'loop', 'dropall'])
        ops.append(dict(op=o, pool=rng.randrange(len(pool)), slot=rng.randrange(8), comm=rng.choice(['world', 'world', 'world', 'dup', 'group', 'self']), cidx=rng.randrange(4), box=rng.choice([1.0, 2.0, 'aniso']), window=rng.choice(['cic', 'tsc', 'pcs']),
            N=rng.choice([None, None, 3, [4, 4, 4], [4, 6], [3, 4, 5], [3, 4, 2, 3]]), newbox=rng.choice([None, None, 5.0]), late=[rng.choice([0, 0, 0, 1, 2, 5]) for r in range(6)] if rng.random() < 0.6 else [0] * 6,
            field=rng.random() < 0.4, colors=[rng.randrange(2) for r in range(6)], key=rng.choice([1, -1]), seed=rng.randrange(1 << 20), bad=rng.choice(['np', 'dtype', 'dim', 'method', 'box'])))
    return dict(n=n, pool=pool, ops=ops, colors=[rng.randrange(2) for r in range(6)], swarm=swarm(rng, n), dtype='f8', N=[4, 4, 4], np=None, box=1.0, window='cic')
def simplify(case):
    n = case['n']
    for m in sorted(set([1, 2, n // 2, n - 1])):
        if 0 < m < n: yield dict(case, n=m, pool=[dict(p, np=None) for p in case['pool']])
    for i, p in enumerate(case['pool']):
        for k, v in (('np', None), ('dtype', 'f8'), ('method', 'estimate'), ('N', [4, 4])):
            if p[k] != v and (k != 'N' or p['np'] is None): yield dict(case, pool=case['pool'][:i] + [dict(p, **{k: v})] + case['pool'][i + 1:])
    for i, o in enumerate(case['ops']):
        for k, v in (('comm', 'world'), ('late', [0] * 6), ('field', False), ('box', 1.0), ('window', 'cic')):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])

class World(object):
    """which templates are alive on which rank, computed alike on every rank: slot -> facts"""
    def __init__(self, n): self.n = n; self.t = {}; self.next = 0

def run(case, choices):
    n = case['n']
    def fn(ctx):
        PM = ctx.mod('pm').ParticleMesh
        me = ctx.rank
        MPI = ctx.MPI
        comms = dict(dup=[], group=[ctx.comm.Split(case['colors'][me], me)])
        group = [r for r in range(n) if case['colors'][r] == case['colors'][me]]
        own = 1                      # communicators the user holds
        mem = {}                     # comm identity -> members
        slots = []                   # dict(pm, key, tpl, until: last step alive per world rank)
        limbo = []                   # (step, object) dropped, not yet collected
        dead = []                    # slots dropped: facts only
        live_tpl = {}                # template number -> communicators it took on this rank
        ntpl = 0
        facts = []                   # every slot ever made: dict(key, tpl, drop: {rank: step}, members)
        def alive(f, r, k):
            d = f['gone'].get(r)
            return d is None or k < d
        def expected(k):
            """communicators this rank should hold at step k"""
            seen = {}
            for f in facts:
                if alive(f, me, k): seen[f['tpl']] = f['cost']
            return own + sum(seen.values())
        def held(e):
            # meshes may be part of reference cycles
            if ctx.ncomms != e: gc.collect()
            return ctx.ncomms
        def collect(k):
            for x in [x for x in limbo if x[0] <= k]: limbo.remove(x)
        def pick_comm(op):
            c = op['comm']
            if c == 'world': return ctx.comm, 'world', list(range(n))
            if c == 'self': return ctx.self_comm, 'self%d' % me, [me]
            if c == 'dup' and comms['dup']:
                d = comms['dup'][op['cidx'] % len(comms['dup'])]
                return d[0], d[1], d[2]
            if c == 'group': return comms['group'][0], 'group%d' % case['colors'][me], group
            return ctx.comm, 'world', list(range(n))
        def classes(comm):
            """who shares a communicator with whom: alike on every rank"""
            for c in (comms['group'][0], ctx.self_comm):
                if comm == c: return list(case['colors'][:n]) if c is not ctx.self_comm else list(range(n))
            return [0] * n
        def attributes(pm, e, what):
            check([int(x) for x in pm.Nmesh] == list(e['N']), '%s: Nmesh %s, asked for %s', what, list(pm.Nmesh), e['N'])
            close(numpy.asarray(pm.BoxSize), numpy.asarray(e['box'], 'f8'), 0, what + ': BoxSize')
            check(numpy.dtype(pm.dtype) == numpy.dtype(e['dtype']), '%s: dtype %s, asked for %s', what, pm.dtype, e['dtype'])
            check(pm.comm == e['comm'], '%s: another communicator', what)
            check(pm.procmesh.comm == e['comm'], '%s: process mesh on another communicator', what)
            check(pm.resampler == ctx.mod('window').FindResampler(e['window']), '%s: window %s, asked for %s', what, pm.resampler, e['window'])
            check([int(x) for x in pm.np] == list(e['np']), '%s: process mesh %s, asked for %s', what, list(pm.np), e['np'])
        def use(s, seed, what):
            pm, e = s['pm'], s['e']
            c = dict(N=e['N'], dtype=e['dtype'])
            g = global_field(c, seed)
            f = set_local(pm.create('real'), g)
            P = numpy.prod(e['N'])
            h = (numpy.fft.rfftn(g.astype('f8')) if is_real(c) else numpy.fft.fftn(g.astype('c16'))) / P
            eps = (2e-5 if e['dtype'] in ('f4', 'c8') else 1e-11)
            for t in ('transposedcomplex', 'untransposedcomplex'):
                q = f.cast(t)
                close(numpy.asarray(q.value), h[q.slices], eps * 5, what + ': transform')
                for d in range(len(e['N'])):
                    m = numpy.arange(e['N'][d]); m = numpy.minimum(m, e['N'][d] - m)[q.slices[d]]
                    close(abs(numpy.asarray(q.x[d]).ravel().astype('f8')), m * (2 * numpy.pi / e['box'][d]), 1e-5 * e['N'][d] * 7 / e['box'][d], what + ': wave numbers')
                close(numpy.asarray(q.c2r().value), g[f.slices], eps * 20 * max(1.0, float(abs(g).max())), what + ': transform and back')
            x, i = f.x, f.i
            for d in range(len(e['N'])):
                want = numpy.arange(e['N'][d])
                want = numpy.where(want >= (e['N'][d] + 1) // 2, want - e['N'][d], want) * e['box'][d] / e['N'][d]
                close(numpy.asarray(x[d]).ravel().astype('f8'), want[f.slices[d]], 1e-5 * e['box'][d], what + ': coordinates')
            tot = f.csum()
            close(numpy.asarray(tot).astype('c16'), numpy.asarray(g.astype('c16').sum()), eps * 20 * P, what + ': sum')
            if is_real(c):
                pos = nprng('c17', seed, me).uniform(size=(3, len(e['N']))) * numpy.asarray(e['box'])
                lay = pm.decompose(pos)
                r = pm.paint(pos, layout=lay)
                close(float(r.csum()), 3.0 * len(e['members']), eps * 1e3, what + ': painted mass')
                # in which cell of the box a particle is
                cell = nprng('cell', seed, me).randint(0, 1 << 20, size=(4, len(e['N']))) % numpy.array(e['N'])
                pos = (cell + 0.25) * (numpy.asarray(e['box']) / numpy.array(e['N']))
                lay = pm.decompose(pos, smoothing='nnb')
                close(lay.gather(f.readout(lay.exchange(pos), resampler='nnb')), g[tuple(cell.T)], 0, what + ': values of the cells the particles are in')
                r = pm.paint(pos, resampler='nnb', layout=lay)
                w = numpy.zeros(e['N'])
                for c in pm.comm.allgather(cell): numpy.add.at(w, tuple(c.T), 1)
                close(numpy.asarray(r.value), w[r.slices], 1e-5, what + ': numbers of particles in the cells')
        def made(pm, e, key, k, cost0, what):
            nonlocal ntpl
            # equal mesh alive on all members? then nothing is taken
            cand = None
            for f in facts:
                if f['key'] != key: continue
                if all(any(alive(g, r, k) for g in facts if g['tpl'] == f['tpl']) for r in e['members']): cand = f['tpl']
            took = ctx.ncomms - cost0
            if cand is not None:
                check(took == 0, '%s: an equal mesh was alive, %d more communicators were taken', what, took)
                tpl, cost = cand, [f for f in facts if f['tpl'] == cand][0]['cost']
            else:
                check(took == 1 + len(e['np']), '%s: %d communicators taken for a process mesh of %d dimensions', what, took, len(e['np']))
                tpl, cost = ntpl, took
                ntpl += 1
            f = dict(key=key, tpl=tpl, cost=cost, gone={})
            facts.append(f)
            attributes(pm, e, what)
            slots.append(dict(pm=pm, e=e, f=f, field=None))
        def drop(i, late, k):
            s = slots.pop(i)
            for r in range(n):
                s['f']['gone'][r] = k + late[r]
            if late[me]: limbo.append((k + late[me], s['pm'], s['field']))
        def defaults(nd, size):
            return split2(size) if nd >= 3 else [size] if nd == 2 else []
        for k, op in enumerate(case['ops']):
            what = 'step %d: %s' % (k, op['op'])
            collect(k)
            base = held(expected(k))
            check(base == expected(k), '%s: before it %d communicators are held, %d expected', what, base, expected(k))
            o = op['op']
            if o in ('create', 'loop'):
                p = case['pool'][op['pool'] % len(case['pool'])]
                comm, cname, members = pick_comm(op)
                box = [1.5 + d for d in range(len(p['N']))] if op['box'] == 'aniso' else [op['box']] * len(p['N'])
                np_ = p['np'] if len(members) == n and p['np'] is not None and numpy.prod(p['np']) == n else None
                e = dict(N=p['N'], box=box, dtype=p['dtype'], comm=comm, window=op['window'], np=np_ or defaults(len(p['N']), len(members)), members=members)
                key = (tuple(p['N']), cname, tuple(e['np']), p['dtype'], p['method'])
                for j in range(6 if o == 'loop' else 1):
                    c0 = held(expected(k))
                    pm = PM(Nmesh=p['N'], BoxSize=box if op['box'] == 'aniso' else op['box'], comm=comm, np=np_, dtype=p['dtype'], plan_method=p['method'], resampler=op['window'])
                    made(pm, e, key, k, c0, what)
                    del pm
                    if o == 'loop':
                        if op['field']: use(slots[-1], op['seed'], what)
                        drop(len(slots) - 1, [0] * 6, k)
                        # collected at once: alive no longer in this step
            elif o in ('reshape', 'respawn') and slots:
                s = slots[op['slot'] % len(slots)]
                e0 = s['e']
                if o == 'reshape':
                    N = op['N'] if op['N'] is not None else e0['N']
                    if numpy.isscalar(N): N = [N] * len(e0['N'])
                    box = e0['box'] if op['newbox'] is None else [op['newbox']] * len(N)
                    if len(N) != len(e0['N']) and (op['newbox'] is None and len(N) > len(e0['N']) or len(e0['np']) > len(N)):
                        del s; continue
                    box = list(box)[:len(N)]
                    c0 = ctx.ncomms
                    kw = {}
                    if op['N'] is not None: kw['Nmesh'] = op['N']
                    if op['newbox'] is not None: kw['BoxSize'] = op['newbox']
                    pm = s['pm'].reshape(**kw)
                    e = dict(e0, N=N, box=box)
                    key = (tuple(N),) + s['f']['key'][1:4] + ('estimate',)
                else:
                    comm, cname, members = pick_comm(op)
                    a, b = classes(comm), classes(e0['comm'])
                    if any(a[i] == a[j] and b[i] != b[j] for i in range(n) for j in range(n)):
                        del s; continue         # on some rank, not a part of the communicator of the mesh
                    c0 = ctx.ncomms
                    pm = s['pm'].respawn(comm)
                    e = dict(e0, comm=comm, members=members, np=defaults(len(e0['N']), len(members)))
                    key = (tuple(e0['N']), cname, tuple(e['np']), e0['dtype'], 'estimate')
                made(pm, e, key, k, c0, what)
                del pm, s
            elif o == 'use' and slots:
                s = slots[op['slot'] % len(slots)]
                use(s, op['seed'], what)
                if op['field']: s['field'] = s['pm'].create('real')
                attributes(s['pm'], s['e'], what)
                del s
            elif o == 'drop' and slots: drop(op['slot'] % len(slots), op['late'], k)
            elif o == 'dropall':
                while slots: drop(len(slots) - 1, op['late'], k)
            elif o == 'newcomm' and len(comms['dup']) < 3:
                comms['dup'].append((ctx.comm.Dup(), 'dup%d' % k, list(range(n)))); own += 1
            elif o == 'freecomm' and comms['dup']:
                c = comms['dup'][op['cidx'] % len(comms['dup'])]
                for i in reversed(range(len(slots))):
                    if slots[i]['e']['comm'] == c[0]: drop(i, op['late'], k)
                comms['dup'].remove(c)
                c[0].Free(); own -= 1
                del c
            elif o == 'bad':
                kw = dict(np=dict(Nmesh=[4, 4, 4], np=[n + 1, 1]), dtype=dict(Nmesh=[4, 4], dtype='i4'), dim=dict(Nmesh=[8]), method=dict(Nmesh=[4, 4], plan_method='quick'), box=dict(Nmesh=[4, 4], BoxSize=[1, 1, 1]))[op['bad']]
                try:
                    pm = PM(comm=ctx.comm, **kw)
                    check(op['bad'] == 'dim' and n == 1, '%s: %s accepted', what, kw)
                    del pm
                except (ValueError, RuntimeError, KeyError, TypeError): pass
            c = comm = e = None
        for k in range(len(case['ops']), len(case['ops']) + 8): collect(k)
        for i, s in enumerate(slots):
            attributes(s['pm'], s['e'], 'in the end')
            use(s, 5 + i, 'in the end')
        s = None
        del slots[:], limbo[:]
        check(held(own) == own, 'all meshes dropped, %d communicators are held, %d by the caller', ctx.ncomms, own)
        return [f['tpl'] for f in facts]
    run_world(n, fn, choices, params_of(case))
