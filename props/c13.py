"""Collective access to single elements."""
from .meshcase import *
from .c12 import TYPES, CLS
SHRINK = {'ops': 1}
def gen(rng, tier, index):
    case = gen_mesh(rng, most=200)
    case['kind'] = rng.choice(TYPES)
    N = case['N']
    ops = []
    for i in range(rng.choice([1, 2, 3, 5, 8])):
        idx = []
        for d in range(len(N)):
            k = rng.randrange(N[d])
            if rng.random() < 0.4: k = rng.choice([0, N[d] // 2, N[d] - 1])
            idx.append(k)
        stored = case['kind'] == 'real' or not is_real(case) or idx[-1] < N[-1] // 2 + 1
        if not stored and rng.random() < 0.7: idx[-1] = rng.randrange(N[-1] // 2 + 1)
        idx = [k - N[d] if rng.random() < 0.25 else k for d, k in enumerate(idx)]
        ops.append(dict(op=rng.choice(['get', 'set', 'set']), idx=idx, part=rng.choice([None, None, 0, 1]) if case['kind'] != 'real' else None, v=[rng.choice([0, 1.5, -2.25, rng.uniform(-3, 3)]), rng.choice([0, 0.5, rng.uniform(-3, 3)])],
                        form=rng.choice(['list', 'tuple', 'array', 'i4']), vform=rng.choice(['python', 'numpy'])))
    case['ops'] = ops
    case['swarm'] = swarm(rng, case['n'])
    return case
def simplify(case):
    def fix(c):
        c = dict(c)
        c['ops'] = [dict(o, idx=[max(-c['N'][d], min(k, c['N'][d] - 1)) for d, k in enumerate(o['idx'])]) for o in c['ops']]
        return c
    for c in simplify_mesh(case, fix): yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('form', 'list'), ('vform', 'python'), ('part', None)):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])

def run(case, choices):
    kind, N = case['kind'], case['N']
    tol = 1e-5 if case['dtype'] in ('f4', 'c8') else 1e-13
    def fn(ctx):
        pm = mesh(ctx, case)
        g = global_field(case, 5, 'real' if kind == 'real' else 'complex')
        f = set_local(pm.create(kind), g)
        other = set_local(pm.create(kind), g)
        rets = []
        for k, op in enumerate(case['ops']):
            idx = list(op['idx']) + ([op['part']] if op['part'] is not None else [])
            arg = tuple(idx) if op['form'] == 'tuple' else numpy.array(idx) if op['form'] == 'array' else numpy.array(idx, 'i4') if op['form'] == 'i4' else idx
            at = tuple(i % n for i, n in zip(op['idx'], N))
            stored = all(i < s for i, s in zip(at, g.shape))
            what = 'step %d: %s %s' % (k, op['op'], idx)
            if op['op'] == 'get':
                if not stored: continue
                r = f.cgetitem(arg)
                e = g[at] if op['part'] is None else g[at].real if op['part'] == 0 else g[at].imag
                close(numpy.asarray(r), numpy.asarray(e), 0, what)
            else:
                v = complex(*op['v'])
                if op['part'] is not None: v = op['v'][0]
                elif g.dtype.kind == 'f': v = op['v'][0]
                if op['vform'] == 'numpy': v = numpy.dtype(g.dtype).type(v) if op['part'] is None else numpy.float64(v)
                r = f.csetitem(arg, v)
                dual = tuple((n - i) % n for i, n in zip(at, N))
                self_dual = kind != 'real' and dual == at
                if op['part'] is not None:
                    if self_dual and op['part'] == 1: v = 0.0
                    e = complex(v, g[at].imag) if stored and op['part'] == 0 else complex(g[at].real, v) if stored else None
                else:
                    if self_dual: v = numpy.real(v)
                    e = v
                if stored:
                    g[at] = e
                    close(numpy.asarray(r), numpy.asarray(v), tol * (1 + abs(v)), what + ': value returned')
                if kind != 'real' and not self_dual and all(i < s for i, s in zip(dual, g.shape)):
                    if op['part'] is None: g[dual] = numpy.conj(v)
                    elif op['part'] == 0: g[dual] = complex(v, g[dual].imag)
                    else: g[dual] = complex(g[dual].real, -v)
            if isinstance(arg, numpy.ndarray): check(arg.tolist() == idx, '%s: the index array was modified', what)
            rets.append(r)
            same(numpy.array(f.value), g[f.slices], what + ': field afterwards')
        same(numpy.array(other.value), global_field(case, 5, 'real' if kind == 'real' else 'complex')[other.slices], 'another field')
        return rets, grab(f)
    res = run_world(case['n'], fn, choices, params_of(case))
    for k in range(len(res[0][0])): agree([r[0][k] for r in res], 'value returned in step %d' % k)
    assemble([r[1] for r in res], 'field')
