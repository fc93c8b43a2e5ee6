"""Field arithmetic: the same cells as on the global array, in fields of the same kind, without communication."""
from .meshcase import *
from .c12 import TYPES, CLS
import operator, warnings
SHRINK = {'steps': 1}
BIN = ['add', 'subtract', 'multiply', 'true_divide', 'power']
UN = ['negative', 'absolute', 'conjugate', 'positive', 'square', 'sign', 'abs', 'neg', 'exp', 'floor', 'rint']
CMP = ['equal', 'not_equal', 'less', 'greater_equal', 'isfinite']
def gen(rng, tier, index):
    case = gen_mesh(rng, ndims=(1, 2, 2, 3, 3, 3, 4))
    case['kind'] = rng.choice(TYPES)
    steps = []
    for i in range(rng.choice([1, 2, 3, 5, 8])):
        op = rng.choice(['binary', 'binary', 'binary', 'unary', 'unary', 'compare', 'inplace', 'inplace', 'out', 'out', 'two', 'reduce', 'at', 'copy', 'set', 'create', 'attributes', 'where', 'alias', 'imaginary'])
        steps.append(dict(op=op, fn=rng.choice({'binary': BIN, 'inplace': BIN, 'out': BIN + UN[:4], 'unary': UN, 'compare': CMP, 'two': ['modf', 'divmod', 'frexp']}.get(op, [''])),
            a=rng.randrange(3), b=rng.randrange(3), to=rng.randrange(3), other=rng.choice(['field', 'field', 'array', 'scalar', 'int', 'npscalar', 'row', 'self']), swapped=rng.random() < 0.4, via=rng.choice(['operator', 'numpy']),
            outkind=rng.choice(['field', 'array', 'tuple']), axis=rng.randrange(4), only=sorted(rng.sample(range(case['n']), rng.randrange(1, case['n'] + 1))) if rng.random() < 0.3 else None, seed=rng.randrange(1 << 20), keep=rng.random() < 0.5))
    case['steps'] = steps
    case['swarm'] = swarm(rng, case['n'])
    return case
def simplify(case):
    for c in simplify_mesh(case):
        yield dict(c, steps=[dict(s, only=None if s['only'] is None else [x for x in s['only'] if x < c['n']] or [0]) for s in c['steps']])
    for i, s in enumerate(case['steps']):
        for k, v in (('only', None), ('swapped', False), ('other', 'field'), ('via', 'numpy')):
            if s[k] != v: yield dict(case, steps=case['steps'][:i] + [dict(s, **{k: v})] + case['steps'][i + 1:])

OPS = dict(add=operator.add, subtract=operator.sub, multiply=operator.mul, true_divide=operator.truediv, power=operator.pow)
IOPS = dict(add=operator.iadd, subtract=operator.isub, multiply=operator.imul, true_divide=operator.itruediv, power=operator.ipow)
def cell_values(case, seed, real):
    """values away from zero, so that quotients and powers are harmless"""
    g = global_field(case, seed, 'real' if real else 'complex')
    m = numpy.abs(g)
    return (g / numpy.where(m == 0, 1, m) * (0.5 + numpy.minimum(m, 1.5))).astype(g.dtype) + (m == 0).astype(g.dtype)

def run(case, choices):
    real = case['kind'] == 'real'
    tol = tol_of(case)
    cplx = not real or not is_real(case)
    def fn(ctx):
        pm = mesh(ctx, case)
        G = [cell_values(case, ('start', i), real) for i in range(3)]
        F = [set_local(pm.create(case['kind']), g) for g in G]
        want = [numpy.array(g[f.slices]) for g, f in zip(G, F)]      # what this rank's part of each field must be
        T = type(F[0])
        dt = F[0].dtype
        def tame(f): return bool((numpy.isfinite(f.value) & (numpy.abs(f.value) < 1e3) & (numpy.abs(f.value) > 1e-3)).all())
        def field(r, e, what, fresh):
            check(isinstance(r, T), '%s: gave a %s, not a %s', what, type(r).__name__, T.__name__)
            check(r.pm is pm, '%s: field of another mesh', what)
            check(r.shape == F[0].shape and r.dtype == dt, '%s: shape %s and type %s instead of %s and %s', what, r.shape, r.dtype, F[0].shape, dt)
            near(r.value, e, what)
            if fresh:
                for f in F: check(r is not f and not numpy.shares_memory(r.value, f.value), '%s: the result shares memory with a field it was computed from', what)
        def near(a, e, what):
            a = numpy.asarray(a); e = numpy.asarray(e)
            check(a.shape == e.shape, '%s: shape %s instead of %s', what, a.shape, e.shape)
            with numpy.errstate(all='ignore'):
                e = e.astype(a.dtype)
                ok = numpy.isfinite(e)
                same(numpy.isfinite(a), ok, what + ': finite cells')
                close(a[ok], e[ok], tol * (numpy.abs(e[ok]) + 1), what)
        def describe(f, what):
            nd = len(case['N'])
            N = case['N']
            cs = list(N)
            if not real and is_real(case): cs[-1] = N[-1] // 2 + 1
            check([int(c) for c in f.cshape] == cs and int(f.csize) == int(numpy.prod(cs)), '%s: global shape %s and size %s', what, f.cshape, f.csize)
            check(tuple(f.shape) == f.value.shape and f.size == f.value.size and f.dtype == f.value.dtype and f.ndim == nd, '%s: local shape, size, type or dimension', what)
            check([int(x) for x in f.Nmesh] == N, '%s: Nmesh %s', what, f.Nmesh)
            close(numpy.array(f.BoxSize, 'f8'), boxsize(case), 0, what + ': BoxSize')
            check(f.slices == tuple(slice(int(s), int(s) + k) for s, k in zip(f.start, f.shape)), '%s: slices %s for start %s and shape %s', what, f.slices, f.start, f.shape)
            check(bool(f.compressed) == (cs[-1] != N[-1]) or N[-1] in (1, 2), '%s: compressed %s', what, f.compressed)
            check(len(f.flat) == f.size, '%s: flat has %d elements', what, len(f.flat))
            if f.size:
                f.flat[0] = 3.0
                check(f.value[(0,) * nd] == 3.0, '%s: flat is not a view of the field', what)
            if not real:
                f.real[...] = 2.0; f.imag[...] = -1.0
                check((f.value == 2 - 1j).all(), '%s: real and imag are not views of the field', what)
                f.plain[..., 1] = 0.5
                check((f.value == 2 + 0.5j).all(), '%s: plain is not a view of the field', what)
            a = numpy.asarray(f)
            check(a.shape == tuple(f.shape) and (f.size == 0 or numpy.shares_memory(a, f.value)), '%s: as an array', what)
        for k, s in enumerate(case['steps']):
            op, name = s['op'], s['fn']
            what = 'step %d: %s %s' % (k, op, name)
            if s['only'] is not None and ctx.rank not in s['only'] and op != 'alias':
                # the others do nothing at all
                continue
            a, b, to = F[s['a']], F[s['b']], F[s['to']]
            wa, wb = want[s['a']], want[s['b']]
            o, wo = b, wb
            if name == 'power': s = dict(s, other='int')
            if s['other'] == 'array': wo = cell_values(case, s['seed'], real)[a.slices].copy(); o = wo.copy()
            if s['other'] == 'scalar': o = wo = 1.5
            if s['other'] == 'int': o = wo = 2
            if s['other'] == 'npscalar': o = wo = numpy.dtype(dt).type(1.25)
            if s['other'] == 'row': wo = numpy.arange(1, a.shape[-1] + 1).astype(dt) if a.ndim else 1.0; o = wo.copy()
            if s['other'] == 'self': o, wo = a, wa
            u = getattr(numpy, name, None) if name not in ('abs', 'neg') else None
            with numpy.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if op == 'binary':
                    if name == 'power' and s['swapped']: s = dict(s, swapped=False)
                    f = OPS[name] if s['via'] == 'operator' else u
                    r = f(o, a) if s['swapped'] else f(a, o)
                    e = u(wo, wa) if s['swapped'] else u(wa, wo)
                    field(r, e, what + ' with ' + s['other'], True)
                    if s['keep'] and tame(r): F[s['to']], want[s['to']] = r, numpy.array(r.value)
                elif op == 'unary':
                    if cplx and name in ('floor', 'rint', 'exp'): name = 'negative'; u = numpy.negative
                    if name == 'sign' and cplx: name = 'conjugate'; u = numpy.conjugate
                    if name == 'abs': r, e = abs(a), abs(wa)
                    elif name == 'neg': r, e = -a, -wa
                    else: r, e = u(a), u(wa)
                    field(r, e, what, True)
                    if s['keep'] and tame(r): F[s['to']], want[s['to']] = r, numpy.array(r.value)
                elif op == 'compare':
                    if name == 'isfinite': r, e = numpy.isfinite(a), numpy.isfinite(wa)
                    else:
                        if cplx and name in ('less', 'greater_equal'): name = 'equal'; u = numpy.equal
                        r, e = (dict(equal=operator.eq, not_equal=operator.ne, less=operator.lt, greater_equal=operator.ge)[name] if s['via'] == 'operator' else u)(a, o), u(wa, wo)
                    check(type(r) is numpy.ndarray and r.dtype == bool, '%s: gave %s of %s', what, type(r).__name__, getattr(r, 'dtype', None))
                    same(r, e, what)
                elif op == 'inplace':
                    e = u(wa, wo).astype(dt)
                    mem = a.value
                    r = IOPS[name](a, o)
                    check(r is a, '%s: the field is replaced by another, which others holding it do not follow', what)
                    near(r, e, what)
                    F[s['a']], want[s['a']] = r, numpy.array(r.value)
                    check(numpy.shares_memory(a.value, mem) or a.size == 0, '%s: moved', what)
                elif op == 'out':
                    unary = name in UN[:4]
                    if name == 'absolute' and cplx: name = 'negative'; u = numpy.negative
                    e = (u(wa) if unary else u(wa, wo)).astype(dt)
                    arr = numpy.full(a.shape, 9, dt)
                    target = arr if s['outkind'] == 'array' else to
                    r = u(*((a,) if unary else (a, o)), out=(target,) if s['outkind'] == 'tuple' else target)
                    near(target, e, what + ' into ' + s['outkind'])
                    near(r, e, what + ', returned')
                    if target is to: check(r is to, '%s into a field: gave another object', what)
                    if target is to: want[s['to']] = numpy.array(to.value)
                elif op == 'two':
                    if cplx: continue
                    if name == 'modf': r, e = numpy.modf(a), numpy.modf(wa)
                    elif name == 'frexp': r, e = numpy.frexp(a), numpy.frexp(wa)
                    else: r, e = divmod(a, 0.75), numpy.divmod(wa, 0.75)
                    check(type(r) is tuple and len(r) == 2, '%s: gave %s', what, type(r).__name__)
                    for x, y in zip(r, e): field(x, y, what, True)
                    check(not numpy.shares_memory(r[0].value, r[1].value), '%s: the results share memory', what)
                elif op == 'reduce':
                    ax = s['axis'] % a.ndim
                    e = numpy.add.reduce(wa, axis=ax)
                    r = numpy.add.reduce(a, axis=ax)
                    check(numpy.shape(r) == e.shape, '%s: shape %s', what, numpy.shape(r)); near(r, e, what)
                    if a.size:
                        r = numpy.add.reduce(a, axis=None)
                        near(r, numpy.add.reduce(wa, axis=None), what + ' of all')
                        r = numpy.multiply.accumulate(a, axis=ax)
                        field(r, numpy.multiply.accumulate(wa, axis=ax), what + ' accumulate', True)
                elif op == 'at':
                    idx = nprng('at', s['seed']).randint(0, max(1, a.shape[0]), size=5)
                    if a.size:
                        r = numpy.add.at(a, idx, 1.5)
                        check(r is None, '%s: returned %r', what, r)
                        numpy.add.at(wa, idx, 1.5)
                        near(a.value, wa, what); want[s['a']] = numpy.array(a.value)
                elif op == 'imaginary':
                    # complex results have no place in a field of a real mesh
                    z = [1j, 0.5 - 2j, numpy.array(wa) * (1 + 1j)][s['axis'] % 3]
                    r = z * a if s['swapped'] else a * z
                    e = wa * z
                    if cplx: field(r, e, what, True)
                    else:
                        check(type(r) is numpy.ndarray and r.dtype.kind == 'c', '%s: gave %s of %s', what, type(r).__name__, getattr(r, 'dtype', None))
                        near(r, e, what)
                elif op == 'copy':
                    r = a.copy()
                    field(r, wa, what, True)
                    same(r.value, wa, what)
                    if s['keep']: F[s['to']], want[s['to']] = r, wa.copy()
                elif op == 'set':
                    same(numpy.asarray(a[...]), wa, what + ': reading')
                    if s['other'] in ('field', 'self'): a[...] = o
                    elif s['other'] == 'row': a[..., :] = o
                    else: a[...] = o
                    w = wa.copy(); w[...] = wo
                    same(a.value, w, what); want[s['a']] = w
                elif op == 'create':
                    how = s['axis']
                    if how == 0: r = pm.create(case['kind'], value=o)
                    elif how == 1: r = pm.create(type=T, value=o)
                    elif how == 2: r = pm.create(mode=case['kind'], value=o)
                    else: r = pm.create(case['kind'], base=pm.create(T)._base, value=o)
                    w = wa.copy(); w[...] = wo
                    field(r, w, what, True); same(r.value, w, what)
                    if s['keep']: F[s['to']], want[s['to']] = r, w
                elif op == 'attributes':
                    r = pm.create(case['kind'])
                    describe(r, what)
                elif op == 'where':
                    m = numpy.isfinite(a) & (abs(a[...]) > 1)
                    r = a.copy(); r[m] = 0.25
                    w = wa.copy(); w[abs(w) > 1] = 0.25
                    same(r.value, w, what)
                elif op == 'alias':
                    how = s['axis'] % 3
                    if how == 0:
                        flat = a.sort(); flat2 = a.ravel()
                        same(numpy.array(flat), numpy.array(flat2), what + ': sort and ravel')
                        r = pm.create(case['kind']); r.unsort(flat)
                        same(r.value, wa, what + ': unsort')
                    elif how == 1:
                        r = pm.resize([x + 1 for x in case['N']])
                        check([int(x) for x in r.Nmesh] == [x + 1 for x in case['N']] and r.dtype == pm.dtype, '%s: resized to %s', what, r.Nmesh)
                        close(numpy.array(r.BoxSize, 'f8'), boxsize(case), 0, what + ': box of resized mesh')
                    elif real:
                        x = nprng('alias', s['seed'], ctx.rank).uniform(0, 1, size=(5, len(case['N']))) * boxsize(case)
                        r1, r2 = pm.create('real', value=0), pm.create('real', value=0)
                        layout = pm.decompose(x)
                        kw = dict(mass=1.5, hold=s['keep'], gradient=s['b'] if s['swapped'] and s['b'] < len(case['N']) else None, resampler=['cic', 'tsc', None][s['to']], layout=layout)
                        if s['via'] == 'operator': kw['transform'] = pm.affine.shift(0.5)
                        if s['other'] == 'field': kw.pop('mass')
                        if s['other'] == 'array': kw = dict(layout=layout)
                        r1.value[...] = 0.5; r2.value[...] = 0.5
                        r1.paint(x, **kw); pm.paint(x, out=r2, **kw)
                        near(r1.value, r2.value, what + ': paint')
            # fields not written are as they were; F and want moved on together
            for i in range(3): same(F[i].value, want[i], what + ': field %d afterwards' % i)
            if s['other'] in ('array', 'row'): same(o, wo, what + ': the array given')
        if any(s['only'] is not None for s in case['steps']): return None
        return [grab(f) for f in F]
    res = run_world(case['n'], fn, choices, params_of(case))
    if res[0] is not None:
        for i in range(3): assemble([r[i] for r in res], 'field %d' % i)
