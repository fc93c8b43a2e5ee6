"""Painting on many ranks equals painting on one."""
from .meshcase import *
SHRINK = {'pts': 0, 'ops': 1}
def gen(rng, tier, index):
    case = gen_mesh(rng)
    exact = rng.random() < 0.6
    case['exact'] = exact
    if exact: make_exact(rng, case)
    case['pts'] = gen_particles(rng, case, exact=exact)
    case['posdtype'] = rng.choice(['f8', 'f8', 'f4'])
    case['ops'] = [dict(gen_particle_op(rng, case, exact, resize=True), mass=rng.choice(['one', 'scalar', 'array', 'array', 'f4', 'int']), hold=rng.random() < 0.5, out=rng.choice(['none', 'given', 'given'])) for i in range(rng.choice([1, 1, 2, 3]))]
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('window', None), ('gradient', None), ('hsml', 'none'), ('layout', 'number'), ('shift', 0), ('mass', 'one'), ('hold', False), ('out', 'none'), ('obj', False), ('resize', None), ('form', 'plain'), ('unit', 1)):
            if o.get(k) != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
    if case['posdtype'] != 'f8': yield dict(case, posdtype='f8')
def mass_of(op, case):
    g = nprng('mass', op['seed'])
    k = len(case['pts'])
    if op['mass'] == 'one': return None
    if op['mass'] == 'scalar': return 2.5
    if op['mass'] == 'int': return g.randint(1, 5, size=k)
    return g.uniform(-1, 2, size=k).astype('f4' if op['mass'] == 'f4' else 'f8')

def paint(ctx, pm, case, op, pos, mass, hsml, out, layout, single=False):
    kw = {}
    if mass is not None: kw['mass'] = mass
    if hsml is not None: kw['hsml'] = hsml
    if op['window'] is not None: kw['resampler'] = sim_window(ctx, op, single)
    if op['gradient'] is not None: kw['gradient'] = op['gradient']
    if affine_of(op, pm) is not None: kw['transform'] = affine_of(op, pm)
    if op['hold']: kw['hold'] = True
    return pm.paint(pos, layout=layout, out=out, **kw)

def run(case, choices):
    before = global_field(case, 77)
    def work(ctx, single):
        pm = mesh(ctx, case, ref=single)
        pos = all_pos(case, case['posdtype']) if single else local_pos(case, ctx.rank, case['posdtype'])
        canvas = set_local(pm.create('real'), before)
        outs, mine = [], Results(case['spoil'])
        place = pos
        for op in case['ops']:
            pos = in_units(op, place)
            m, h = mass_of(op, case), hsml_of(op, case)
            if not single:
                if isinstance(m, numpy.ndarray): m = local_of(m, case, ctx.rank)
                if isinstance(h, numpy.ndarray): h = local_of(h, case, ctx.rank)
            out = None
            if op['out'] == 'given': out = canvas
            elif op['hold']: out = set_local(pm.create('real'), before)
            if not single: m, h, x = as_form(m, op['form']), as_form(h, op['form']), as_form(pos, op['form'])
            else: x = pos
            layout = None if single or case['n'] == 1 and op['seed'] % 2 else make_layout(ctx, pm, op, case, x)
            copies = [numpy.array(a, copy=True) for a in (pos, x, m, h) if isinstance(a, numpy.ndarray)]
            r = paint(ctx, pm, case, op, x, m, h, out, layout, single)
            for a, b in zip(copies, [a for a in (pos, x, m, h) if isinstance(a, numpy.ndarray)]): same(b, a, 'an input of paint')
            if out is not None: check(r is out, 'paint returned another field than out=')
            outs.append(grab(r))
            if op['out'] != 'given': mine.add(r, 'field of paint %d' % len(outs))
        mine.check()
        return outs, type(r).__name__, [float(s) for s in pm.affine.scale]
    ref = run_world(1, lambda ctx: work(ctx, True), ref=True)[0]
    res = run_world(case['n'], lambda ctx: work(ctx, False), choices, params_of(case))
    eps = 4e-6 if case['dtype'] in ('f4', 'c8') else 1e-11
    total = numpy.abs(before).max() + 1
    content = before
    for k, op in enumerate(case['ops']):
        what = 'paint %d (%s%s)' % (k, op['window'] or case['window'], ', gradient' if op['gradient'] is not None else '')
        a = assemble([r[0][k] for r in res], what)
        b = assemble([ref[0][k]], what + ' on one rank')
        m = mass_of(op, case)
        msum = len(case['pts']) * (1.0 if m is None else 2.5) if m is None or not isinstance(m, numpy.ndarray) else float(numpy.abs(m.astype('f8')).sum())
        total += msum * (3 * max(1.0, ref[2][op['gradient']] / op.get('unit', 1)) if op['gradient'] is not None else 3.0)
        close(a, b, eps * total, what)
        start = content if op['out'] == 'given' and op['hold'] else before if op['hold'] else numpy.zeros_like(before)
        w = op['window'] or case['window']
        if w in EXACT_SUM and not op.get('resize') and op['hsml'] == 'none' and op['gradient'] is None:
            mm = len(case['pts']) * (1.0 if m is None else 2.5) if not isinstance(m, numpy.ndarray) else float(m.astype('f8').sum())
            close((a.astype('c16') - start).sum().real, mm, eps * (total + numpy.abs(start).sum() + a.size), what + ': total mass')
        if op['out'] == 'given': content = a
