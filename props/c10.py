"""Reading out on many ranks equals reading out on one."""
from .meshcase import *
SHRINK = {'pts': 0, 'ops': 1}
def gen(rng, tier, index):
    case = gen_mesh(rng)
    exact = rng.random() < 0.6
    case['exact'] = exact
    if exact: make_exact(rng, case)
    case['pts'] = gen_particles(rng, case, exact=exact)
    case['posdtype'] = rng.choice(['f8', 'f8', 'f4'])
    case['ops'] = [dict(gen_particle_op(rng, case, exact, resize=True), out=rng.choice(['none', 'none', 'given', 'column'])) for i in range(rng.choice([1, 1, 2, 3]))]
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('window', None), ('gradient', None), ('hsml', 'none'), ('layout', 'number'), ('shift', 0), ('out', 'none'), ('obj', False), ('resize', None), ('form', 'plain'), ('unit', 1)):
            if o.get(k) != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
    if case['posdtype'] != 'f8': yield dict(case, posdtype='f8')

def run(case, choices):
    glob = global_field(case, 78)
    def work(ctx, single):
        pm = mesh(ctx, case, ref=single)
        pos = all_pos(case, case['posdtype']) if single else local_pos(case, ctx.rank, case['posdtype'])
        field = set_local(pm.create('real'), glob)
        outs, mine = [], Results(case['spoil'])
        place = pos
        for op in case['ops']:
            pos = in_units(op, place)
            h = hsml_of(op, case)
            if isinstance(h, numpy.ndarray) and not single: h = local_of(h, case, ctx.rank)
            x = pos
            if not single: h, x = as_form(h, op['form']), as_form(pos, op['form'])
            kw = {}
            if h is not None: kw['hsml'] = h
            if op['window'] is not None: kw['resampler'] = sim_window(ctx, op, single)
            if op['gradient'] is not None: kw['gradient'] = op['gradient']
            if affine_of(op, pm) is not None: kw['transform'] = affine_of(op, pm)
            layout = None if single or case['n'] == 1 and op['seed'] % 2 else make_layout(ctx, pm, op, case, x)
            out = None
            if not single and op['out'] == 'given': out = numpy.full(len(pos), 7.0)
            if not single and op['out'] == 'column': out = numpy.full((len(pos), 3), 7.0)[:, 1]
            p0 = pos.copy()
            r = field.readout(x, layout=layout, out=out, **kw)
            same(x, p0, 'positions after readout')
            same(field.value, glob[field.slices], 'field after readout')
            if out is not None:
                check(r is out or numpy.shares_memory(r, out) or len(out) == 0, 'readout returned another array than out=')
            check(r.shape == (len(pos),), 'readout returned shape %s for %d positions', r.shape, len(pos))
            outs.append(numpy.array(r if out is None else out, 'f8'))
            mine.add(r, 'values of readout %d' % len(outs))
        mine.check()
        return outs, [float(s) for s in pm.affine.scale]
    ref = run_world(1, lambda ctx: work(ctx, True), ref=True)[0]
    res = run_world(case['n'], lambda ctx: work(ctx, False), choices, params_of(case))
    eps = 1e-5 if case['dtype'] in ('f4', 'c8') else 1e-11
    for k, op in enumerate(case['ops']):
        what = 'readout %d (%s%s)' % (k, op['window'] or case['window'], ', gradient' if op['gradient'] is not None else '')
        s = 3 * max(1.0, ref[1][op['gradient']] / op.get('unit', 1)) if op['gradient'] is not None else 3.0
        for r in range(case['n']):
            close(res[r][0][k], local_of(ref[0][k], case, r), eps * s * (1 + numpy.abs(glob).max()), what + ' on rank %d' % r)
