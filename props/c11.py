"""Derivatives of paint, readout, transforms and inner products are adjoint, on any number of ranks."""
from .meshcase import *
from .c12 import forward, backward
SHRINK = {'pts': 0, 'ops': 1}
WIN = ['cic', 'tsc', 'pcs', 'linear', 'quadratic', 'cubic']
def gen(rng, tier, index):
    case = gen_mesh(rng, dtypes=('f8', 'f8', 'f8', 'f4'), most=250)
    case['pts'] = []
    N, box, n = case['N'], boxsize(case), case['n']
    for r, k in enumerate(split_counts(rng, rng.choice([0, 1, 2, 4, 8, 12]), n)):
        for i in range(k):
            # away from the kinks of the windows
            case['pts'].append([r] + [float((rng.randrange(N[d]) + rng.choice([0, 0.5]) + rng.uniform(0.05, 0.45)) * box[d] / N[d]) for d in range(len(N))])
    case['ops'] = []
    for i in range(rng.choice([1, 1, 2, 3])):
        o = rng.choice(['paint', 'paint', 'readout', 'readout', 'transform', 'cdot'])
        p = dict(gen_particle_op(rng, case, False), unit=1, op=o, mass=rng.choice(['one', 'scalar', 'array']), vpos=rng.random() < 0.8, vval=rng.random() < 0.8, outp=rng.choice(['none', 'none', 'false', 'given', 'inplace']), outv=rng.choice(['none', 'none', 'false', 'given', 'inplace']),
                 metric=rng.random() < 0.5, kind=rng.choice(['transposedcomplex', 'untransposedcomplex']), fd=rng.random() < 0.7)
        p['hsml'] = 'none'; p['shift'] = rng.choice([0, 0, 0, 0.5, 1.0]); p['outf'] = rng.random() < 0.3; p['refuse'] = rng.random() < 0.15
        p['window'] = rng.choice(WIN + [None])
        if p['gradient'] is not None: p['outp'] = 'false'; p['vpos'] = False
        if p['gradient'] is None and p['outp'] == 'false' and p['outv'] == 'false': p['outv'] = 'none'
        case['ops'].append(p)
    case['window'] = rng.choice(WIN)
    case['swarm'] = swarm(rng, n)
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('window', None), ('gradient', None), ('layout', 'number'), ('mass', 'one'), ('outp', 'none'), ('outv', 'none'), ('obj', False), ('shift', 0), ('outf', False), ('refuse', False), ('fd', False), ('vpos', False), ('vval', False), ('metric', False)):
            if o[k] != v: yield dict(case, ops=case['ops'][:i] + [dict(o, **{k: v})] + case['ops'][i + 1:])
METRIC = lambda k: 1.0 / (1 + k)

def run(case, choices):
    n, nd, P = case['n'], len(case['N']), len(case['pts'])
    eps = 3e-4 if case['dtype'] == 'f4' else 1e-11
    h = float(numpy.min(boxsize(case) / case['N']))
    def arr(op, what, *shape): return nprng(what, op['seed']).uniform(-1, 1, size=shape)
    def work(ctx, single):
        pm = mesh(ctx, case, ref=single)
        mine = (lambda a: a) if single else (lambda a: local_of(a, case, ctx.rank).copy())
        outs, mine_ = [], Results(case['spoil'])
        def dotmesh(a, b): return float(ctx.comm.allreduce(numpy.sum(numpy.asarray(a.value).astype('f8') * numpy.asarray(b.value))))
        def dotpart(a, b): return float(ctx.comm.allreduce(numpy.sum(a * b)))
        def field(seed):
            return set_local(pm.create('real'), global_field(case, seed))
        for k, op in enumerate(case['ops']):
            what = 'step %d: %s' % (k, op['op'])
            o = op['op']
            if o in ('transform', 'cdot'):
                v = field((op['seed'], 1)); dr = field((op['seed'], 2))
                V, D = v.cast(op['kind']), dr.cast(op['kind'])
                if o == 'transform':
                    G = v.c2r_vjp(out=pm.create(op['kind'])) if op['outv'] == 'given' else v.c2r_vjp().cast(op['kind'])
                    lhs = dotmesh(v, D.c2r())
                    a = G.cdot(D).real
                    D2 = G.decompress_vjp(out=Ellipsis) if op['outv'] == 'inplace' else G.decompress_vjp(out=pm.create(op['kind'])) if op['outv'] == 'given' else G.decompress_vjp()
                    # over independent modes
                    i = D2.i
                    both = numpy.zeros(D2.shape, '?'); selfc = numpy.ones(D2.shape, '?')
                    both |= (((case['N'][-1] - i[-1]) % case['N'][-1]) < D2.cshape[-1])
                    for d in range(nd): selfc &= ((case['N'][d] - i[d]) % case['N'][d] == i[d])
                    u = numpy.where(both & ~selfc, 0.5, 1.0)
                    b = float(ctx.comm.allreduce(numpy.sum(u * (numpy.conj(numpy.asarray(D2.value)) * numpy.asarray(D.value)).real)))
                    R = V.r2c_vjp(out=pm.create('real')) if op['outv'] == 'given' else V.r2c_vjp()
                    c, e = dotmesh(R, dr), V.cdot(dr.cast(op['kind'])).real
                    s = float(numpy.prod(case['N'])) * 10
                    close(a, lhs, eps * s, what + ': backward transform'); close(b, lhs, eps * s, what + ': backward transform, independent modes'); close(c, e, eps * 10, what + ': forward transform')
                    outs.append((a, b, c))
                else:
                    kw = dict(metric=METRIC) if op['metric'] else {}
                    g = V.cdot_vjp(1.7, **kw)
                    a, b = g.cdot(D).real, 1.7 * V.cdot(D, **kw).real
                    close(a, b, eps * 10, what)
                    outs.append((a,))
                continue
            pos = all_pos(case) if single else local_pos(case, ctx.rank)
            kw = {}
            if not single: kw['layout'] = make_layout(ctx, pm, op, case, pos)
            if op['window'] is not None: kw['resampler'] = sim_window(ctx, op)
            if op['shift']: kw['transform'] = pm.affine.shift(op['shift'])
            gkw = dict(kw, gradient=op['gradient']) if op['gradient'] is not None else kw
            vp = mine(arr(op, 'vpos', P, nd) * h) if op['vpos'] else None
            A = field((op['seed'], 3))           # the cotangent on the mesh or the field read
            A0 = numpy.array(A.value, copy=True); p0 = pos.copy()
            if o == 'paint':
                mass = {'one': 1.0, 'scalar': 2.5}.get(op['mass'])
                mkw = {} if op['mass'] == 'one' else dict(mass=2.5)
                if mass is None: mass = mine(arr(op, 'mass', P)); mkw = dict(mass=mass)
                vm = mine(arr(op, 'vmass', P)) if op['vval'] else None
                if op['gradient'] is None:
                    jo = set_local(pm.create('real'), global_field(case, 5)) if op['outf'] else None
                    J = pm.paint_jvp(pos, v_pos=vp, v_mass=vm, **dict(mkw, **(dict(kw, out=jo) if op['outf'] else kw)))
                    if jo is not None: check(J is jo, what + ': other object than out')
                else:
                    J = pm.paint(pos, mass=vm, **gkw) if vm is not None else pm.paint(pos, mass=numpy.zeros(len(pos)), **gkw)
                same(pos, p0, what + ': positions after the forward derivative')
                x = pos.copy(); m2 = numpy.array(mass, copy=True) if op['mass'] == 'array' else mass
                op_ = {'none': None, 'false': False, 'given': numpy.full((len(pos), nd), 7.0), 'inplace': Ellipsis}[op['outp']]
                om_ = {'none': None, 'false': False, 'given': numpy.full(len(pos), 7.0), 'inplace': Ellipsis if op['mass'] == 'array' else None}[op['outv']]
                m2kw = {} if op['mass'] == 'one' else dict(mass=m2)
                gp, gm = pm.paint_vjp(A, x, out_pos=op_, out_mass=om_, **dict(m2kw, **gkw))
                if op['outp'] == 'given': check(gp is op_, what + ': other object than out_pos')
                if op['outp'] == 'inplace': check(gp is x, what + ': other object than pos')
                else: same(x, p0, what + ': positions after the backward derivative')
                if op['outv'] == 'given': check(gm is om_, what + ': other object than out_mass')
                same(numpy.array(A.value), A0, what + ': the cotangent')
                lhs = dotmesh(A, J)
                rhs = 0.0; full = True
                if vp is not None:
                    if gp is False: full = False
                    else: rhs += dotpart(gp, vp)
                if op['refuse']:
                    # second derivatives are refused, on every rank
                    for d in range(nd):
                        try: pm.paint_vjp(A, pos, gradient=d, **kw)
                        except ValueError: pass
                        else: fail(what + ': derivative of a gradient')
                if vm is not None:
                    if gm is False: full = False
                    else: rhs += dotpart(gm, vm)
                s = (P + 1) * 60.0 / (1 if op['gradient'] is None else h)
                if full: close(rhs, lhs, eps * s, what + ': adjoint')
                if op['fd'] and case['dtype'] == 'f8' and op['gradient'] is None:
                    t = 1e-5
                    f = []
                    for sg in (1, -1):
                        y = pos + sg * t * vp if vp is not None else pos
                        mm = mass + sg * t * vm if vm is not None else mass
                        k2 = dict(kw)
                        if not single: k2['layout'] = make_layout(ctx, pm, op, case, y)
                        f.append(pm.paint(y, mass=mm, **k2))
                    close(numpy.asarray(J.value), (numpy.asarray(f[0].value) - numpy.asarray(f[1].value)) / (2 * t), 2e-6 * (P + 1), what + ': finite difference')
                outs.append((grab(J), numpy.array(gp) if gp is not False else None, numpy.array(gm) if gm is not False else None))
                for a in (J, gp, gm): mine_.add(a, what)
            else:
                vf = field((op['seed'], 4)) if op['vval'] else None
                v = mine(arr(op, 'v', P))
                J = A.readout_jvp(pos, v_self=vf, v_pos=vp, **gkw)
                if op['gradient'] is not None and vf is not None:
                    close(J, vf.readout(pos, **gkw), eps * 100 / h, what + ': derivative of the gradient against the field')
                x = pos.copy(); v0 = v.copy()
                A2 = A.copy()
                op_ = {'none': None, 'false': False, 'given': numpy.full((len(pos), nd), 7.0), 'inplace': Ellipsis}[op['outp']]
                os_ = {'none': None, 'false': False, 'given': pm.create('real'), 'inplace': Ellipsis}[op['outv']]
                gs, gp = A2.readout_vjp(x, v, out_self=os_, out_pos=op_, **gkw)
                same(v, v0, what + ': the cotangent')
                if op['outv'] == 'given': check(gs is os_, what + ': other object than out_self')
                if op['outv'] == 'inplace': check(gs is A2, what + ': other object than the field')
                else: same(numpy.array(A2.value), A0, what + ': the field')
                if op['outp'] == 'inplace': check(gp is x, what + ': other object than pos')
                else: same(x, p0, what + ': positions after the backward derivative')
                lhs = dotpart(v, J)
                rhs = 0.0; full = True
                if vp is not None:
                    if gp is False: full = False
                    else: rhs += dotpart(gp, vp)
                if op['refuse']:
                    for d in range(nd):
                        for g in (lambda: A.readout_vjp(pos, v, gradient=d, **kw), lambda: A.readout_jvp(pos, v_pos=numpy.ones((len(pos), nd)), gradient=d, **kw)):
                            try: g()
                            except ValueError: pass
                            else: fail(what + ': derivative of a gradient')
                if vf is not None:
                    if gs is False: full = False
                    else: rhs += dotmesh(gs, vf)
                s = (P + 1) * 60.0 / (1 if op['gradient'] is None else h)
                if full: close(rhs, lhs, eps * s, what + ': adjoint')
                if op['fd'] and case['dtype'] == 'f8' and op['gradient'] is None:
                    t = 1e-5
                    f = []
                    for sg in (1, -1):
                        y = pos + sg * t * vp if vp is not None else pos
                        F = A.copy()
                        if vf is not None: F.value[...] += sg * t * numpy.asarray(vf.value)
                        k2 = dict(kw)
                        if not single: k2['layout'] = make_layout(ctx, pm, op, case, y)
                        f.append(F.readout(y, **k2))
                    close(J, (f[0] - f[1]) / (2 * t), 2e-6 * 10, what + ': finite difference')
                outs.append((numpy.array(J), grab(gs) if gs is not False else None, numpy.array(gp) if gp is not False else None))
                for a in (J, gs, gp): mine_.add(a, what)
        mine_.check()
        return outs
    ref = run_world(1, lambda ctx: work(ctx, True), ref=True)[0]
    res = run_world(n, lambda ctx: work(ctx, False), choices, params_of(case))
    for k, op in enumerate(case['ops']):
        what = 'step %d: %s' % (k, op['op'])
        for i in range(len(ref[k])):
            e = ref[k][i]
            if e is None: continue
            v = [r[k][i] for r in res]
            if isinstance(e, tuple):
                a = assemble(v, what); b = assemble([e], what)
                close(a, b, eps * (P + 1) * 20 / (1 if op['gradient'] is None else h), what + ': on the mesh, compared with one rank')
            elif isinstance(e, numpy.ndarray):
                for r in range(n): close(v[r], local_of(e, case, r), eps * 200 / h, '%s: rank %d compared with one rank' % (what, r))
            else:
                agree(v, what)
                close(v[0], e, eps * (10 * numpy.prod(case['N'])), what + ': compared with one rank')
