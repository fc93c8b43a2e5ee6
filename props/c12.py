"""Transforms are the Fourier transform, undo each other, and leave other buffers alone."""
from .meshcase import *
SHRINK = {'ops': 1}
TYPES = ['real', 'transposedcomplex', 'untransposedcomplex']
def gen(rng, tier, index):
    case = gen_mesh(rng)
    ops = []
    for i in range(rng.choice([1, 2, 3, 4, 6, 8])):
        ops.append(dict(op=rng.choice(['fft', 'fft', 'fft', 'cast', 'copy', 'new']), slot=rng.randrange(4), to=rng.choice(TYPES), out=rng.choice(['none', 'new', 'slot', 'inplace', 'base']), other=rng.randrange(4), seed=rng.randrange(1 << 20), alias=rng.random() < 0.3))
    case['start'] = [[rng.choice(TYPES), rng.randrange(1 << 20)] for i in range(rng.choice([1, 2, 2, 3]))]
    case['ops'] = ops
    case['swarm'] = swarm(rng, case['n'])
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
    if len(case['start']) > 1: yield dict(case, start=case['start'][:1])

def forward(case, g):
    return (numpy.fft.rfftn(g.astype('f8')) if is_real(case) else numpy.fft.fftn(g.astype('c16'))) / numpy.prod(case['N'])
def backward(case, c):
    c = c.astype('c16')
    s = [int(k) for k in case['N']]
    if not is_real(case): return numpy.fft.ifftn(c) * numpy.prod(s)
    return numpy.fft.irfftn(c, s, axes=list(range(len(s)))) * numpy.prod(s)

class Slot(object):
    def __init__(self, kind, field, g):
        self.kind, self.field, self.g = kind, field, g      # g: expected global content
    def check(self, case, what):
        e = self.g[self.field.slices]
        tol = (3e-6 if case['dtype'] in ('f4', 'c8') else 1e-13) * (self.scale(case))
        close(numpy.asarray(self.field.value), e, tol, what)
    def scale(self, case):
        a = numpy.abs(self.g)
        return 20 * (float(a.max()) if a.size else 0) + 1e-30 + (20 * float((a.astype('f8') ** 2).sum()) ** 0.5 if self.kind != 'real' else 0) + 1.0
CLS = {'real': 'RealField', 'transposedcomplex': 'TransposedComplexField', 'untransposedcomplex': 'UntransposedComplexField'}

def fresh(ctx, pm, case, kind, seed):
    g = global_field(case, seed, 'real' if kind == 'real' else 'complex')
    f = pm.create(kind)
    check(type(f).__name__ == CLS[kind], 'create(%s) gave %s', kind, type(f).__name__)
    return Slot(kind, set_local(f, g), g)

def run(case, choices):
    def fn(ctx):
        pm = mesh(ctx, case)
        slots = [fresh(ctx, pm, case, k, s) for k, s in case['start']]
        for k, op in enumerate(case['ops']):
            i = op['slot'] % len(slots)
            s = slots[i]
            what = 'step %d: %s of a %s field' % (k, op['op'], s.kind)
            saved = [numpy.array(x.field.value, copy=True) for x in slots]
            touched = set()
            if op['op'] == 'new':
                slots.append(fresh(ctx, pm, case, op['to'], op['seed']))
            elif op['op'] == 'copy':
                f = s.field.copy()
                same(numpy.array(f.value), saved[i], what)
                slots.append(Slot(s.kind, f, s.g))
            elif op['op'] == 'cast':
                if s.kind == op['to']: g = s.g
                elif s.kind == 'real': g = forward(case, s.g)
                elif op['to'] == 'real': g = backward(case, s.g)
                else: g = s.g
                to = op['to'] if not op['alias'] else getattr(ctx.mod('pm'), CLS[op['to']])
                if op['out'] == 'slot' and len(slots) > 1:
                    j = op['other'] % len(slots)
                    f = s.field.cast(to, out=slots[j].field)
                    touched = {j}
                    slots[j] = Slot(op['to'], f, g)
                else:
                    f = s.field.cast(to)
                    slots.append(Slot(op['to'], f, g))
                check(type(f).__name__ == CLS[op['to']], '%s to %s gave %s', what, op['to'], type(f).__name__)
            else:
                real = s.kind == 'real'
                to = ('real' if not real else op['to'] if op['to'] != 'real' else 'transposedcomplex')
                g = forward(case, s.g) if real else backward(case, s.g)
                tr = s.field.r2c if real else s.field.c2r
                o = op['out']
                if o == 'slot':
                    js = [j for j, x in enumerate(slots) if x.kind == to and j != i]
                    if js:
                        j = js[op['other'] % len(js)]
                        r = tr(out=slots[j].field)
                        check(r is slots[j].field, '%s returned another object than out=', what)
                        slots[j] = Slot(to, r, g); touched = {j}
                    else: o = 'new'
                if o == 'none':
                    r = tr(); to = 'transposedcomplex' if real else 'real'
                    slots.append(Slot(to, r, g))
                elif o == 'new':
                    out = pm.create(to); r = tr(out=out)
                    check(r is out, '%s returned another object than out=', what)
                    slots.append(Slot(to, r, g))
                elif o == 'inplace':
                    r = tr(out=Ellipsis); to = 'transposedcomplex' if real else 'real'
                    slots[i] = Slot(to, r, g); touched = {i}
                elif o == 'base':
                    out = pm.create(to, base=s.field._base)
                    r = tr(out=out)
                    slots[i] = Slot(to, r, g); touched = {i}
                check(type(r).__name__ == CLS[to], '%s gave %s', what, type(r).__name__)
                check(r.pm is pm, '%s: other mesh', what)
            for j, x in enumerate(slots[:len(saved)]):
                if j not in touched: same(numpy.array(x.field.value), saved[j], '%s: field %d not involved' % (what, j) if j != i else '%s: its input' % what)
            for j in list(touched) + list(range(len(saved), len(slots))):
                slots[j].check(case, '%s to %s (%s)' % (what, slots[j].kind, op['out']))
            if len(slots) > 4: slots.pop(0)
        return [(x.kind, grab(x.field), x.g) for x in slots]
    res = run_world(case['n'], fn, choices, params_of(case))
    for j in range(len(res[0])):
        a = assemble([r[j][1] for r in res], '%s field' % res[0][j][0])
        check(a.shape == res[0][j][2].shape, 'global shape %s, expected %s', a.shape, res[0][j][2].shape)
