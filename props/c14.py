"""Ravel, unravel, transpose."""
from .meshcase import *
from .c12 import TYPES, CLS
SHRINK = {'ops': 1}
def gen(rng, tier, index):
    case = gen_mesh(rng)
    nd = len(case['N'])
    case['kind'] = rng.choice(TYPES)
    ops = []
    for i in range(rng.choice([1, 2, 3, 4])):
        o = rng.choice(['ravel', 'ravel', 'unravel', 'unravel', 'transpose', 'sort', 'wrong', 'wrongout'])
        if o == 'transpose' and (case['kind'] != 'real' or not is_real(case)): o = 'ravel'
        ops.append(dict(op=o, out=rng.choice(['none', 'array', 'flat', 'strided', 'fortran', 'inplace', 'value']), w=[rng.random() for i in range(case['n'])], mode=rng.choice(['same', 'random', 'one', 'some']), src=rng.choice(['array', 'flat', 'strided', 'result']),
                        axes=rng.sample(range(nd), nd), seed=rng.randrange(1 << 20), aform=rng.choice(['list', 'array', 'tuple'])))
    case['ops'] = ops
    case['swarm'] = swarm(rng, case['n'])
    case['spoil'] = rng.random() < 0.3
    return case
def simplify(case):
    for c in simplify_mesh(case): yield c
def shares(op, n, total, sizes):
    """how many flat values each rank supplies"""
    if op['mode'] == 'same': return list(sizes)
    w = (op['w'] * n)[:n]
    if op['mode'] == 'one': return [total if i == w.index(max(w)) else 0 for i in range(n)]
    if op['mode'] == 'some': w = [x if x > 0.5 else 0 for x in w]
    s = sum(w) or 1
    out = [int(total * x / s) for x in w]
    out[-1] += total - sum(out)
    return out

def run(case, choices):
    kind, n = case['kind'], case['n']
    def fn(ctx):
        pm = mesh(ctx, case)
        g = global_field(case, 5, 'real' if kind == 'real' else 'complex')
        f = set_local(pm.create(kind), g)
        keep = []
        outs, mine = [], Results(case['spoil'])
        for k, op in enumerate(case['ops']):
            what = 'step %d: %s' % (k, op['op'])
            if op['op'] in ('ravel', 'sort'):
                o = op['out']
                sizes = ctx.comm.allgather(int(f.size))
                lo = offsets(sizes)[ctx.rank]
                if o == 'none': a, arg = None, None
                elif o == 'array': a = numpy.full(f.size, 7, g.dtype); arg = a
                elif o == 'flat': a = numpy.full(f.size, 7, g.dtype); arg = a.flat
                elif o == 'strided': a = numpy.full(2 * f.size, 7, g.dtype)[::2]; arg = a
                elif o == 'fortran': a = numpy.full(f.shape[::-1], 7, g.dtype).T; arg = a.flat
                else: a = f.value; arg = Ellipsis if o == 'inplace' else f.value
                before = numpy.array(f.value, copy=True)
                r = f.ravel(out=arg) if op['op'] == 'ravel' else f.sort(out=arg)
                got = numpy.array(r) if r is not None else None
                if a is not None:
                    flat = numpy.array(a.flat)
                    if r is not None: same(numpy.array(got).ravel(), flat, what + ': returned and given array')
                else: flat = numpy.array(got).ravel()
                same(flat, g.ravel()[lo:lo + f.size], '%s (%s)' % (what, o))
                if o == 'none': mine.add(r, what)
                if o in ('inplace', 'value'):
                    # the memory now holds the flat order; restore through unravel
                    f.unravel(numpy.array(f.value.flat))
                    same(numpy.array(f.value), g[f.slices], what + ' in place and back')
                else: same(numpy.array(f.value), before, what + ': the field itself')
                keep.append((a, flat, what)) if a is not None and o not in ('inplace', 'value') else None
            elif op['op'] == 'unravel':
                sizes = ctx.comm.allgather(int(f.size))
                total = int(f.csize)
                check(total == sum(sizes), 'csize %d, ranks hold %d', total, sum(sizes))
                sh = shares(op, n, total, sizes)
                lo = offsets(sh)[ctx.rank]
                h = global_field(case, op['seed'], 'real' if kind == 'real' else 'complex')
                v = h.ravel()[lo:lo + sh[ctx.rank]].copy()
                src = v
                if op['src'] == 'flat': src = v.flat
                elif op['src'] == 'strided':
                    src = numpy.zeros(2 * len(v), v.dtype)[::2]; src[...] = v
                v0 = v.copy()
                if op['src'] == 'result': f = pm.unravel(kind, v.flat)
                else: f.unravel(src)
                g = h
                same(numpy.array(f.value), g[f.slices], '%s (%s, %s)' % (what, op['mode'], op['src']))
                same(v, v0, what + ': the values given')
            elif op['op'] == 'wrong':
                # flat values of another total number: refused on every rank, nothing changed
                before = numpy.array(f.value, copy=True)
                k = max(0, int(f.size) + (([1, 2, -1, 5][op['seed'] % 4]) if ctx.rank == op['seed'] % n else 0))
                k += int(f.csize == sum(ctx.comm.allgather(k))) * (ctx.rank == 0)
                try:
                    if op['src'] == 'result': pm.unravel(kind, numpy.zeros(k, g.dtype).flat)
                    else: f.unravel(numpy.zeros(k, g.dtype))
                except Exception as e: 
                    if isinstance(e, Violation): raise
                else: fail('%s: flat values of another total number were taken' % what)
                same(numpy.array(f.value), before, what + ' number of values: the field')
            elif op['op'] == 'wrongout':
                # room for another number of values on some ranks: refused on every rank
                before = numpy.array(f.value, copy=True)
                k = int(f.size)
                if op['w'][ctx.rank % len(op['w'])] > 0.5 or ctx.rank == op['seed'] % n: k = max(0, k + [1, 2, -1, 5][op['seed'] % 4]); k += k == f.size
                a = numpy.zeros(k, g.dtype)
                try: f.ravel(out=a.flat if op['src'] == 'flat' else a)
                except Exception as e:
                    if isinstance(e, Violation): raise
                else: fail('%s: an array of another size was taken' % what)
                same(numpy.array(f.value), before, what + ': the field')
            else:
                axes = {'array': numpy.array, 'tuple': tuple, 'list': list}[op['aform']](op['axes'])
                before = numpy.array(f.value, copy=True)
                r = f.ctranspose(axes)
                e = g.transpose(op['axes'])
                check(tuple(r.cshape) == e.shape, '%s: global shape %s, expected %s', what, r.cshape, e.shape)
                close(numpy.asarray(r.value), e[r.slices], 1e-13 if case['dtype'] == 'f8' else 1e-6, '%s %s' % (what, op['axes']))
                close(numpy.asarray(r.BoxSize), boxsize(case)[op['axes']], 0, what + ': BoxSize')
                same(numpy.array(f.value), before, what + ': the field itself')
                mine.add(r, what)
        mine.check()
        for a, flat, what in keep: same(numpy.array(a.flat), flat, what + ': result later')
        return grab(f), g
    res = run_world(n, fn, choices, params_of(case))
    assemble([r[0] for r in res], 'field')
