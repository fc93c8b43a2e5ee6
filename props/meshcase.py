"""Random meshes, fields and particles, assembling of distributed fields."""
import numpy
from sim.harness import *

EXACT_SUM = ['nnb', 'cic', 'tsc', 'pcs', 'nearest', 'linear', 'quadratic', 'cubic']
SMOOTH = ['cic', 'tsc', 'pcs', 'linear', 'quadratic', 'cubic']            # continuous windows
WINDOWS = ['nnb', 'cic', 'tsc', 'pcs', 'nearest', 'linear', 'quadratic', 'cubic', 'lanczos2', 'lanczos3', 'lanczos4', 'lanczos5', 'lanczos6', 'acg2', 'acg3', 'acg4', 'acg5', 'acg6', 'db6', 'db12', 'db20', 'sym6', 'sym12', 'sym20']
SUPPORT = dict(nnb=1, nearest=1, cic=2, linear=2, tsc=3, quadratic=3, pcs=4, cubic=4)
NARROW = ['nnb', 'cic', 'tsc', 'pcs', 'cic', 'tsc']

def gen_mesh(rng, n=None, ndims=(1, 2, 2, 3, 3, 3), most=400, odd=True, dtypes=('f8', 'f8', 'f8', 'f4', 'c16', 'c8'), full=True, empty=True):
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    nd = rng.choice(list(ndims))
    if nd == 1: n = 1
    N = []
    cube = rng.random() < 0.25
    for d in range(nd):
        hi = {1: 24, 2: 16, 3: 9, 4: 5}[nd]
        k = rng.randrange(1, hi + 1) if rng.random() < 0.5 else rng.choice([2, 4, 4, 6, 8])
        if not odd: k = max(2, k + k % 2)
        N.append(k)
    if cube: N = [N[0]] * nd
    while numpy.prod(N) > most:
        i = N.index(max(N)); N[i] = max(1, N[i] // 2)
        if not odd and N[i] % 2: N[i] += 1
    np_ = None
    if rng.random() < 0.6 and nd > 1:
        k = nd - 1
        if full and rng.random() < 0.06: k = nd
        elif nd >= 3 and rng.random() < 0.15: k = rng.randrange(1, nd - 1)     # slabs
        np_ = factor(rng, n, k)
    if not empty:
        # every rank holds cells
        p = np_
        for i in range(20):
            if not holes(N, p, n): break
            d = rng.randrange(nd); N[d] += 2
            if i > 10: N = [max(x, 2 * n) for x in N]
    boxk = rng.choice(['unit', 'mesh', 'rand', 'aniso', 'big'])
    if boxk == 'unit': box = 1.0
    elif boxk == 'mesh': box = [float(x) * 2.0 ** rng.choice([0, 0, 1, -3]) for x in N]
    elif boxk == 'rand': box = rng.uniform(0.5, 20)
    elif boxk == 'big': box = 10 ** rng.uniform(2, 4)
    else: box = [rng.uniform(0.5, 20) for x in N]
    other = dict(what=rng.choice(['box', 'box', 'window', 'dtype', 'points']), first=rng.random() < 0.6) if rng.random() < 0.2 else None
    return dict(n=n, N=N, np=np_, box=box, dtype=rng.choice(list(dtypes)), window=rng.choice(NARROW), companion=other)

def factor(rng, n, k):
    f = []
    m = n
    for i in range(k - 1):
        d = rng.choice([x for x in range(1, m + 1) if m % x == 0]); f.append(d); m //= d
    f.append(m)
    rng.shuffle(f)
    return f

def split2(n):
    a = int(n ** 0.5 + 1)
    while n % a: a -= 1
    return [a, n // a]
def procs(case):
    """the process mesh in effect"""
    if case['np'] is not None: return list(case['np'])
    nd = len(case['N'])
    return split2(case['n']) if nd >= 3 else [case['n']] if nd == 2 else []
def holes(N, np_, n):
    """does some rank hold no cells in any of the layouts?"""
    p = np_ if np_ is not None else (split2(n) if len(N) >= 3 else [n] if len(N) == 2 else [])
    def blocks(k, q):
        b = -(-k // q); return any(min(i * b, k) == min((i + 1) * b, k) for i in range(q))
    if any(blocks(N[d], p[d]) for d in range(len(p))): return True
    No = N[:-1] + [N[-1] // 2 + 1]
    if len(p) < len(N): return any(blocks(No[d + 1], p[d]) or blocks(No[d], p[d]) for d in range(len(p)))
    return any(blocks(No[d], p[d]) for d in range(len(p)))

def boxsize(case):
    b = numpy.empty(len(case['N'])); b[:] = case['box']
    return b

def mesh(ctx, case, comm=None, ref=False, **kw):
    PM = ctx.mod('pm').ParticleMesh
    a = dict(Nmesh=case['N'], BoxSize=case['box'], comm=comm if comm is not None else ctx.comm, np=None if ref else case['np'], dtype=case['dtype'], resampler=case['window'])
    if ref and case['np'] is not None and len(case['np']) == len(case['N']): a['np'] = [1] * len(case['N'])
    a.update(kw)
    other = case.get('companion')
    if not other or ref or kw: return PM(**a)
    # another mesh, alike in all but one respect, lives and is used at the same time
    b = dict(a)
    if other['what'] == 'box': b['BoxSize'] = boxsize(case) * [1.5 + d for d in range(len(case['N']))]
    if other['what'] == 'window': b['resampler'] = 'tsc' if case['window'] == 'cic' else 'cic'
    if other['what'] == 'dtype': b['dtype'] = dict(f8='f4', f4='f8', c16='c8', c8='c16')[case['dtype']]
    if other['what'] == 'points': b['Nmesh'] = [k + 1 for k in case['N']]
    pair = [None, None]
    for i in ([1, 0] if other['first'] else [0, 1]):
        pair[i] = PM(**[a, b][i])
        if i == 1:
            for kind in ('real', 'complex'):
                f = pair[1].create(kind, value=0); f.x; f.i
            x = pair[1].generate_uniform_particle_grid(shift=0.0)
            pair[1].paint(x[:2], layout=pair[1].decompose(x[:2]))
    ctx.companion = pair[1]
    return pair[0]

def simplify_mesh(case, fix=None):
    """fewer ranks, smaller meshes, plainer parameters"""
    fix = fix or (lambda c: c)
    if case['n'] > 1:
        for m in sorted(set([1, 2, case['n'] // 2, case['n'] - 1])):
            if 0 < m < case['n']: yield fix(dict(case, n=m, np=None))
    if case.get('companion'): yield fix(dict(case, companion=None))
    if case['np'] is not None: yield fix(dict(case, np=None))
    for k, v in (('dtype', 'f8'), ('window', 'cic'), ('box', 1.0)):
        if case.get(k) != v: yield fix(dict(case, **{k: v}))
    N = case['N']
    for d in range(len(N)):
        for k in (1, 2, 4, N[d] // 2, N[d] - 1):
            if 1 <= k < N[d]: yield fix(dict(case, N=N[:d] + [k] + N[d + 1:]))

def is_real(case): return case['dtype'] in ('f4', 'f8')
def tol_of(case): return 2e-5 if case['dtype'] in ('f4', 'c8') else 1e-10

def global_field(case, seed, kind='real', dtype=None):
    """a global array of random values with the shape and dtype of a real or complex field of the mesh"""
    g = nprng('field', seed)
    N = case['N']
    dt = dtype or case['dtype']
    if kind == 'real':
        a = g.normal(size=N)
        if not is_real(case): a = a + 1j * g.normal(size=N)
        return a.astype(dt)
    a = g.normal(size=N)
    if not is_real(case): a = a + 1j * g.normal(size=N)
    c = numpy.fft.rfftn(a) if is_real(case) else numpy.fft.fftn(a)
    return (c / numpy.prod(N) ** 0.5).astype('c8' if case['dtype'] in ('f4', 'c8') else 'c16')

def set_local(field, glob):
    field.value[...] = glob[field.slices]
    return field
def grab(field):
    """what assemble needs from one rank"""
    return [int(s) for s in field.start], numpy.array(field.value, copy=True), [int(c) for c in field.cshape]
def assemble(parts, what):
    """the global array; every element held by exactly one rank"""
    shape = tuple(parts[0][2])
    out = numpy.zeros(shape, parts[0][1].dtype)
    seen = numpy.zeros(shape, 'i4')
    for r, (start, v, cs) in enumerate(parts):
        check(tuple(cs) == shape, '%s: global shape differs between ranks', what)
        check(v.dtype == out.dtype, '%s: dtype differs between ranks', what)
        if v.size == 0: continue
        sl = tuple(slice(a, a + b) for a, b in zip(start, v.shape))
        check(seen[sl].shape == v.shape, '%s: rank %d holds %s at %s, outside of %s', what, r, v.shape, start, shape)
        out[sl] = v; seen[sl] += 1
    check((seen == 1).all(), '%s: %d elements not held by exactly one rank', what, int((seen != 1).sum()))
    return out

# ------------------------------------------------------------------ particles
def gen_particles(rng, case, most=20, exact=None):
    """[rank, x...] in simulation units; exact: positions and scale without rounding errors, at special places"""
    N, box = case['N'], boxsize(case)
    n = case['n']
    total = rng.choice([0, 1, 2, 4, 8, 12, most, most])
    counts = split_counts(rng, total, n)
    pts = []
    for r in range(n):
        for i in range(counts[r]):
            p = []
            for d in range(len(N)):
                h = box[d] / N[d]
                k = rng.random()
                if exact:
                    x = rng.choice([rng.randrange(0, N[d] * 1024) / 1024., rng.randrange(0, 2 * N[d]) / 2., rng.randrange(0, N[d]) * 1.0, rng.randrange(-2 * N[d], 3 * N[d]) / 2., rng.randrange(0, N[d]) + rng.choice([1, -1]) / 1024.])
                    x = x * h
                elif k < 0.9: x = rng.random() * box[d]
                else: x = rng.uniform(-1, 2) * box[d]
                p.append(float(x))
            pts.append([r] + p)
    return pts
def make_exact(rng, case):
    """choose a box for which the conversion to mesh units is exact"""
    s = 2.0 ** rng.choice([0, 0, 1, -2])
    case['box'] = [float(k) * s for k in case['N']]
def local_pos(case, rank, dtype='f8'):
    nd = len(case['N'])
    rows = [p[1:] for p in case['pts'] if p[0] % case['n'] == rank]
    return numpy.array(rows, dtype=dtype).reshape(-1, nd)
def all_pos(case, dtype='f8'):
    """positions in rank order, as concatenated from the ranks"""
    return numpy.concatenate([local_pos(case, r, dtype) for r in range(case['n'])])
def split_of(case):
    return [sum(1 for p in case['pts'] if p[0] % case['n'] == r) for r in range(case['n'])]

def gen_window(rng, case, exact):
    """a window for an operation; None: the default of the mesh"""
    if rng.random() < 0.3: return None
    return rng.choice(NARROW) if rng.random() < 0.5 else rng.choice(WINDOWS)
def gen_particle_op(rng, case, exact, resize=False):
    op = dict(window=gen_window(rng, case, exact), gradient=rng.randrange(len(case['N'])) if rng.random() < 0.3 else None, hsml=rng.choice(['none', 'none', 'none', 'scalar', 'array']),
              layout=rng.choice(['default', 'name', 'object', 'number', 'wide']), shift=rng.choice([0, 0, 0, 0.5]), obj=rng.random() < 0.3, form=rng.choice(FORMS), unit=rng.choice([1, 1, 1, 1, 2.0, 0.25]), seed=rng.randrange(1 << 20))
    w = op['window'] or case['window']
    if op['hsml'] != 'none' and support(w) > 8: op['hsml'] = 'none'
    # another width of the window, made for this operation
    op['resize'] = None
    if resize and op['window'] is not None and support(w) <= 6 and rng.random() < 0.25:
        op['resize'] = support(w) + rng.choice([1, 1, 2, 3]); op['hsml'] = 'none'
    return op
FORMS = ['plain', 'plain', 'plain', 'list', 'strided', 'fortran', 'readonly']
def as_form(a, form):
    """the same values, otherwise stored"""
    if not isinstance(a, numpy.ndarray) or form == 'plain': return a
    if form == 'list': return a.tolist() if a.ndim == 1 else a
    if form == 'strided':
        b = numpy.full(tuple(2 * k for k in a.shape), 3, a.dtype); c = b[tuple(slice(None, None, 2) for k in a.shape)]
        c[...] = a
        return c
    if form == 'fortran': return numpy.asfortranarray(a) if a.ndim > 1 else a[::-1].copy()[::-1]
    b = a.copy(); b.setflags(write=False)
    return b
def support(w):
    if w in SUPPORT: return SUPPORT[w]
    return 20 if w.endswith('20') else 12 if w.endswith('12') else 2 * int(w[-1])
def hsml_of(op, case):
    """scaling of the window for all particles, in rank order"""
    if op['hsml'] == 'none': return None
    g = nprng('hsml', op['seed'])
    if op['hsml'] == 'scalar': return float(g.choice([0.5, 1.0, 1.5, 2.0]))
    return g.choice([0.5, 1.0, 1.0, 1.5, 2.0], size=len(case['pts']))
def sim_window(ctx, op, single=False):
    """the resampler argument"""
    if op['window'] is None: return None
    if op.get('resize'):
        w = ctx.mod('window').FindResampler(op['window'])
        return ctx.mod('window').ResampleWindow(w.kind, op['resize']) if single else w.resize(op['resize'])
    if op['obj']: return ctx.mod('window').FindResampler(op['window'])
    return op['window']
def affine_of(op, pm):
    """the transform of an operation whose positions are given in other units, or shifted; None: the usual one"""
    u = op.get('unit', 1)
    if not op['shift'] and u == 1: return None
    t = pm.affine if u == 1 else pm.affine.rescale(1.0 / u)
    return t.shift(op['shift']) if op['shift'] else t
def in_units(op, pos):
    return pos * pos.dtype.type(op['unit']) if op.get('unit', 1) != 1 else pos
def make_layout(ctx, pm, op, case, pos):
    """a layout for the operation, as a careful caller makes it"""
    W = ctx.mod('window').FindResampler
    w = sim_window(ctx, op, True) if op.get('resize') else W(op['window'] or case['window'])
    h = hsml_of(op, case)
    hmax = 1.0 if h is None else max(1.0, float(numpy.max(h)) if numpy.size(h) else 1.0)
    t = dict(transform=affine_of(op, pm)) if op.get('unit', 1) != 1 or op['shift'] and op['seed'] % 3 == 0 else {}
    if hmax > 1 or op['shift']: return pm.decompose(pos, **t, smoothing=0.5 * w.support * hmax + op['shift'])
    k = op['layout']
    if k == 'default' and w.support <= pm.resampler.support: return pm.decompose(pos, **t)
    if k == 'name' and not op.get('resize'): return pm.decompose(pos, **t, smoothing=op['window'] or case['window'])
    if k == 'object': return pm.decompose(pos, **t, smoothing=w)
    if k == 'wide': return pm.decompose(pos, **t, smoothing=0.5 * w.support + 1.7)
    return pm.decompose(pos, **t, smoothing=0.5 * w.support)
def local_of(a, case, rank):
    """the share of rank in an array over all particles"""
    o = offsets(split_of(case))
    return a[o[rank]:o[rank + 1]]
