"""Random domain decompositions and particle sets, and the geometric reference for them."""
import numpy
from sim.harness import *

def edges1(rng, k, box, degenerate):
    """k domains over [0, box]"""
    mode = rng.choice(['uniform', 'uniform', 'random', 'skew', 'block'])
    if mode == 'uniform':
        e = [box * i / k for i in range(k + 1)]
    elif mode == 'random':
        e = [0.0] + sorted(rng.uniform(0.02, 0.98) * box for i in range(k - 1)) + [box]
    elif mode == 'skew':
        e = [box * (i / k) ** 3 for i in range(k + 1)]
    else:
        # blocks of a mesh as PFFT makes them: trailing blocks may be empty
        n = rng.randrange(1, 2 * k + 2); b = -(-n // k)
        e = [box * min(i * b, n) / n for i in range(k + 1)]
    if degenerate and k > 1:
        i = rng.randrange(1, k)
        e[i] = e[i + rng.choice([-1, 1])]
    return [float(x) for x in e]

def gen_grid(rng, n=None, periodic=None, maxdim=3, many=True):
    n = n or (rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7]) if rng.random() < 0.97 else rng.choice([8, 9, 12, 16]))
    ndim = rng.choice([d for d in (1, 2, 2, 3, 3) if d <= maxdim])
    if maxdim == 3 and rng.random() < 0.05: ndim = rng.choice([4, 4, 5])
    mode = rng.choice(['match', 'match', 'more', 'fewer'] if many else ['match', 'fewer'])
    target = n if mode == 'match' else (rng.randrange(n, 4 * n + 4) if mode == 'more' else rng.randrange(1, n + 1))
    shape = [1] * ndim
    t = target
    for d in rng.sample(range(ndim), ndim):
        f = [k for k in range(1, t + 1) if t % k == 0] if mode == 'match' else list(range(1, min(t, 6) + 1))
        shape[d] = rng.choice(f); t = max(1, t // shape[d])
    if mode == 'match' and t > 1: shape[rng.randrange(ndim)] *= t
    if mode == 'fewer':
        while numpy.prod(shape) > n: shape[int(numpy.argmax(shape))] -= 1
    boxk = rng.choice(['unit', 'int', 'rand', 'small', 'big', 'mix'])
    box = []
    for d in range(ndim):
        b = dict(unit=1.0, int=float(rng.randrange(1, 33)), rand=rng.uniform(0.1, 10), small=rng.uniform(1e-3, 1e-2), big=rng.uniform(1e3, 1e5), mix=10 ** rng.uniform(-2, 3))[boxk]
        box.append(float(b))
    if boxk == 'int' and rng.random() < 0.5: box = [box[0]] * ndim
    deg = rng.random() < 0.25
    if many and rng.random() < 0.03:
        # many domains along one direction
        shape = [rng.choice([1, 1, 2]) for d in range(ndim)]
        shape[rng.randrange(ndim)] = rng.choice([129, 300, 300, 1000, 9000, 20000, 40000])
    edges = [edges1(rng, shape[d], box[d], deg and rng.random() < 0.6) for d in range(ndim)]
    size = int(numpy.prod(shape))
    assign = None
    if rng.random() < 0.4:
        k = rng.choice(['perm', 'random', 'few'])
        if k == 'perm' and size <= n:
            assign = rng.sample(range(n), size)
        elif k == 'few':
            own = rng.sample(range(n), rng.randrange(1, n + 1)); assign = [rng.choice(own) for i in range(size)]
        else:
            assign = [rng.randrange(n) for i in range(size)]
    if periodic is None: periodic = rng.random() < 0.7
    return dict(n=n, edges=edges, periodic=periodic, assign=assign)

def small(case): return numpy.prod([len(e) - 1 for e in case['edges']]) <= 100

def gen_points(rng, g, most=24, outside=None):
    """explicit particles [rank, x, ...] : inside, on edges, near edges, outside the box"""
    edges, n = g['edges'], g['n']
    total = rng.choice([0, 1, 2, 3, 5, 8, 13, most, most])
    counts = split_counts(rng, total, n)
    hot = rng.random() < 0.3
    pts = []
    for r in range(n):
        for i in range(counts[r]):
            p = []
            for e in edges:
                L = e[-1]
                k = rng.random()
                if k < 0.55: x = rng.random() * L
                elif k < 0.7: x = rng.choice(e)
                elif k < 0.8: x = rng.choice(e) + rng.choice([-1, 1]) * L * 10 ** rng.uniform(-17, -3)
                elif k < 0.9: x = rng.uniform(-2, 3) * L if outside is not False else rng.random() * L
                elif k < 0.93: x = -L * 10 ** rng.uniform(-20, -8)
                else: x = rng.randrange(-2, 3) * L + rng.choice(e)
                if hot and pts and rng.random() < 0.7: x = pts[0][1 + len(p)]
                p.append(float(x))
            pts.append([r] + p)
    return pts

def arrays(case, r):
    """positions and unique ids of rank r"""
    ndim = len(case['edges'])
    rows = [(i, p) for i, p in enumerate(case['pts']) if p[0] % case['n'] == r]
    pos = numpy.array([p[1:] for i, p in rows], dtype='f8').reshape(-1, ndim)
    ids = numpy.array([i for i, p in rows], dtype='i8')
    b = case.get('bulk')
    if b and b['counts'][r] if b and r < len(b['counts']) else False:
        g = nprng(b['seed'], r)
        L = numpy.array([e[-1] for e in case['edges']])
        extra = g.uniform(-0.3, 1.3, size=(b['counts'][r], ndim)) * L
        pos = numpy.concatenate([pos, extra])
        ids = numpy.concatenate([ids, 10 ** 6 * (r + 1) + numpy.arange(b['counts'][r])])
    return pos, ids

def make_pos(case, pos):
    """the array handed to the code: dtype, further columns, coordinate transform, memory layout"""
    dt = case.get('posdtype', 'f8')
    tr = case.get('transform')
    x = pos
    if tr: x = pos / tr
    a = numpy.empty((len(x), x.shape[1] + case.get('extra', 0)), dtype=dt)
    a[...] = 0
    if dt in ('i4', 'i8'): x = numpy.floor(x)
    a[:, :x.shape[1]] = x
    if case.get('extra'): a[:, x.shape[1]:] = 12345
    if case.get('roll'): a = numpy.roll(a, -case['roll'], axis=1)
    if case.get('fortran'): a = numpy.asfortranarray(a)
    return a

def seen_pos(case, a):
    """what positions (in the coordinates of the edges) that array stands for, exactly, in double precision"""
    if case.get('roll'): a = numpy.roll(a, case['roll'], axis=1)
    x = a[:, :len(case['edges'])]
    if case.get('transform'): x = x * case['transform']     # in the precision of the array, as the code does
    return numpy.asarray(x, dtype='f8')

def make_transform(case):
    tr = case.get('transform')
    roll = case.get('roll', 0)
    if not tr and not roll: return None
    def transform(x):
        if roll: x = numpy.roll(x, roll, axis=-1)
        return x * tr if tr else x
    return transform

def tolerance(case, x):
    """rounding allowed in deciding on which side of an edge a position lies"""
    eps = 2e-6 if case.get('posdtype') == 'f4' else 1e-11
    L = numpy.array([e[-1] for e in case['edges']])
    return eps * (abs(x) + L + numpy.asarray(case.get('smoothing_v', 0)))

def gen_options(rng, case):
    case['posdtype'] = rng.choice(['f8', 'f8', 'f8', 'f4', 'i4' if all(e[-1] > 4 for e in case['edges']) else 'f8'])
    case['extra'] = rng.choice([0, 0, 0, 1, 2])
    case['companion'] = dict(what=rng.choice(['box', 'edges']), first=rng.random() < 0.6) if rng.random() < 0.15 else None
    case['fortran'] = rng.random() < 0.2
    case['transform'] = rng.choice([None, None, None, 2.0, 0.125, 3.7])
    case['roll'] = rng.choice([0, 0, 0, 1, 2])    # the transform also permutes the columns
    ndim = len(case['edges'])
    cell = [min([b - a for a, b in zip(e, e[1:]) if b > a] or [1]) for e in case['edges']]
    L = [e[-1] for e in case['edges']]
    k = rng.choice(['zero', 'zero', 'cell', 'cell', 'box', 'wide', 'exact', 'perdim'])
    if k == 'zero': s = 0
    elif k == 'cell': s = rng.uniform(0.01, 1.2) * rng.choice(cell)
    elif k == 'box': s = rng.uniform(0.1, 1.0) * rng.choice(L)
    elif k == 'wide': s = rng.uniform(1, 5) * rng.choice(L)
    elif k == 'exact': s = rng.choice(cell) * rng.choice([0.5, 1, 2])
    else: s = [rng.choice([0, 0.3 * cell[d], 0.6 * L[d], rng.uniform(0, 1.5) * L[d]]) for d in range(ndim)]
    # the code sorts the domains a volume touches by insertion: not too many of them
    cap = min([1500.0 / len(e) * e[-1] for e in case['edges'] if len(e) > 1500] or [numpy.inf])
    case['smoothing'] = [min(x, cap) for x in s] if isinstance(s, list) else min(s, cap)
    return case

class Geometry(object):
    """reference: which domains the volume around a position touches"""
    def __init__(self, case):
        self.edges = [numpy.array(e) for e in case['edges']]
        self.shape = [len(e) - 1 for e in self.edges]
        self.ndim = len(self.shape)
        self.size = int(numpy.prod(self.shape))
        self.periodic = case['periodic']
        n = case['n']
        a = case.get('assign')
        if a is None:
            if n >= self.size: a = list(range(self.size))
            else:
                a = [0] * self.size
                for i in range(n):
                    for d in range(i * self.size // n, (i + 1) * self.size // n): a[d] = i
        self.assign = numpy.array(a)
        deg = numpy.zeros(self.shape, '?')
        for d, e in enumerate(self.edges):
            x = (e[1:] == e[:-1]).reshape([-1 if i == d else 1 for i in range(self.ndim)])
            deg |= x
        self.degenerate = deg.ravel()
    def touched(self, x, s, slack):
        """[len(x), size] boolean: domain overlaps (x - s + slack, x + s - slack); slack<0: within reach at most"""
        out = numpy.ones((len(x),) + tuple(self.shape), '?')
        for d, e in enumerate(self.edges):
            L = e[-1]
            a, b = e[:-1][None, :], e[1:][None, :]
            lo, hi = (x[:, d] - s[d] + slack[:, d])[:, None], (x[:, d] + s[d] - slack[:, d])[:, None]
            if not self.periodic:
                t = (hi > a) & (lo < b)
            else:
                # images: shift the interval so that lo lies in [0, L)
                k = numpy.floor(lo / L)
                lo2, hi2 = lo - k * L, hi - k * L
                t = (hi2 > a) & (lo2 < b)
                t |= (hi2 > a + L) & (lo2 < b + L)
                t |= (hi2 - lo2 >= L)
                t |= (hi2 > a - L) & (lo2 < b - L)
            out &= t.reshape([len(x)] + [t.shape[1] if i == d else 1 for i in range(self.ndim)])
        out = out.reshape(len(x), self.size)
        return out & ~self.degenerate[None, :]
    def home(self, x):
        """index of the domain that holds each position (after wrapping), -1 if outside"""
        idx = numpy.zeros(len(x), 'i8')
        bad = numpy.zeros(len(x), '?')
        for d, e in enumerate(self.edges):
            L = e[-1]
            y = x[:, d]
            if self.periodic:
                y = numpy.remainder(y, L)
                y = numpy.where(y >= L, 0.0, y)
            i = numpy.searchsorted(e, y, side='right') - 1
            bad |= (y < e[0]) | (y >= L)
            idx = idx * self.shape[d] + numpy.clip(i, 0, self.shape[d] - 1)
        idx[bad] = -1
        return idx
    def ranks(self, dom, n):
        """[len, n] boolean from [len, size]"""
        out = numpy.zeros((len(dom), n), '?')
        for r in range(n):
            out[:, r] = dom[:, self.assign == r].any(axis=1) if (self.assign == r).any() else False
        return out

def delivery(case, x, ids, got):
    """ranks the particles at x have reached, got being the ids each rank received: every rank whose domain the volume
    around a particle touches, once, and no other"""
    n = case['n']
    s = numpy.empty(len(case['edges'])); s[:] = case['smoothing']
    geo = Geometry(case)
    tol = tolerance(dict(case, smoothing_v=s), x)
    must = geo.ranks(geo.touched(x, s, tol), n)
    may = geo.ranks(geo.touched(x, s, -tol), n)
    order = {int(i): k for k, i in enumerate(ids)}
    hits = numpy.zeros((len(ids), n), 'i8')
    for r in range(n):
        for i in got[r]:
            check(int(i) in order, 'rank %d received a particle (id %s) that no rank supplied', r, i)
        k = numpy.array([order[int(i)] for i in got[r]], 'i8')
        hits[:, r] = numpy.bincount(k, minlength=len(ids))
    for k, r in zip(*numpy.nonzero(hits > 1)):
        fail('particle at %s reached rank %d %d times' % (x[k].tolist(), r, hits[k, r]))
    for k, r in zip(*numpy.nonzero(must & (hits == 0))):
        fail('particle at %s with smoothing %s did not reach rank %d, whose domain it touches' % (x[k].tolist(), s.tolist(), r))
    for k, r in zip(*numpy.nonzero(~may & (hits > 0))):
        fail('particle at %s with smoothing %s reached rank %d, none of whose domains it touches' % (x[k].tolist(), s.tolist(), r))
    return geo, hits

def grid(ctx, case):
    dm = ctx.mod('domain')
    a = case.get('assign')
    kw = {}
    if a is not None: kw['DomainAssign'] = numpy.array(a, dtype='int32')
    if not case.get('defaultcomm'): kw['comm'] = ctx.comm
    def make(edges): return dm.GridND(edges, periodic=case['periodic'], **kw)
    other = case.get('companion')
    if not other: return make(case['edges'])
    # as many domains at other places live and are used at the same time
    edges = [[x * 1.25 for x in e] if other['what'] == 'box' or e[0] != 0 else [e[-1] - x for x in reversed(e)] for e in case['edges']]
    pair = [None, None]
    for i in ([1, 0] if other['first'] else [0, 1]):
        pair[i] = make([case['edges'], edges][i])
        if i == 1:
            x = numpy.array([[e[-1] * 0.3 for e in edges]])
            pair[1].isprimary(x); pair[1].decompose(x).exchange(x)
    ctx.companion = pair[1]
    return pair[0]

def simplify_grid(case):
    """candidates for minimisation: fewer ranks, no assignment, simpler options"""
    if case.get('companion'): yield dict(case, companion=None)
    if case['n'] > 1:
        for m in sorted(set([1, 2, case['n'] - 1])):
            if m < case['n']:
                c = dict(case, n=m)
                if c.get('assign') is not None: c['assign'] = [a % m for a in c['assign']]
                c['pts'] = [[p[0] % m] + p[1:] for p in c['pts']]
                if c.get('bulk'): c['bulk'] = dict(c['bulk'], counts=c['bulk']['counts'][:m])
                yield c
    if case.get('bulk'):
        yield dict(case, bulk=None)
        c = case['bulk']['counts']
        for r in range(len(c)):
            for k in (0, 1000, 49152, 49153, 50000):
                if k < c[r]: yield dict(case, bulk=dict(case['bulk'], counts=c[:r] + [k] + c[r + 1:]))
    if case.get('assign') is not None: yield dict(case, assign=None)
    for k, v in (('transform', None), ('roll', 0), ('extra', 0), ('fortran', False), ('posdtype', 'f8')):
        if case.get(k, v) != v: yield dict(case, **{k: v})
    if isinstance(case.get('smoothing'), list): yield dict(case, smoothing=max(case['smoothing']))
    if case.get('smoothing'): yield dict(case, smoothing=0)
    nd = len(case['edges'])
    if nd > 1:
        for d in range(nd):
            if len(case['edges'][d]) == 2:
                c = dict(case, edges=case['edges'][:d] + case['edges'][d + 1:], pts=[p[:1 + d] + p[2 + d:] for p in case['pts']])
                if isinstance(c.get('smoothing'), list): c['smoothing'] = c['smoothing'][:d] + c['smoothing'][d + 1:]
                yield c
    for d in range(nd):
        e = case['edges'][d]
        if len(e) > 9 and case.get('assign') is None:
            for k in (128, 8, 2): yield dict(case, edges=case['edges'][:d] + [e[:-1][::k] + e[-1:]] + case['edges'][d + 1:])
        elif len(e) > 2 and case.get('assign') is None:
            for i in range(1, len(e) - 1):
                yield dict(case, edges=case['edges'][:d] + [e[:i] + e[i + 1:]] + case['edges'][d + 1:])

# ------------------------------------------------------------------ columns of data
DTYPES = ['f8', 'f4', 'f2', 'i8', 'i4', 'u8', 'i1', 'u2', '?', 'c16', 'c8', 'S5', 'V7', '>f8', '<U3', 'M8[s]', [['a', 'f4'], ['b', 'i8', [2]]], 'g']
def dtype_of(spec):
    if isinstance(spec, str): return numpy.dtype(spec)
    return numpy.dtype([tuple(tuple(x) if isinstance(x, list) else x for x in f) for f in spec])
def gen_column(rng):
    c = dict(dtype=rng.choice(DTYPES) if rng.random() < 0.7 else 'f8', trail=rng.choice([[], [], [], [3], [1], [2, 2], [5]]), layout=rng.choice(['C', 'C', 'F', 'strided', 'reversed', 'readonly', 'list']), seed=rng.randrange(1 << 20))
    # the unused bytes of a long double made of a python number are arbitrary
    if c['dtype'] == 'g' and c['layout'] == 'list': c['layout'] = 'C'
    return c
def column(spec, ids):
    """values of a column for the given ids: random bytes, a function of the id only"""
    dt = dtype_of(spec['dtype'])
    shape = (len(ids),) + tuple(spec['trail'])
    a = numpy.zeros(shape, dt)
    k = int(numpy.prod(spec['trail'], dtype='i8')) if spec['trail'] else 1
    ids = numpy.asarray(ids, dtype='u8')
    nb = k * dt.itemsize
    if len(ids) and nb:
        # splitmix64 of (seed, id, position)
        z = (ids[:, None] + numpy.uint64(1)) * numpy.uint64(0x9E3779B97F4A7C15) + (numpy.arange(nb, dtype='u8') + numpy.uint64(spec['seed'] * 1000))[None, :] * numpy.uint64(0xBF58476D1CE4E5B9)
        z ^= z >> numpy.uint64(30); z *= numpy.uint64(0xBF58476D1CE4E5B9)
        z ^= z >> numpy.uint64(27); z *= numpy.uint64(0x94D049BB133111EB)
        z ^= z >> numpy.uint64(31)
        raw = (z & numpy.uint64(255)).astype('u1')
        if dt.kind == '?' or dt.kind == 'b': raw = raw & 1
        if dt.kind in 'SU' : raw = (raw % 64 + 33).astype('u1')
        if dt.kind == 'U':
            a[...] = numpy.array([''.join(chr(c) for c in row[:3]) for row in raw.reshape(-1, nb // k)]).reshape(shape); return a
        if dt.char == 'g':
            a[...] = raw.reshape(-1, nb // k)[:, :4].astype('i8').sum(axis=1).reshape(shape) / numpy.longdouble(3); return without_padding(a)
        a = numpy.frombuffer(raw.tobytes(), dtype=dt).reshape(shape).copy()
    return a
def laid_out(spec, a):
    """the same values as the caller may hold them"""
    l = spec['layout']
    if l == 'F': return numpy.asfortranarray(a)
    if l == 'strided':
        b = numpy.zeros((2 * len(a),) + a.shape[1:], a.dtype); b[::2] = a
        return b[::2]
    if l == 'reversed': return a[::-1].copy()[::-1]
    if l == 'readonly':
        a = a.copy(); a.flags.writeable = False
        return a
    if l == 'list' and spec['dtype'] == 'f8' and a.ndim == 1 and len(a): return [x for x in a]
    return a
def raw_bytes(a):
    a = numpy.ascontiguousarray(a)
    if a.dtype.char == 'g': return numpy.array(a, dtype='g').tolist(), a.shape
    return a.tobytes(), a.shape
def same_bytes(a, b, what):
    check(isinstance(a, numpy.ndarray), '%s: %s, expected an array', what, type(a))
    check(a.dtype == b.dtype, '%s: dtype %s, expected %s', what, a.dtype, b.dtype)
    check(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    if a.dtype.char == 'g': ok = bool((a == b).all())
    else: ok = raw_bytes(a)[0] == raw_bytes(b)[0]
    if not ok:
        for i in range(len(a)):
            if raw_bytes(a[i]) != raw_bytes(b[i]):
                check(False, '%s: entry %d of %d is %s, expected %s', what, i, len(a), short(a[i], 80), short(b[i], 80))

def do_decompose(ctx, case, g=None):
    """grid, positions, ids and layout of one rank"""
    pos, ids = arrays(case, ctx.rank)
    a = make_pos(case, pos)
    if g is None: g = grid(ctx, case)
    layout = decompose(g, a, case)
    return g, a, ids, layout
def listed(a, case):
    """positions may come as nested lists"""
    if case.get('posdtype') != 'f4' and make_transform(case) is None and 'bulk' not in case and len(a) and len(case['pts']) % 5 == 3: return a.tolist()
    return a
def decompose(g, a, case):
    sm = case['smoothing']
    kw = {} if isinstance(sm, (int, float)) and sm == 0 and len(case['pts']) % 2 else dict(smoothing=numpy.array(sm) if isinstance(sm, list) else sm)
    t = make_transform(case)
    a = listed(a, case)
    return g.decompose(a, **dict(kw, transform=t))
