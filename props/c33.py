"""A stepped simulation of particles and a field: the same history on any number of ranks, and when it is killed and continued
from its last complete checkpoint by another number of ranks."""
from .meshcase import *
SHRINK = {'pts': 0, 'lives': 1}
WIN = ['cic', 'tsc', 'pcs', 'cic', 'linear', 'quadratic', 'cubic']
def gen(rng, tier, index):
    case = gen_mesh(rng, dtypes=('f8', 'f8', 'f8', 'f4'), most=220, ndims=(1, 2, 2, 3, 3))
    nd = len(case['N'])
    case['window'] = rng.choice(WIN)
    case['pts'] = [[0] + [rng.random() for d in range(nd)] for i in range(rng.choice([0, 1, 2, 4, 8, 16, 24]))]
    case['steps'] = rng.choice([1, 2, 3, 4, 6])
    case['every'] = rng.choice([1, 1, 2, 3])
    # incarnations: ranks, process mesh, step at which all are killed (None: never), how particles and cells come back
    case['lives'] = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        n = case['n'] if i == 0 else 1 if nd == 1 else rng.choice([1, 2, 3, 4, 5, 6])
        case['lives'].append(dict(n=n, np=case['np'] if i == 0 else factor(rng, n, nd - 1) if nd > 1 and rng.random() < 0.5 else None,
            kill=int(10 ** rng.uniform(1.7, 3.6)), spread=rng.choice(['even', 'one', 'last', 'random']), seed=rng.randrange(1 << 20)))
    case['move'] = rng.choice(['stay', 'stay', 'migrate', 'mixed'])        # particles stay with their rank or go to the owner of their place
    case['keep'] = rng.choice(['layout', 'layout', 'local'])                # through the layout, or exchanged first
    case['wrap'] = rng.random() < 0.5
    case['noise'] = rng.random() < 0.5
    case['speed'] = rng.choice([0.3, 1.0, 4.0])
    case['seed'] = rng.randrange(1 << 20)
    case['stored'] = rng.choice(['real', 'real', 'complex'])
    case['swarm'] = swarm(rng, max(l['n'] for l in case['lives']))
    return case
def simplify(case):
    for k, v in (('move', 'stay'), ('keep', 'layout'), ('wrap', False), ('noise', False), ('stored', 'real'), ('every', 1), ('dtype', 'f8'), ('window', 'cic')):
        if case[k] != v: yield dict(case, **{k: v})
    if case['steps'] > 1: yield dict(case, steps=case['steps'] - 1)
    for i, l in enumerate(case['lives']):
        for k, v in (('np', None), ('spread', 'even'), ('n', max(1, l['n'] - 1))):
            if l[k] != v: yield dict(case, lives=case['lives'][:i] + [dict(l, **dict({k: v}, np=None))] + case['lives'][i + 1:])

def pieces(total, n, how, seed):
    if how == 'one': return [total] + [0] * (n - 1)
    if how == 'last': return [0] * (n - 1) + [total]
    if how == 'even': return [(i + 1) * total // n - i * total // n for i in range(n)]
    cut = sorted(nprng('cut', seed).randint(0, total + 1, size=n - 1))
    return [b - a for a, b in zip([0] + cut, cut + [total])]

class Code(object):
    """a particle mesh code: displaced particles feel the field they make, and a field that oscillates and is fed by them"""
    def __init__(self, ctx, case, life, single):
        self.ctx, self.case, self.single = ctx, case, single
        self.pm = mesh(ctx, dict(case, n=life['n'], np=life['np']), ref=single)
        self.life = life
    def start(self):
        case, pm, c = self.case, self.pm, self.ctx.comm
        pos = numpy.array([p[1:] for p in case['pts']], 'f8').reshape(len(case['pts']), pm.ndim) * boxsize(case)
        mine = self.part(len(pos))
        self.pos = pos[mine].copy()
        self.id = numpy.arange(len(pos))[mine]
        self.vel = nprng('vel', case['seed']).uniform(-1, 1, size=pos.shape)[mine] * boxsize(case) / pm.Nmesh * case['speed']
        if case['noise']: self.u = pm.generate_whitenoise(case['seed'] % 1000, type='real')
        else: self.u = set_local(pm.create('real'), nprng('u', case['seed']).normal(size=tuple(case['N'])))
        self.w = set_local(pm.create('real'), nprng('w', case['seed']).normal(size=tuple(case['N'])))
        self.t = 0
    def part(self, total):
        k = pieces(total, self.ctx.comm.size, self.life['spread'], self.life['seed'])
        a = sum(k[:self.ctx.rank])
        return slice(a, a + k[self.ctx.rank])
    # ---- durable state: what each rank hands over; complete when all ranks have
    def save(self, store):
        case, c = self.case, self.ctx.comm
        fields = []
        for f in (self.u, self.w):
            if case['stored'] == 'complex': f = f.r2c()
            fields.append(numpy.array(f.ravel(), copy=True))
        store.setdefault((self.t, c.size, store['life']), {})[self.ctx.rank] = (self.pos.copy(), self.vel.copy(), self.id.copy(), fields)
    def load(self, ck, t):
        case, pm = self.case, self.pm
        parts = [ck[r] for r in sorted(ck)]
        pos, vel, id = [numpy.concatenate([p[i] for p in parts]) for i in range(3)]
        mine = self.part(len(pos))
        self.pos, self.vel, self.id = pos[mine].copy(), vel[mine].copy(), id[mine].copy()
        fields = []
        for k in range(2):
            flat = numpy.concatenate([p[3][k] for p in parts])
            f = pm.unravel('complex' if case['stored'] == 'complex' else 'real', flat[self.part(len(flat))].flat)
            fields.append(f.c2r() if case['stored'] == 'complex' else f)
        self.u, self.w = fields
        self.t = t
    # ---- one step
    def step(self):
        case, pm, comm = self.case, self.pm, self.ctx.comm
        cell = boxsize(case) / pm.Nmesh
        dt = 0.2
        total = len(case['pts'])
        if case['move'] == 'migrate' or case['move'] == 'mixed' and self.t % 2 == 0:
            l = pm.decompose(self.pos, smoothing=0)
            self.pos, self.vel, self.id = [numpy.array(a) for a in l.exchange(self.pos, self.vel, self.id)]
            check(pm.domain.isprimary(self.pos, transform=lambda x: pm.affine.scale * x).all(), 'step %d: a particle arrived on a rank that does not own its place', self.t)
        count = comm.allreduce(len(self.id))
        check(count == total, 'step %d: %d particles of %d left', self.t, count, total)
        # forces
        l = pm.decompose(self.pos)
        if case['keep'] == 'local':
            x = l.exchange(self.pos)
            rho = pm.paint(x)
        else: rho = pm.paint(self.pos, layout=l)
        s = rho.csum()
        eps = 2e-5 if case['dtype'] == 'f4' else 1e-10
        close(float(s), float(total), eps * (1 + total * 4), 'step %d: painted mass' % self.t)
        rhok = rho.r2c()
        F = numpy.zeros_like(self.pos)
        for d in range(pm.ndim):
            def kernel(k, v):
                w = k[d] * cell[d]
                k2 = sum((ki * ci) ** 2 for ki, ci in zip(k, cell))
                k2 = k2 + (k2 == 0)
                return 1j * numpy.sin(w) * (abs(w) < numpy.pi * 0.9999) / k2 * v
            f = rhok.apply(kernel).c2r()
            if case['keep'] == 'local': F[:, d] = l.gather(f.readout(x), mode='sum')
            else: F[:, d] = f.readout(self.pos, layout=l)
        # what the particles do to each other sums to nothing
        if comm.allreduce(len(F)): p = comm.allreduce(F.sum(axis=0)); close(p, p * 0, eps * 10 * (1 + total ** 2), 'step %d: total force' % self.t)
        self.vel += F * cell * dt * 0.3
        self.pos += self.vel * dt
        if case['wrap']: self.pos %= boxsize(case)
        # the field: w is the time derivative of u
        def laplace(k, v): return -sum((ki * ci) ** 2 for ki, ci in zip(k, cell)) * v
        a = self.u.r2c().apply(laplace, out=Ellipsis).c2r()
        self.w = self.w + (a * 0.3 - self.u + rho * 0.1) * dt
        self.u += self.w * dt
        self.t += 1

def run(case, choices):
    def live(ctx, life, store, single):
        s = Code(ctx, case, life, single)
        if store.get('from') is None: s.start()
        else: s.load(*store['from'])
        history = []
        while s.t < case['steps']:
            s.step()
            if single or s.t % case['every'] == 0 or s.t == case['steps']: s.save(store)
        return s.t
    def complete(store, t=None):
        done = [k for k in store if isinstance(k, tuple) and len(store[k]) == k[1] and (t is None or k[0] == t)]
        return sorted(done, key=lambda k: (k[0], k[2]))
    def state(ck):
        parts = [ck[r] for r in sorted(ck)]
        pos, vel, id = [numpy.concatenate([p[i] for p in parts]) for i in range(3)]
        o = numpy.argsort(id)
        check(list(id[o]) == list(range(len(case['pts']))), 'ids of the particles are %s', sorted(id))
        return pos[o], vel[o], [numpy.concatenate([p[3][k] for p in parts]) for k in range(2)]
    book = {'life': 0}
    run_world(1, lambda ctx: live(ctx, dict(n=1, np=None, spread='even', seed=0), book, True), ref=True)
    want = {k[0]: state(book[k]) for k in complete(book)}
    store = {'life': 0, 'from': None}
    first = dict(n=case['n'], np=case['np'], spread='even', seed=0)
    lives = case['lives'] + [dict((case['lives'] or [first])[-1], kill=None)]
    tol = 1e-3 if case['dtype'] == 'f4' else 1e-8
    B = boxsize(case)
    for i, life in enumerate(lives):
        store['life'] = i
        try: run_world(life['n'], lambda ctx: live(ctx, life, store, False), choices, params_of(case, crash=life['kill']))
        except RunFailure as e:
            if e.failure.kind != 'crash': raise
            STATS.probes['killed'] = STATS.probes.get('killed', 0) + 1
        else: break
        # what not all ranks have handed over is lost
        done = complete(store)
        for k in [k for k in store if isinstance(k, tuple) and k not in done]: del store[k]
        store['from'] = (store[done[-1]], done[-1][0]) if done else None
        if done: STATS.probes['continued'] = STATS.probes.get('continued', 0) + 1
    keys = complete(store)
    check(any(k[0] == case['steps'] for k in keys), 'the last step was not reached')
    for k in keys:
        pos, vel, fields = state(store[k])
        w = want[k[0]]
        d = (pos - w[0]) / B; d -= numpy.rint(d)
        what = 'after step %d, life %d' % (k[0], k[2])
        close(d, d * 0, tol, 'positions ' + what)
        close(vel / B, w[1] / B, tol * (1 + case['speed']), 'velocities ' + what)
        for a, b, c in zip(fields, w[2], 'uw'): close(a, b, tol * (1 + numpy.abs(b).max()), 'field %s %s' % (c, what))
