"""What property modules use: worlds of ranks, swarm parameters, comparison helpers."""
import sys, os, io, json, random, hashlib, importlib
import numpy
from . import core, env, fpfft
from .core import Sim, Choices, Violation, SimAbort, SimUnsupported, STRATEGIES

class RunFailure(Exception):
    def __init__(self, failure, sim=None):
        Exception.__init__(self, str(failure))
        self.failure = failure
        self.sim = sim

class Ctx(object):
    """one rank's view of the simulation"""
    def __init__(self, sim, rank):
        self.sim, self.rank = sim, rank
        self.n = sim.n
        self.comm = sim.mpi.world_handles[rank]
        self.self_comm = sim.mpi.self_handles[rank]
    def mod(self, name=None):
        return importlib.import_module('pmesh' if name is None else 'pmesh.' + name)
    @property
    def MPI(self): return sys.modules['mpi4py.MPI']
    def arm(self, k):
        """the k-th collective call from now (0: the next) fails on this rank"""
        self.sim.ranks[self.rank].fault_at = k
    def disarm(self):
        r = self.sim.ranks[self.rank]
        armed = r.fault_at is not None
        r.fault_at = None
        return armed
    @property
    def ncoll(self): return self.sim.ranks[self.rank].ncoll
    @property
    def datatypes(self): return self.sim.ranks[self.rank].datatypes
    @property
    def ncomms(self): return self.sim.mpi.live.get(self.rank, 0)
    def pause(self):
        """a scheduling point in the workload itself"""
        self.sim.yield_()
    def probe(self, name): self.sim.probe(name)
    def record(self, *ev): self.sim.event('w', *ev)

class Stats(object):
    def __init__(self):
        self.worlds = self.steps = 0
        self.simtime = 0.0
        self.probes, self.kinds, self.ranks, self.strategies = {}, {}, {}, {}
        self.sched = set()
    def add(self, s):
        self.worlds += 1
        self.steps += s.step
        self.simtime += s.now
        for k, v in s.probes.items(): self.probes[k] = self.probes.get(k, 0) + v
        # a run of several worlds draws them all from one list of choices
        before = getattr(s.choices, 'counted', {})
        for k, v in s.choices.kinds.items(): self.kinds[k] = self.kinds.get(k, 0) + v - before.get(k, 0)
        s.choices.counted = dict(s.choices.kinds)
        self.ranks[s.n] = self.ranks.get(s.n, 0) + 1
STATS = Stats()

class Run(object):
    """digest and coverage of one case"""
    def __init__(self):
        self.hash = hashlib.blake2b(digest_size=12)
        self.sched = hashlib.blake2b(digest_size=8)
        self.sims = 0
        self.steps = 0
        self.log = []
RUN = Run()

class _Null(io.TextIOBase):
    def write(self, s): return len(s)
    def flush(self): pass
NULL = _Null()

def run_world(n, fn, choices=None, params=None, ref=False):
    """run fn(ctx) on n simulated ranks; returns the list of results. ref: undisturbed reference run"""
    params = dict(params or {})
    if ref or choices is None:
        choices = Choices(replay=[])
        params = {}
    sim = Sim(n, choices, params)
    sim.loader = env.LOADER
    out, err = sys.stdout, sys.stderr
    sys.stdout = NULL
    try:
        sim.run(lambda r: fn(Ctx(sim, r)))
    finally:
        sys.stdout, sys.stderr = out, err
    RUN.hash.update(sim.digest().encode()); RUN.sims += 1; RUN.steps += sim.step
    if not ref:
        STATS.add(sim)
        RUN.sched.update(sim.sched_hash.digest())
    if sim.keep_log: RUN.log.extend(sim.log)
    res = [r.result for r in sim.ranks]
    for r in sim.ranks: r.modules = {}      # break cycles
    if sim.failure is None and not params.get('partial'):
        left = sim.mpi.leftover()
        if left: sim.failure = core.Failure('leftover', left)
    if sim.failure is None:
        over = fpfft.overrun(sim.guards)
        if over: sim.failure = core.Failure('overrun', over)
    if sim.failure is not None:
        f = sim.failure
        raise RunFailure(f, sim)
    for r in res:
        RUN.hash.update(digest(r))
    run_world.last = sim
    return res

def digest(x, depth=0):
    if isinstance(x, numpy.ndarray) and x.dtype != object:
        x = without_padding(x)
        return hashlib.blake2b(numpy.ascontiguousarray(x).tobytes() + str((x.shape, x.dtype)).encode(), digest_size=8).digest()
    if isinstance(x, (list, tuple)) and depth < 6:
        h = hashlib.blake2b(digest_size=8)
        for i in x: h.update(digest(i, depth + 1))
        return h.digest()
    if isinstance(x, dict) and depth < 6:
        h = hashlib.blake2b(digest_size=8)
        for k in sorted(x, key=str): h.update(str(k).encode()); h.update(digest(x[k], depth + 1))
        return h.digest()
    if isinstance(x, (int, float, complex, str, bool, type(None), numpy.generic)):
        return repr(x).encode()
    return b'?'

RATE_KINDS = ['early_exit', 'rendezvous', 'late_completion', 'reduce_order', 'cart_order', 'any_source', 'reverse_completion', 'waitany', 'sort_ties']
def swarm(rng, n):
    """the schedule and fault configuration of one run"""
    rates = {}
    for k in RATE_KINDS:
        x = rng.random()
        if x < 0.35: rates[k] = rng.choice([0.1, 0.5])
        elif x < 0.5: rates[k] = 1.0
    d = dict(strategy=rng.choice(STRATEGIES), rates=rates, poison=rng.randrange(1, 1 << 20) if rng.random() < 0.8 else 0)
    return d

def choices_for(case, seed):
    sw = case.get('swarm', {})
    return Choices(seed=seed, strategy=sw.get('strategy', 'uniform'), rates=sw.get('rates', {}))
def params_of(case, **kw):
    d = dict(poison=case.get('swarm', {}).get('poison', 0))
    if 'clock' in case: d['clock'] = case['clock']
    d['keep_log'] = bool(case.get('_log'))
    d.update(kw)
    return d

# ------------------------------------------------------------------ oracles
def fail(msg, kind='oracle'):
    raise Violation(msg, kind)
def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
def without_padding(a):
    """a copy of an array of long doubles in which the unused bytes are zero"""
    if a.dtype.char != 'g' or a.size == 0: return a
    b = numpy.zeros(a.shape, a.dtype)
    c = numpy.ascontiguousarray(a)
    b.view('u1').reshape(-1, a.dtype.itemsize)[:, :10] = numpy.frombuffer(c.tobytes(), 'u1').reshape(-1, a.dtype.itemsize)[:, :10]
    return b
def same(a, b, what):
    """bitwise equal arrays (NaN equals NaN)"""
    a, b = numpy.asarray(a), numpy.asarray(b)
    check(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    if a.dtype.fields is None and b.dtype.fields is None and a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        ok = numpy.array_equal(a, b, equal_nan=True)
    else:
        ok = numpy.array_equal(a, b)
    if not ok:
        check(False, '%s: %s, expected %s', what, short(a), short(b))
class Results(object):
    """what calls returned belongs to the caller: it stays as it is during later calls, or (spoil) is overwritten, which later calls do not notice"""
    def __init__(self, spoil=False): self.spoil, self.kept = spoil, []
    def add(self, r, what):
        a = r.value if hasattr(r, 'pm') else r
        if not isinstance(a, numpy.ndarray): return
        if self.spoil:
            if a.flags.writeable: a[...] = numpy.ones((), a.dtype)
        else: self.kept.append((a, a.copy(), what))
    def check(self):
        for a, c, what in self.kept: same(a, c, '%s, after later calls' % what)
def close(a, b, tol, what):
    """|a - b| <= tol (array or scalar); NaN never is"""
    a, b = numpy.asarray(a), numpy.asarray(b)
    check(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    if a.size == 0: return
    with numpy.errstate(all='ignore'):
        d = abs(a - b)
        bad = ~(d <= tol)
    if bad.any():
        i = tuple(int(k[0]) for k in numpy.nonzero(bad)) if a.ndim else ()
        check(False, '%s: %d of %d differ, first at %s: %r, expected %r (tolerance %.3g)', what, int(bad.sum()), a.size, i, a[i].item() if hasattr(a[i], 'item') else a[i], b[i].item() if hasattr(b[i], 'item') else b[i],
              float(numpy.broadcast_to(tol, a.shape)[i]))
def short(a, n=200):
    s = repr(numpy.asarray(a).tolist())
    return s if len(s) <= n else s[:n] + '...'
def agree(vals, what):
    """all ranks hold the same value"""
    for r, v in enumerate(vals[1:], 1):
        a, b = vals[0], v
        ok = (type(a) == type(b) or True) and numpy.array_equal(numpy.asarray(a), numpy.asarray(b))
        check(ok or _nan_eq(a, b), '%s differs: rank 0 has %s, rank %d has %s', what, short(a), r, short(b))
def _nan_eq(a, b):
    try: return numpy.array_equal(numpy.asarray(a), numpy.asarray(b), equal_nan=True)
    except TypeError: return False

# ------------------------------------------------------------------ workload helpers
def split_counts(rng, total, n):
    """how many of `total` items each of n ranks holds: even, skewed, empty ranks, all on one"""
    mode = rng.choice(['even', 'random', 'random', 'one', 'some', 'skew'])
    if n == 1: return [total]
    if mode == 'even':
        return [total * (i + 1) // n - total * i // n for i in range(n)]
    if mode == 'one':
        k = rng.randrange(n)
        return [total if i == k else 0 for i in range(n)]
    w = [rng.random() for i in range(n)]
    if mode == 'some':
        for i in range(n):
            if rng.random() < 0.5: w[i] = 0
    if mode == 'skew':
        w = [x ** 4 for x in w]
    if sum(w) == 0: w[rng.randrange(n)] = 1
    s = sum(w); acc = 0; out = []; done = 0
    for i in range(n):
        acc += w[i]
        k = int(round(total * acc / s)) - done
        out.append(k); done += k
    out[-1] += total - sum(out)
    if out[-1] < 0: out[out.index(max(out))] += out[-1]; out[-1] = 0
    return out
def offsets(counts):
    o = [0]
    for c in counts: o.append(o[-1] + c)
    return o
def nprng(*key):
    return numpy.random.RandomState(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=4).digest(), 'little'))
