"""Deterministic simulator core: ranks are threads that run strictly one at a time.

A rank gives up control only inside a simulated MPI call. Which rank continues, and every
other nondeterministic outcome (eager or rendezvous message, early exit from a collective,
order of reduction ...), is one entry of a list of small integers, the choice list. A run is
a pure function of (code, case, choice list). In search mode the list is produced by a PRNG
seeded from the case seed and recorded; in replay mode it is read back, and entries beyond
its end are 0, the undisturbed default."""
import threading, hashlib, random, sys, traceback, gc, time as _time


class SimAbort(BaseException):
    """unwinds a rank thread after the run has already failed or ended"""

class SimUnsupported(Exception):
    """the code under test used something the simulator does not model: an error of the harness"""

class Violation(Exception):
    """an oracle rejected what happened"""
    def __init__(self, msg, kind='oracle'):
        Exception.__init__(self, msg)
        self.kind = kind

class Failure(object):
    def __init__(self, kind, msg, rank=None, harness=False):
        self.kind, self.msg, self.rank, self.harness = kind, msg, rank, harness
    def __repr__(self):
        return 'Failure(%s, rank=%s): %s' % (self.kind, self.rank, self.msg)


class Choices(object):
    """source of every nondeterministic choice of one run"""
    def __init__(self, seed=None, replay=None, strategy=None, rates=None):
        self.replay = replay
        self.log = []
        self.kinds = {}
        self.rng = random.Random(seed) if replay is None else None
        self.rates = rates or {}
        self.strategy = strategy or 'uniform'
        self.prio = {}
        self.victims = None
        self.changes = None

    def pick(self, n, kind):
        """a non-scheduling choice; 0 is the undisturbed one"""
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.log)
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            rate = self.rates.get(kind, 0.0)
            v = 0
            if rate and self.rng.random() < rate:
                v = self.rng.randrange(1, n)
        self.log.append(v)
        if v:
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return v

    def pick_rank(self, cands, step):
        """a scheduling choice among cands (ranks); index 0 is the undisturbed continuation"""
        n = len(cands)
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.log)
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self._strategy(cands, step)
        self.log.append(v)
        if v:
            self.kinds['preempt'] = self.kinds.get('preempt', 0) + 1
        return v

    def _strategy(self, cands, step):
        rng, s = self.rng, self.strategy
        if s == 'default':
            return 0
        if s == 'uniform':
            return rng.randrange(len(cands))
        if s == 'sticky':
            return 0 if rng.random() < 0.8 else rng.randrange(len(cands))
        if s == 'reverse':
            return len(cands) - 1
        if s == 'pct':
            for r in cands:
                if r not in self.prio:
                    self.prio[r] = rng.random()
            if rng.random() < 0.05:
                # priority change point: the current favourite becomes the least
                top = max(cands, key=lambda r: self.prio[r])
                self.prio[top] = min(self.prio.values()) - rng.random()
            return max(range(len(cands)), key=lambda i: self.prio[cands[i]])
        if s == 'starve':
            if self.victims is None or rng.random() < 0.01:
                k = 1 if rng.random() < 0.7 else 2
                pool = sorted(set(cands))
                self.victims = set(rng.sample(pool, min(k, len(pool))))
                self.kinds['stall'] = self.kinds.get('stall', 0) + 1
            ok = [i for i, r in enumerate(cands) if r not in self.victims]
            if not ok:
                ok = list(range(len(cands)))
            return rng.choice(ok)
        raise AssertionError(s)

STRATEGIES = ['uniform', 'sticky', 'reverse', 'pct', 'starve']


class Rank(object):
    def __init__(self, index):
        self.index = index
        self.lock = threading.Lock(); self.lock.acquire()
        self.pred = None        # None: runnable; else callable
        self.waiting = None     # description while waiting
        self.finished = False
        self.result = None
        self.error = None
        self.modules = {}
        self.ncoll = 0          # collectives entered
        self.fault_at = None    # number of collectives until an injected failure
        self.faults = []        # log of injected failures
        self.datatypes = 0
        self.calls = []         # collective calls made (op, comm)
        self.clock_off = 0.0
        self.polled = False     # looked for something in vain since another rank last moved


class Sim(object):
    MAXSTEPS = 400000
    polled = False
    current = None              # the running simulation of this process

    def __init__(self, nranks, choices, params=None):
        self.n = nranks
        self.choices = choices
        self.params = params or {}
        self.ranks = [Rank(i) for i in range(nranks)]
        self.cur = 0
        self.step = 0
        self.failure = None
        self.guards = []
        self.crash = self.params.get('crash')   # step at which everything is killed
        self.aborting = False
        self.main_lock = threading.Lock(); self.main_lock.acquire()
        self.hash = hashlib.blake2b(digest_size=12)
        self.sched_hash = hashlib.blake2b(digest_size=8)
        self.log = []
        self.keep_log = bool(self.params.get('keep_log'))
        self.probes = {}
        self.now = 0.0
        self.clock = self.params.get('clock') or {}
        self.loader = None
        self.live_threads = 0
        from . import mpi
        self.mpi = mpi.World(self)

    # ---- bookkeeping
    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def event(self, *ev):
        s = repr((self.cur,) + ev)
        self.hash.update(s.encode())
        if self.keep_log:
            self.log.append('%d %s' % (self.step, s))

    def fail(self, kind, msg, rank=None, harness=False):
        """record the first failure and unwind everything"""
        if self.failure is None:
            self.failure = Failure(kind, msg, rank if rank is not None else self.cur, harness)
        self.aborting = True
        raise SimAbort()

    # ---- time
    def wtime(self):
        """simulated clock of the current rank"""
        c = self.clock
        r = self.cur
        skew = c.get('skew', {}).get(str(r), 0.0)
        t = self.now + skew
        for step, dt in c.get('jumps', {}).get(str(r), []):
            if self.step >= step:
                t += dt
        return t

    def tick(self):
        self.step += 1
        # deterministic step durations: no draw from the choice list
        x = (self.step * 2654435761 + 97) & 0xffffffff
        self.now += 1e-6 * (1 + (x >> 20))
        if self.crash is not None and self.step >= self.crash:
            if self.failure is None: self.choices.kinds['crash'] = self.choices.kinds.get('crash', 0) + 1
            self.fail('crash', 'all ranks were killed after %d steps' % self.step)
        if self.step > self.MAXSTEPS:
            self.fail('livelock', 'no end within %d steps' % self.MAXSTEPS)

    # ---- scheduling
    def _candidates(self, me):
        """runnable ranks, the continuation of `me` first, then in cyclic order"""
        out = []
        n = self.n
        for k in range(n):
            r = self.ranks[(me + k) % n]
            if r.finished:
                continue
            p = r.pred
            if p is None or p():
                out.append(r.index)
        return out

    def _switch(self, me, finishing=False):
        """choose who runs next and hand over; returns when `me` is chosen again"""
        rank = self.ranks[me]
        cands = self._candidates(me)
        if not cands:
            if finishing and all(r.finished for r in self.ranks):
                self.main_lock.release()
                return
            desc = '; '.join('rank %d %s' % (r.index, 'finished' if r.finished else 'waits in %s' % (r.waiting,))
                             for r in self.ranks)
            if self.failure is None:
                self.failure = Failure('deadlock', desc, me)
            self.aborting = True
            if finishing:
                self._abort_next(me)
                return
            raise SimAbort()
        if self.polled:
            # a rank that polls in vain lets the others move first
            busy = [c for c in cands if not self.ranks[c].polled]
            if busy: cands = busy
            else: self._moved()
        i = self.choices.pick_rank(cands, self.step)
        nxt = cands[i]
        self.sched_hash.update(b'%d,' % nxt)
        if nxt == me and not finishing:
            return
        self._handover(me, nxt)
        if finishing:
            return
        rank.lock.acquire()
        if self.aborting:
            raise SimAbort()

    def _handover(self, me, nxt):
        if self.loader is not None:
            self.loader.swap(self.ranks[me].modules, self.ranks[nxt].modules)
        self.cur = nxt
        self.ranks[nxt].lock.release()

    def _abort_next(self, me):
        """after a failure: wake the remaining ranks one by one so that they unwind"""
        for r in self.ranks:
            if not r.finished and r.index != me:
                self._handover(me, r.index)
                return
        self.main_lock.release()

    def yield_(self):
        """a point where the scheduler may run other ranks"""
        if self.aborting:
            raise SimAbort()
        if self.polled: self._moved()
        self.tick()
        self._switch(self.cur)

    def _moved(self):
        self.polled = False
        for r in self.ranks: r.polled = False

    def poll(self, pred):
        """does pred() hold? a point where the scheduler may run other ranks, and will if not"""
        if self.aborting:
            raise SimAbort()
        self.tick()
        self._switch(self.cur)
        if pred():
            if self.polled: self._moved()
            return True
        self.polled = self.ranks[self.cur].polled = True
        return False

    def wait(self, pred, desc):
        """block the current rank until pred() holds"""
        if self.aborting:
            raise SimAbort()
        me = self.cur
        rank = self.ranks[me]
        if pred():
            return
        if self.polled: self._moved()
        self.tick()
        rank.pred = pred
        rank.waiting = desc
        self._switch(me)
        rank.pred = None
        rank.waiting = None

    # ---- running
    def _thread(self, index, fn):
        rank = self.ranks[index]
        threading.current_thread()._simulated_rank = True
        rank.lock.acquire()
        try:
            if not self.aborting:
                rank.result = fn(index)
        except SimAbort:
            pass
        except BaseException as e:
            rank.error = e
            if self.failure is None:
                self.failure = classify(e, index)
            self.aborting = True
        finally:
            rank.finished = True
            rank.pred = None
            if self.aborting:
                self._abort_next(index)
            else:
                try:
                    self._switch(index, finishing=True)
                except SimAbort:
                    self._abort_next(index)

    def run(self, fn):
        """fn(rank_index) on every rank; returns self. Look at .failure, .ranks[i].result"""
        assert Sim.current is None
        Sim.current = self
        gc_was = gc.isenabled()
        gc.disable()
        old = threading.stack_size()
        try:
            threads = [threading.Thread(target=self._thread, args=(i, fn), daemon=True) for i in range(self.n)]
            for t in threads:
                t.start()
            first = self.choices.pick_rank(list(range(self.n)), 0)
            self.cur = first
            if self.loader is not None:
                self.loader.swap({}, self.ranks[first].modules)
            self.ranks[first].lock.release()
            self.main_lock.acquire()
            for t in threads:
                t.join()
        finally:
            if self.loader is not None:
                self.loader.swap(self.ranks[self.cur].modules, {})
            Sim.current = None
            if gc_was:
                gc.enable()
        return self

    def digest(self):
        return self.hash.hexdigest()


REPO = '/repo'

def classify(e, rank):
    """an exception that ended a rank: a finding about the code under test, or a harness error?"""
    tb = traceback.extract_tb(e.__traceback__)
    text = ''.join(traceback.format_exception_only(type(e), e)).strip()
    where = [f for f in tb if f.filename.startswith(REPO) or f.filename.startswith('<pmesh')]
    if isinstance(e, Violation):
        return Failure(e.kind, str(e), rank)
    if isinstance(e, SimUnsupported):
        return Failure('unsupported', text + ' at ' + fmt(tb[-4:]), rank, harness=True)
    if not where:
        f = Failure('harness', text + '\n' + ''.join(traceback.format_tb(e.__traceback__)), rank, harness=True)
        f.exc = e
        return f
    return Failure('exception', '%s at %s' % (text, fmt(where[-3:])), rank)

def fmt(frames):
    return ' < '.join('%s:%s in %s' % (f.filename.rsplit('/', 1)[-1], f.lineno, f.name) for f in reversed(frames))
