"""Simulated mpi4py.MPI on top of sim.core. Semantics follow the MPI standard where the
standard leaves room (buffering, early exit from collectives, order of reduction) the choice
list decides. What a correct program may not do (mismatched collectives, truncation, writing to
a buffer that is too small, use of freed handles) ends the run as a violation; what the
simulator does not model raises SimUnsupported, an error of the harness."""
import sys, types, pickle, itertools, weakref, zlib
import numpy
from .core import Sim, SimUnsupported, SimAbort

_real_empty = numpy.empty

class Exception_(RuntimeError):
    """MPI.Exception"""
    def __init__(self, ierr=1, msg=''):
        RuntimeError.__init__(self, ierr, msg)
        self.error_code = ierr
    def Get_error_code(self): return self.error_code
    def Get_error_class(self): return self.error_code
    def Get_error_string(self): return str(self.args[-1])
    def __str__(self): return 'MPI_ERR(%s): %s' % (self.error_code, self.args[-1])
Exception_.__name__ = Exception_.__qualname__ = 'Exception'

def sim():
    s = Sim.current
    if s is None:
        raise SimUnsupported('MPI call outside of a simulation')
    return s

def misuse(msg):
    sim().fail('misuse', msg)

# ------------------------------------------------------------------ datatypes
class Datatype(object):
    def __init__(self, size=0, np=None, name='', derived=False):
        self.size_, self.np, self.name = size, np, name
        self.derived, self.committed, self.freed = derived, not derived, False
    def _check(self):
        if self.freed:
            misuse('use of a freed datatype')
    def Create_contiguous(self, count):
        self._check()
        s = sim()
        if count < 0:
            raise Exception_(2, 'invalid count')
        d = Datatype(int(count) * self.size_, None if self.np is None else (self.np, int(count)), 'contiguous', True)
        s.ranks[s.cur].datatypes += 1
        return d
    def Create_vector(self, *a, **k): raise SimUnsupported('Datatype.Create_vector')
    def Create_struct(self, *a, **k): raise SimUnsupported('Datatype.Create_struct')
    def Create_resized(self, lb, extent):
        self._check()
        if lb != 0 or extent != self.size_:
            raise SimUnsupported('Datatype.Create_resized')
        return self.Dup()
    def Dup(self):
        s = sim(); s.ranks[s.cur].datatypes += 1
        return Datatype(self.size_, self.np, self.name, True)
    def Commit(self):
        self._check(); self.committed = True
        return self
    def Free(self):
        self._check()
        if not self.derived:
            misuse('free of a predefined datatype')
        s = sim(); s.ranks[s.cur].datatypes -= 1
        self.freed = True
    def Get_size(self):
        self._check(); return self.size_
    def Get_extent(self): return (0, self.Get_size())
    @property
    def size(self): return self.Get_size()
    @property
    def extent(self): return self.Get_size()
    @property
    def lb(self): return 0
    @property
    def ub(self): return self.Get_size()
    def __eq__(self, other): return self is other
    def __ne__(self, other): return self is not other
    def __hash__(self): return id(self)

def _dt(name, np):
    np = numpy.dtype(np)
    return Datatype(np.itemsize, np, name)
PRE = dict(BYTE=_dt('BYTE', 'u1'), CHAR=_dt('CHAR', 'S1'), SIGNED_CHAR=_dt('SIGNED_CHAR', 'i1'), UNSIGNED_CHAR=_dt('UNSIGNED_CHAR', 'u1'),
    SHORT=_dt('SHORT', 'i2'), UNSIGNED_SHORT=_dt('UNSIGNED_SHORT', 'u2'), INT=_dt('INT', 'i4'), UNSIGNED=_dt('UNSIGNED', 'u4'),
    LONG=_dt('LONG', 'i8'), UNSIGNED_LONG=_dt('UNSIGNED_LONG', 'u8'), LONG_LONG=_dt('LONG_LONG', 'i8'), UNSIGNED_LONG_LONG=_dt('UNSIGNED_LONG_LONG', 'u8'),
    FLOAT=_dt('FLOAT', 'f4'), DOUBLE=_dt('DOUBLE', 'f8'), LONG_DOUBLE=_dt('LONG_DOUBLE', 'g'),
    COMPLEX=_dt('COMPLEX', 'c8'), DOUBLE_COMPLEX=_dt('DOUBLE_COMPLEX', 'c16'), BOOL=_dt('BOOL', '?'), C_BOOL=_dt('C_BOOL', '?'),
    INT8_T=_dt('INT8_T', 'i1'), INT16_T=_dt('INT16_T', 'i2'), INT32_T=_dt('INT32_T', 'i4'), INT64_T=_dt('INT64_T', 'i8'),
    UINT8_T=_dt('UINT8_T', 'u1'), UINT16_T=_dt('UINT16_T', 'u2'), UINT32_T=_dt('UINT32_T', 'u4'), UINT64_T=_dt('UINT64_T', 'u8'),
    F_INT=_dt('F_INT', 'i4'), F_DOUBLE=_dt('F_DOUBLE', 'f8'), AINT=_dt('AINT', 'i8'))
PRE['C_FLOAT_COMPLEX'] = PRE['COMPLEX']; PRE['C_DOUBLE_COMPLEX'] = PRE['DOUBLE_COMPLEX']; PRE['CXX_BOOL'] = PRE['BOOL']
PRE['REAL'] = PRE['FLOAT']; PRE['DOUBLE_PRECISION'] = PRE['DOUBLE']; PRE['INTEGER'] = PRE['INT']; PRE['PACKED'] = PRE['BYTE']
DATATYPE_NULL = Datatype(0, None, 'NULL')
_BYNP = {}
for _k in ('SIGNED_CHAR', 'UNSIGNED_CHAR', 'SHORT', 'UNSIGNED_SHORT', 'INT', 'UNSIGNED', 'LONG', 'UNSIGNED_LONG', 'FLOAT', 'DOUBLE', 'LONG_DOUBLE', 'COMPLEX', 'DOUBLE_COMPLEX', 'BOOL'):
    _BYNP[PRE[_k].np.str] = PRE[_k]
_TYPEDICT = {}
for _k in _BYNP: _TYPEDICT[numpy.dtype(_k).char] = _BYNP[_k]
for _c in 'bBhHiIlLqQfdgFD?': 
    _TYPEDICT[_c] = _BYNP[numpy.dtype(_c).str]
_TYPEDICT['c'] = PRE['CHAR']; _TYPEDICT['G'] = Datatype(32, numpy.dtype('c32') if hasattr(numpy, 'complex256') else None, 'LDC')

# ------------------------------------------------------------------ operations
class Op(object):
    def __init__(self, name, fn, commute=True):
        self.name, self.fn, self.commute = name, fn, commute
    def __call__(self, a, b): return self.fn(a, b)
    @classmethod
    def Create(cls, fn, commute=False):
        return cls('user', lambda a, b: fn(a, b, None), commute)
    def Free(self): pass
    def Is_commutative(self): return self.commute
def _max(a, b): return a if not (isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray)) and a >= b else (numpy.maximum(a, b) if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray) else b)
def _min(a, b): return a if not (isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray)) and a <= b else (numpy.minimum(a, b) if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray) else b)
def _isarr(*x): return any(isinstance(i, numpy.ndarray) for i in x)
def _land(a, b): return numpy.logical_and(a, b) if _isarr(a, b) else bool(a) and bool(b)
def _lor(a, b): return numpy.logical_or(a, b) if _isarr(a, b) else bool(a) or bool(b)
def _lxor(a, b): return numpy.logical_xor(a, b) if _isarr(a, b) else bool(a) != bool(b)
def _maxloc(a, b):
    if a[0] > b[0]: return a
    if a[0] < b[0]: return b
    return (a[0], min(a[1], b[1]))
def _minloc(a, b):
    if a[0] < b[0]: return a
    if a[0] > b[0]: return b
    return (a[0], min(a[1], b[1]))
OPS = dict(SUM=Op('SUM', lambda a, b: a + b), PROD=Op('PROD', lambda a, b: a * b), MAX=Op('MAX', _max), MIN=Op('MIN', _min),
           LAND=Op('LAND', _land), LOR=Op('LOR', _lor), LXOR=Op('LXOR', _lxor), BAND=Op('BAND', lambda a, b: a & b),
           BOR=Op('BOR', lambda a, b: a | b), BXOR=Op('BXOR', lambda a, b: a ^ b), MAXLOC=Op('MAXLOC', _maxloc), MINLOC=Op('MINLOC', _minloc),
           REPLACE=Op('REPLACE', lambda a, b: b), NO_OP=Op('NO_OP', lambda a, b: a))

class _InPlace(object):
    def __repr__(self): return 'MPI.IN_PLACE'
    def __bool__(self): return False
IN_PLACE = _InPlace()
BOTTOM = object()
ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED, ROOT = -1, -1, -2, -32766, -4

# ------------------------------------------------------------------ buffers
def _bytes_of(arr, writable):
    """flat uint8 view of the memory of a buffer object; errors as mpi4py gives them"""
    if isinstance(arr, numpy.ndarray):
        a = arr
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise ValueError('ndarray is not contiguous')
        if writable and not a.flags.writeable:
            raise ValueError('buffer source array is read-only')
        if a.dtype.hasobject:
            raise ValueError('cannot include dtype with objects in a buffer')
        if a.size == 0 or a.dtype.itemsize == 0:
            return numpy.zeros(0, 'u1'), a
        if not a.flags.c_contiguous:
            a = a.T
        base = numpy.ndarray(a.nbytes, 'u1', buffer=a.view(numpy.ndarray) if type(a) is not numpy.ndarray else a)
        return base, arr
    if numpy.isscalar(arr) and not isinstance(arr, bytes) or isinstance(arr, (int, float, complex)) and not hasattr(arr, '__array_interface__'):
        if isinstance(arr, numpy.generic) and not writable:
            a = numpy.array(arr)
            return numpy.frombuffer(a.tobytes(), 'u1'), a
        raise TypeError("message: expecting buffer or list/tuple")
    try:
        m = memoryview(arr)
    except TypeError:
        raise TypeError("object of type %s: message: expecting buffer or list/tuple" % type(arr))
    a = numpy.asarray(m)
    return _bytes_of(a, writable)

class Buf(object):
    """a parsed buffer specification: bytes view, item type, count"""
    def __init__(self, spec, writable, vector=False, blocks=1):
        counts = displs = None
        dt = None
        arr = spec
        if isinstance(spec, (list, tuple)):
            spec = list(spec)
            if len(spec) == 0:
                raise ValueError('message: expecting 2 to 4 items')
            arr = spec[0]
            rest = spec[1:]
            if rest and (isinstance(rest[-1], (Datatype, str)) or rest[-1] is None):
                dt = rest[-1]
                if isinstance(dt, str):
                    if dt not in _TYPEDICT:
                        raise KeyError(dt)
                    dt = _TYPEDICT[dt]
                rest = rest[:-1]
            if rest:
                c = rest[0]
                if len(rest) > 1:
                    counts, displs = rest[0], rest[1]
                elif isinstance(c, (list, tuple)) and len(c) == 2 and not numpy.isscalar(c[0]) and c[0] is not None:
                    counts, displs = c
                else:
                    counts = c
        if arr is None:
            self.bytes, self.arr = numpy.zeros(0, 'u1'), None
            if dt is None: dt = PRE['BYTE']
        else:
            self.bytes, self.arr = _bytes_of(arr, writable)
        if dt is None:
            a = numpy.asarray(self.arr)
            k = a.dtype.str.replace('>', '<') if a.dtype.byteorder == '>' else a.dtype.str
            if a.dtype.byteorder == '>' and a.dtype.itemsize > 1:
                raise KeyError(a.dtype.str)
            if k not in _BYNP:
                if a.dtype.kind in 'SV' and a.dtype.fields is None and a.dtype.itemsize == 1:
                    dt = PRE['BYTE']
                else:
                    raise KeyError(a.dtype.char if a.dtype.fields is None else str(a.dtype))
            else:
                dt = _BYNP[k]
        dt._check()
        if not dt.committed:
            misuse('communication with a datatype that was not committed')
        self.dt = dt
        self.item = dt.size_
        total = len(self.bytes) // self.item if self.item else 0
        if vector:
            n = blocks
            if counts is None:
                q, m = divmod(total, n)
                counts = [q + (1 if i < m else 0) for i in range(n)]
            elif numpy.isscalar(counts):
                counts = [int(counts)] * n
            counts = [int(i) for i in counts]
            if displs is None:
                displs = [0] + list(itertools.accumulate(counts))[:-1]
            displs = [int(i) for i in displs]
            if len(counts) != n or len(displs) != n:
                raise ValueError('message: expecting %d items, got %d' % (n, len(counts)))
            self.counts, self.displs = counts, displs
            self.count = sum(counts)
            for c, d in zip(counts, displs):
                if c < 0:
                    raise Exception_(2, 'MPI_ERR_COUNT: invalid count argument')
                if c and (d < 0 or (d + c) * self.item > len(self.bytes)):
                    misuse('a buffer of %d bytes is too small for %d items of %d bytes at displacement %d' % (len(self.bytes), c, self.item, d))
        else:
            if counts is None:
                self.count = total
            else:
                self.count = int(numpy.sum(counts)) if not numpy.isscalar(counts) else int(counts)
            self.off = int(displs) if displs is not None and numpy.isscalar(displs) else 0
            if (self.off + self.count) * self.item > len(self.bytes):
                raise ValueError('message: buffer too small for requested count')
    def data(self):
        o = getattr(self, 'off', 0) * self.item
        return self.bytes[o:o + self.count * self.item]
    def block(self, i):
        o = self.displs[i] * self.item
        return self.bytes[o:o + self.counts[i] * self.item]
    def typed(self, raw):
        np = self.dt.np
        if np is None:
            misuse('reduction on an untyped buffer')
        if isinstance(np, tuple):
            np = np[0]
        return numpy.frombuffer(bytes(raw), np)

def crc(b): return zlib.crc32(b.tobytes() if isinstance(b, numpy.ndarray) else b)

# ------------------------------------------------------------------ world
class CollRec(object):
    __slots__ = ('op', 'sig', 'contrib', 'arrived', 'early', 'cache', 'left', 'order', 'first')

class CommState(object):
    """what the ranks of a communicator share"""
    def __init__(self, world, members):
        self.world = world
        self.id = world.next_comm()
        world.states.append(self)
        self.members = list(members)     # world ranks
        self.seq = [0] * len(members)
        self.recs = {}
        self.sends = {}                  # (src, dst) -> list of unmatched messages
        self.recvs = {}                  # dst -> list of unmatched posted receives
        self.freed = [False] * len(members)

class World(object):
    def __init__(self, sim):
        self.sim = sim
        self.states = []
        self.ncomm = 0
        self.live = {}         # world rank -> number of live created communicators
        self.peak = {}
        self.limit = sim.params.get('comm_limit')
        self.addr_free = {}
        self.addr_next = 0x1000
        self.trace = []
        self.world_state = CommState(self, range(sim.n))
        self.world_handles = []
        self.self_handles = []
        for r in range(sim.n):
            self.world_handles.append(Intracomm._make(self.world_state, r, r, predefined=True, world=self))
            self.self_handles.append(Intracomm._make(CommState(self, [r]), 0, r, predefined=True, world=self))
    def next_comm(self):
        self.ncomm += 1
        return self.ncomm - 1
    def take_addr(self, rank):
        free = self.addr_free.setdefault(rank, [])
        if free:
            return free.pop()            # the allocator reuses the address just freed
        self.addr_next += 16
        return self.addr_next
    def comm_created(self, rank):
        n = self.live.get(rank, 0) + 1
        if self.limit is not None and n > self.limit:
            self.sim.probe('comm_limit_hit')
            raise Exception_(16, 'MPI_ERR_INTERN: no communicator left')
        self.live[rank] = n
        self.peak[rank] = max(n, self.peak.get(rank, 0))
    def leftover(self):
        """communication begun and never completed, after all ranks ended"""
        for st in self.states:
            if min(st.seq) != max(st.seq):
                r = st.seq.index(max(st.seq)); q = st.seq.index(min(st.seq))
                k = min(st.seq)
                op = st.recs[k].op if k in st.recs else '?'
                return 'on communicator %d (ranks %s) rank %d made %d collective calls, rank %d %d; the first it did not join is %s' % (st.id, st.members, st.members[r], max(st.seq), st.members[q], min(st.seq), op)
            for d, q in sorted(st.sends.items()):
                if q: return 'never received: %s' % q[0].desc()
            for d, q in sorted(st.recvs.items()):
                if q: return 'never sent: %s' % q[0].desc()
        return None
    def comm_dropped(self, rank):
        self.live[rank] = self.live.get(rank, 0) - 1

def _release_addr(world, rank, addr):
    world.addr_free.setdefault(rank, []).append(addr)

class Request(object):
    def __init__(self, kind=None, comm=None, msg=None, obj=False):
        self.kind, self.comm, self.msg, self.obj = kind, comm, msg, obj
    def _ready(self):
        if self.kind is None:
            return True
        m = self.msg
        if self.kind == 'send':
            return m.done or m.matched
        return m.matched
    def _finish(self):
        if self.kind is None:
            return None
        kind, m = self.kind, self.msg
        self.kind = None
        if not m.null and not m.done:
            m.deliver()
        if kind == 'recv':
            m.check()
            return m.object() if self.obj else None
        return None
    def Wait(self, status=None):
        s = sim()
        if self.kind is None:
            return True
        s.yield_()
        s.wait(self._ready, 'Wait(%s)' % self.msg.desc())
        m = self.msg
        r = self._finish()
        if status is not None: status._set(m)
        return True
    def wait(self, status=None):
        s = sim()
        if self.kind is None:
            return None
        s.yield_()
        s.wait(self._ready, 'wait(%s)' % self.msg.desc())
        m = self.msg
        r = self._finish()
        if status is not None: status._set(m)
        return r
    def Test(self, status=None):
        m = self.msg
        if sim().poll(self._ready):
            self._finish()
            if status is not None and m is not None: status._set(m)
            return True
        return False
    def test(self, status=None):
        m = self.msg
        if sim().poll(self._ready):
            r = self._finish()
            if status is not None and m is not None: status._set(m)
            return (True, r)
        return (False, None)
    def Get_status(self, status=None): return sim().poll(self._ready)
    def Cancel(self): raise SimUnsupported('Request.Cancel')
    def Free(self): self.kind = None
    @staticmethod
    def _all(reqs, obj):
        s = sim(); s.yield_()
        reqs = list(reqs)
        s.wait(lambda: all(r._ready() for r in reqs), 'Waitall(%s)' % ', '.join(r.msg.desc() for r in reqs if r.kind and not r._ready()))
        order = list(range(len(reqs)))
        if len(order) > 1 and s.choices.pick(2, 'reverse_completion'):
            order.reverse()
        out = [None] * len(reqs)
        for i in order:
            out[i] = reqs[i]._finish()
        return out
    @classmethod
    def Waitall(cls, requests, statuses=None):
        cls._all(requests, False); return True
    @classmethod
    def waitall(cls, requests, statuses=None):
        return cls._all(requests, True)
    @classmethod
    def Waitany(cls, requests, status=None):
        s = sim(); s.yield_()
        reqs = list(requests)
        live = [i for i, r in enumerate(reqs) if r.kind is not None]
        if not live:
            return UNDEFINED
        s.wait(lambda: any(reqs[i]._ready() for i in live), 'Waitany')
        ready = [i for i in live if reqs[i]._ready()]
        i = ready[s.choices.pick(len(ready), 'waitany')]
        reqs[i]._finish()
        return i
    @classmethod
    def waitany(cls, requests, status=None):
        s = sim(); s.yield_()
        reqs = list(requests)
        live = [i for i, r in enumerate(reqs) if r.kind is not None]
        if not live:
            return (UNDEFINED, None)
        s.wait(lambda: any(reqs[i]._ready() for i in live), 'waitany')
        ready = [i for i in live if reqs[i]._ready()]
        i = ready[s.choices.pick(len(ready), 'waitany')]
        return (i, reqs[i]._finish())
    @classmethod
    def Testall(cls, requests, statuses=None):
        requests = list(requests)
        if sim().poll(lambda: all(r._ready() for r in requests)):
            for r in requests: r._finish()
            return True
        return False
    @classmethod
    def testall(cls, requests, statuses=None):
        requests = list(requests)
        if sim().poll(lambda: all(r._ready() for r in requests)):
            return (True, [r._finish() for r in requests])
        return (False, None)
    @classmethod
    def Waitsome(cls, requests, statuses=None):
        s = sim(); s.yield_()
        reqs = list(requests)
        live = [i for i, r in enumerate(reqs) if r.kind is not None]
        if not live: return None
        s.wait(lambda: any(reqs[i]._ready() for i in live), 'Waitsome')
        ready = [i for i in live if reqs[i]._ready()]
        if len(ready) > 1 and s.choices.pick(2, 'waitsome'): ready = ready[:1]
        for i in ready: reqs[i]._finish()
        return ready
    @classmethod
    def waitsome(cls, requests, statuses=None):
        s = sim(); s.yield_()
        reqs = list(requests)
        live = [i for i, r in enumerate(reqs) if r.kind is not None]
        if not live: return (None, None)
        s.wait(lambda: any(reqs[i]._ready() for i in live), 'waitsome')
        ready = [i for i in live if reqs[i]._ready()]
        return (ready, [reqs[i]._finish() for i in ready])
    @classmethod
    def Testany(cls, requests, status=None):
        requests = list(requests)
        sim().poll(lambda: any(r.kind is not None and r._ready() for r in requests))
        for i, r in enumerate(requests):
            if r.kind is not None and r._ready():
                r._finish(); return (i, True)
        return (UNDEFINED, not any(r.kind is not None for r in requests))
    @classmethod
    def Startall(cls, requests): raise SimUnsupported('persistent requests')
REQUEST_NULL = Request()

class Status(object):
    def __init__(self): self.source = self.tag = -1; self.error = 0; self.nbytes = 0
    def _set(self, m):
        m = getattr(m, 'real', None) or m
        self.source, self.tag, self.nbytes = m.src_local, m.tag, m.nbytes
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag
    def Get_error(self): return self.error
    def Get_count(self, datatype=None): return self.nbytes // (datatype.size_ if datatype else 1)
    def Get_elements(self, datatype): return self.Get_count(datatype)

class Msg(object):
    """one point-to-point message, or one posted receive until it is matched to a message"""
    def __init__(self):
        self.null = False; self.done = False; self.matched = False
        self.payload = None; self.sendbuf = None; self.recvbuf = None
        self.src_local = self.dst_local = None; self.tag = 0; self.isobj = False
        self.late = False; self.eager = False; self.nbytes = 0; self.want = None; self.error = None
        self.comm = None
    def desc(self):
        return 'message %s->%s tag %s comm %s' % (self.src_local, self.dst_local, self.tag, self.comm.id if self.comm else '?')
    def capture(self):
        if self.payload is None:
            self.payload = bytes(self.sendbuf.data()) if not self.isobj else self.sendbuf
            self.nbytes = len(self.payload)
    def deliver(self):
        """copy the data from the send buffer to the receive buffer"""
        if self.done: return
        self.capture()
        self.done = True
        if self.recvbuf is not None and not self.isobj:
            n = self.recvbuf.count * self.recvbuf.item
            if len(self.payload) > n:
                self.error = 'message of %d bytes truncated to %d' % (len(self.payload), n)
            else:
                o = getattr(self.recvbuf, 'off', 0) * self.recvbuf.item
                self.recvbuf.bytes[o:o + len(self.payload)] = numpy.frombuffer(self.payload, 'u1')
    def check(self):
        if self.error:
            misuse('MPI_ERR_TRUNCATE: ' + self.error + ' (' + self.desc() + ')')
    def object(self):
        if self.null: return None
        if not self.isobj:
            raise SimUnsupported('object receive of a buffer message')
        return pickle.loads(self.payload)

class Group(object):
    def __init__(self, members, me): self.members, self.me = list(members), me
    @property
    def size(self): return len(self.members)
    @property
    def rank(self): return self.members.index(self.me) if self.me in self.members else UNDEFINED
    def Get_size(self): return self.size
    def Get_rank(self): return self.rank
    def Incl(self, ranks): return Group([self.members[r] for r in ranks], self.me)
    def Excl(self, ranks):
        x = set(ranks)
        return Group([m for i, m in enumerate(self.members) if i not in x], self.me)
    @classmethod
    def Union(cls, a, b): return Group(a.members + [m for m in b.members if m not in a.members], a.me)
    @classmethod
    def Intersection(cls, a, b): return Group([m for m in a.members if m in b.members], a.me)
    @classmethod
    def Difference(cls, a, b): return Group([m for m in a.members if m not in b.members], a.me)
    @classmethod
    def Translate_ranks(cls, a, ranks=None, b=None):
        if not isinstance(a, Group): raise TypeError('group')
        ranks = range(a.size) if ranks is None else ranks
        return [b.members.index(a.members[r]) if a.members[r] in b.members else UNDEFINED for r in ranks]
    def Free(self): pass

class Comm(object):
    _predefined = False
    _prefix = ''
    @classmethod
    def _make(cls, state, local, wrank, predefined=False, world=None):
        self = object.__new__(cls)
        self._st, self._local, self._wrank = state, local, wrank
        self._predefined = predefined
        self._freed = False
        self._attrs = {}
        w = state.world
        self._addr = w.take_addr(wrank)
        weakref.finalize(self, _release_addr, w, wrank, self._addr).atexit = False
        return self
    # -- identity
    def _check(self):
        if self._freed or self._st is None:
            raise Exception_(5, 'MPI_ERR_COMM: invalid communicator')
    @property
    def rank(self): self._check(); return self._local
    @property
    def size(self): self._check(); return len(self._st.members)
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def Get_name(self): return 'comm%d' % self._st.id
    def Set_name(self, name): pass
    @property
    def name(self): return self.Get_name()
    @property
    def is_intra(self): return True
    @property
    def is_inter(self): return False
    def Is_intra(self): return True
    def Is_inter(self): return False
    def Get_topology(self): return UNDEFINED
    def Get_errhandler(self): return None
    def Set_errhandler(self, h): pass
    def __eq__(self, other):
        if not isinstance(other, Comm): return NotImplemented
        if self._freed or other._freed: return self._freed and other._freed
        return self._st is other._st
    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r
    def __hash__(self): return id(self)
    def __bool__(self): return not self._freed and self._st is not None
    def Get_attr(self, k): return self._attrs.get(k)
    def Set_attr(self, k, v): self._attrs[k] = v
    @classmethod
    def Compare(cls, a, b):
        if a._st is b._st: return 0
        return 1 if a._st.members == b._st.members else 3
    def py2f(self): return self._st.id
    def Get_group(self): self._check(); return Group(self._st.members, self._wrank)
    @property
    def group(self): return self.Get_group()
    def Create(self, group):
        # a split by membership, in the order of the group
        inside = self._wrank in group.members
        return self.Split(0 if inside else UNDEFINED, group.members.index(self._wrank) if inside else 0)
    def Create_cart(self, *a, **k): raise SimUnsupported('Comm.Create_cart')
    def Abort(self, errorcode=0):
        sim().fail('abort', 'MPI_Abort(%s) called' % errorcode)
    def __reduce__(self): raise TypeError('cannot pickle communicator')
    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name in _MPI4PY_COMM_API:
            raise SimUnsupported('Comm.' + name)
        raise AttributeError("'mpi4py.MPI.Intracomm' object has no attribute %r" % name)

    # -- the collective engine
    def _coll(self, op, contrib, sig, need, combine, early_ok=True, data=b''):
        """enter collective number k of this communicator; block until need(rec) holds"""
        self._check()
        op = self._prefix + (op.lower() if self._prefix else op)
        s = sim()
        if s.ranks[s.cur] is not s.ranks[self._wrank]:
            s.fail('harness', 'communicator handle of rank %d used by rank %d' % (self._wrank, s.cur), harness=True)
        s.yield_()
        st, me = self._st, self._local
        k = st.seq[me]
        st.seq[me] += 1
        rank = s.ranks[s.cur]
        rank.ncoll += 1
        rank.calls.append((op, st.id))
        s.event(op, st.id, k, crc(data) if len(data) else 0)
        if rank.fault_at is not None:
            if rank.fault_at == 0:
                rank.fault_at = None
                rank.faults.append((op, st.id, k))
                s.probe('fault_mpi_error')
                # the others of this communicator fail in the same call, at their own time
                rec = st.recs.get(k)
                raise Exception_(17, 'injected failure in %s' % op)
            rank.fault_at -= 1
        rec = st.recs.get(k)
        if rec is None:
            rec = st.recs[k] = CollRec()
            rec.op, rec.sig, rec.contrib, rec.arrived, rec.cache, rec.left = op, sig, [None] * self.size, 0, {}, 0
            rec.early = bool(early_ok and s.choices.pick(2, 'early_exit'))
            rec.first = s.cur
            rec.order = None
        if rec.op != op:
            s.fail('mismatch', 'collective %d on communicator %d (ranks %s): rank %d calls %s where rank %d called %s'
                   % (k, st.id, st.members, s.cur, op, rec.first, rec.op))
        if rec.sig != sig:
            s.fail('mismatch', '%s number %d on communicator %d: rank %d passes %r where rank %d passed %r'
                   % (op, k, st.id, s.cur, sig, rec.first, rec.sig))
        rec.contrib[me] = (contrib,)
        rec.arrived += 1
        if op[0] == 'I':
            # non-blocking: entered now, completed by its request
            return CollRequest(self, rec, k, op, need, combine)
        s.wait(lambda: need(rec) if rec.early else rec.arrived == len(st.members), '%s #%d on comm %d' % (op, k, st.id))
        if rec.early and rec.arrived < len(st.members):
            s.probe('early_exit')
        out = combine(rec)
        rec.left += 1
        if rec.left == len(st.members):
            del st.recs[k]
        return out
    @staticmethod
    def _all(rec): return all(c is not None for c in rec.contrib)
    def _got(self, rec, r): return rec.contrib[r][0]
    def _root(self, root):
        if not (0 <= root < self.size):
            raise Exception_(8, 'MPI_ERR_ROOT: invalid root')
        return int(root)

    # -- synchronisation
    def Barrier(self):
        self._coll('Barrier', None, (), self._all, lambda rec: None, early_ok=False)
    barrier = Barrier

    # -- object collectives
    def _pk(self, obj): return pickle.dumps(obj, 4)
    def bcast(self, obj=None, root=0):
        root = self._root(root); me = self._local
        c = self._pk(obj) if me == root else None
        need = (lambda rec: True) if me == root else (lambda rec: rec.contrib[root] is not None)
        b = self._coll('bcast', c, (root,), need, lambda rec: self._got(rec, root), data=c or b'')
        return obj if me == root else pickle.loads(b)
    def gather(self, sendobj, root=0):
        root = self._root(root); me = self._local
        c = self._pk(sendobj)
        need = self._all if me == root else (lambda rec: True)
        return self._coll('gather', c, (root,), need, lambda rec: [pickle.loads(x[0]) for x in rec.contrib] if me == root else None, data=c)
    def scatter(self, sendobj=None, root=0):
        root = self._root(root); me = self._local
        c = None
        if me == root:
            sendobj = list(sendobj) if sendobj is not None else None
            if sendobj is None or len(sendobj) != self.size:
                raise ValueError('expecting %d items, got %s' % (self.size, None if sendobj is None else len(sendobj)))
            c = [self._pk(o) for o in sendobj]
        need = (lambda rec: True) if me == root else (lambda rec: rec.contrib[root] is not None)
        b = self._coll('scatter', c, (root,), need, lambda rec: self._got(rec, root)[me])
        return pickle.loads(b)
    def allgather(self, sendobj):
        c = self._pk(sendobj)
        return self._coll('allgather', c, (), self._all, lambda rec: [pickle.loads(x[0]) for x in rec.contrib], data=c)
    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != self.size:
            raise ValueError('expecting %d items, got %d' % (self.size, len(sendobj)))
        me = self._local
        c = [self._pk(o) for o in sendobj]
        return self._coll('alltoall', c, (), self._all, lambda rec: [pickle.loads(x[0][me]) for x in rec.contrib], data=b''.join(c))
    def _reduce_order(self, rec, op, n):
        if rec.order is None:
            order = list(range(n))
            if op.commute and n > 2:
                k = sim().choices.pick(4, 'reduce_order')
                if k == 1: order.reverse()
                elif k == 2: order = order[1:] + order[:1]
                elif k == 3: order = order[::2] + order[1::2]
            rec.order = order
        return rec.order
    def _fold(self, rec, op):
        vals = [pickle.loads(x[0]) for x in rec.contrib]
        # mpi4py keeps the order of the ranks when it reduces objects; how it groups them is its own affair
        k = sim().choices.pick(3, 'reduce_order') if len(vals) > 2 else 0
        if k == 2:
            while len(vals) > 1:
                vals = [op(vals[i], vals[i + 1]) if i + 1 < len(vals) else vals[i] for i in range(0, len(vals), 2)]
        while len(vals) > 1:
            vals = [op(vals[0], vals[1])] + vals[2:] if k == 0 else vals[:-2] + [op(vals[-2], vals[-1])]
        return self._pk(vals[0])
    def allreduce(self, sendobj, op=OPS['SUM']):
        c = self._pk(sendobj)
        def comb(rec):
            if 'r' not in rec.cache: rec.cache['r'] = self._fold(rec, op)
            return pickle.loads(rec.cache['r'])
        return self._coll('allreduce', c, (op.name,), self._all, comb, data=c)
    def reduce(self, sendobj, op=OPS['SUM'], root=0):
        root = self._root(root); me = self._local
        c = self._pk(sendobj)
        need = self._all if me == root else (lambda rec: True)
        return self._coll('reduce', c, (op.name, root), need, lambda rec: pickle.loads(self._fold(rec, op)) if me == root else None, data=c)
    def _scan(self, name, sendobj, op, upto):
        me = self._local
        c = self._pk(sendobj)
        idx = list(range(me + upto))
        def comb(rec):
            if not idx: return None
            acc = pickle.loads(rec.contrib[0][0])
            for i in idx[1:]: acc = op(acc, pickle.loads(rec.contrib[i][0]))
            return acc
        return self._coll(name, c, (op.name,), lambda rec: all(rec.contrib[i] is not None for i in idx), comb, data=c)
    def scan(self, sendobj, op=OPS['SUM']): return self._scan('scan', sendobj, op, 1)
    def exscan(self, sendobj, op=OPS['SUM']): return self._scan('exscan', sendobj, op, 0)

    # -- buffer collectives
    def _put(self, dst, src, what):
        if len(dst) != len(src):
            sim().fail('mismatch', '%s: %d bytes sent where %d are received' % (what, len(src), len(dst)))
        dst[...] = numpy.frombuffer(src, 'u1')
    def Bcast(self, buf, root=0):
        root = self._root(root); me = self._local
        b = Buf(buf, me != root)
        c = bytes(b.data()) if me == root else None
        need = (lambda rec: True) if me == root else (lambda rec: rec.contrib[root] is not None)
        def comb(rec):
            if me != root: self._put(b.data(), self._got(rec, root), 'Bcast')
        return self._coll('Bcast', c, (root,), need, comb, data=c or b'')
    def Allgather(self, sendbuf, recvbuf):
        n = self.size; me = self._local
        rb = Buf(recvbuf, True)
        blk = rb.count * rb.item // n
        c = bytes(rb.data()[me * blk:(me + 1) * blk]) if sendbuf is IN_PLACE else bytes(Buf(sendbuf, False).data())
        def comb(rec):
            d = rb.data()
            for i in range(n):
                self._put(d[i * blk:(i + 1) * blk], self._got(rec, i), 'Allgather')
        return self._coll('Allgather', c, (), self._all, comb, data=c)
    def Allgatherv(self, sendbuf, recvbuf):
        n = self.size; me = self._local
        rb = Buf(recvbuf, True, True, n)
        c = bytes(rb.block(me)) if sendbuf is IN_PLACE else bytes(Buf(sendbuf, False).data())
        def comb(rec):
            for i in range(n):
                self._put(rb.block(i), self._got(rec, i), 'Allgatherv')
        return self._coll('Allgatherv', c, (), self._all, comb, data=c)
    def Gather(self, sendbuf, recvbuf=None, root=0): return self._gatherx('Gather', sendbuf, recvbuf, root)
    def Gatherv(self, sendbuf, recvbuf=None, root=0): return self._gatherx('Gatherv', sendbuf, recvbuf, root)
    def _gatherx(self, name, sendbuf, recvbuf, root):
        root = self._root(root); me = self._local; n = self.size
        rb = Buf(recvbuf, True, True, n) if me == root else None
        c = bytes(rb.block(me)) if sendbuf is IN_PLACE else bytes(Buf(sendbuf, False).data())
        def comb(rec):
            if me == root:
                for i in range(n): self._put(rb.block(i), self._got(rec, i), name)
        need = self._all if me == root else (lambda rec: True)
        return self._coll(name, c, (root,), need, comb, data=c)
    def Scatter(self, sendbuf, recvbuf, root=0): return self._scatterx('Scatter', sendbuf, recvbuf, root)
    def Scatterv(self, sendbuf, recvbuf, root=0): return self._scatterx('Scatterv', sendbuf, recvbuf, root)
    def _scatterx(self, name, sendbuf, recvbuf, root):
        root = self._root(root); me = self._local; n = self.size
        c = None
        if me == root:
            sb = Buf(sendbuf, False, True, n)
            c = [bytes(sb.block(i)) for i in range(n)]
        rb = None if recvbuf is IN_PLACE else Buf(recvbuf, True)
        need = (lambda rec: True) if me == root else (lambda rec: rec.contrib[root] is not None)
        def comb(rec):
            if rb is not None: self._put(rb.data(), self._got(rec, root)[me], name)
        return self._coll(name, c, (root,), need, comb)
    def Alltoall(self, sendbuf, recvbuf): return self._a2a('Alltoall', sendbuf, recvbuf, False)
    def Alltoallv(self, sendbuf, recvbuf): return self._a2a('Alltoallv', sendbuf, recvbuf, True)
    def Alltoallw(self, sendbuf, recvbuf): raise SimUnsupported('Alltoallw')
    def _a2a(self, name, sendbuf, recvbuf, vector):
        n = self.size; me = self._local
        rb = Buf(recvbuf, True, True, n)
        sb = rb if sendbuf is IN_PLACE else Buf(sendbuf, False, True, n)
        if not vector:
            for b in (sb, rb):
                if len(set(b.counts)) > 1:
                    raise ValueError('message: expecting count multiple of %d' % n)
        c = [bytes(sb.block(i)) for i in range(n)]
        # what I expect from whom; a rank from which nothing comes need not be waited for
        expect = [rb.counts[i] * rb.item for i in range(n)]
        def need(rec):
            return all(rec.contrib[i] is not None for i in range(n) if expect[i] or not vector)
        def check(rec):
            for i in range(n):
                if rec.contrib[i] is None: continue
                self._put(rb.block(i), self._got(rec, i)[0][me], '%s from rank %d to rank %d' % (name, i, me))
            if rec.left == n - 1:
                # the last to leave sees the whole matrix of counts
                for i in range(n):
                    for j in range(n):
                        a, b = len(self._got(rec, i)[0][j]), self._got(rec, j)[1][i]
                        if a != b:
                            sim().fail('mismatch', '%s: rank %d sends %d bytes to rank %d, which receives %d' % (name, i, a, j, b))
        s = sim()
        if vector and any(len(x) == 0 for x in c): s.probe('alltoallv_zero_block')
        return self._coll(name, (c, expect), (), need, check, data=b''.join(c))
    def _reducex(self, name, sendbuf, recvbuf, op, root, scan=None):
        me = self._local; n = self.size
        if sendbuf is IN_PLACE or (isinstance(sendbuf, (list, tuple)) and len(sendbuf) and sendbuf[0] is IN_PLACE):
            rb = Buf(recvbuf, True)
            c = (bytes(rb.data()), str(rb.dt.np))
        else:
            sb = Buf(sendbuf, False)
            rb = Buf(recvbuf, True) if (root is None or me == root) else None
            c = (bytes(sb.data()), str(sb.dt.np))
            if rb is not None and rb.dt.np != sb.dt.np:
                s = sim(); s.fail('mismatch', '%s: send type %s, receive type %s' % (name, sb.dt.np, rb.dt.np))
        def fold(rec, idx):
            np = None
            acc = None
            for i in idx:
                b, t = self._got(rec, i)
                if np is None: np, ln = t, len(b)
                if t != np or len(b) != ln:
                    sim().fail('mismatch', '%s: rank %d contributes %d bytes of %s, others %d of %s' % (name, i, len(b), t, ln, np))
                v = numpy.frombuffer(b, numpy.dtype(t))
                acc = v if acc is None else op(acc, v)
            return numpy.asarray(acc, numpy.dtype(np)).tobytes()
        def comb(rec):
            if rb is None: return
            if scan is not None:
                idx = list(range(me + scan))
                if idx: self._put(rb.data(), fold(rec, idx), name)
                return
            if 'r' not in rec.cache:
                rec.cache['r'] = fold(rec, self._reduce_order(rec, op, n))
            self._put(rb.data(), rec.cache['r'], name)
        need = self._all
        if root is not None and me != root: need = lambda rec: True
        if scan is not None: need = lambda rec: all(rec.contrib[i] is not None for i in range(me + scan))
        return self._coll(name, c, (op.name, root), need, comb, data=c[0])
    def _reduce_scatterx(self, name, sendbuf, recvbuf, op, block):
        me = self._local; n = self.size
        rb = Buf(recvbuf, True)
        if sendbuf is IN_PLACE: raise SimUnsupported(name + ' in place')
        sb = Buf(sendbuf, False)
        if rb.dt.np != sb.dt.np: sim().fail('mismatch', '%s: send type %s, receive type %s' % (name, sb.dt.np, rb.dt.np))
        c = (bytes(sb.data()), str(sb.dt.np), len(rb.data()))
        def comb(rec):
            parts = [self._got(rec, i) for i in range(n)]
            want = [p[2] for p in parts]
            for i, p in enumerate(parts):
                if p[1] != parts[0][1] or len(p[0]) != sum(want) or block and p[2] != want[0]:
                    sim().fail('mismatch', '%s: rank %d contributes %d bytes of %s, the ranks receive %s' % (name, i, len(p[0]), p[1], want))
            if 'r' not in rec.cache:
                acc = None
                for i in self._reduce_order(rec, op, n):
                    v = numpy.frombuffer(parts[i][0], numpy.dtype(parts[i][1])); acc = v if acc is None else op(acc, v)
                rec.cache['r'] = numpy.asarray(acc, numpy.dtype(parts[0][1])).tobytes()
            o = sum(want[:me])
            self._put(rb.data(), rec.cache['r'][o:o + want[me]], name)
        return self._coll(name, c, (op.name,), self._all, comb, data=c[0])
    def Reduce_scatter(self, sendbuf, recvbuf, recvcounts=None, op=OPS['SUM']): return self._reduce_scatterx('Reduce_scatter', sendbuf, recvbuf, op, False)
    def Reduce_scatter_block(self, sendbuf, recvbuf, op=OPS['SUM']): return self._reduce_scatterx('Reduce_scatter_block', sendbuf, recvbuf, op, True)
    def Allreduce(self, sendbuf, recvbuf, op=OPS['SUM']): return self._reducex('Allreduce', sendbuf, recvbuf, op, None)
    def Reduce(self, sendbuf, recvbuf, op=OPS['SUM'], root=0): return self._reducex('Reduce', sendbuf, recvbuf, op, self._root(root))
    def Scan(self, sendbuf, recvbuf, op=OPS['SUM']): return self._reducex('Scan', sendbuf, recvbuf, op, None, 1)
    def Exscan(self, sendbuf, recvbuf, op=OPS['SUM']): return self._reducex('Exscan', sendbuf, recvbuf, op, None, 0)

    # -- communicator construction
    def Split(self, color=0, key=0):
        st, me = self._st, self._local
        w = st.world
        def comb(rec):
            groups = rec.cache.get('g')
            if groups is None:
                groups = {}
                info = [(c[0][0], c[0][1], i) for i, c in enumerate(rec.contrib)]
                for col in sorted(set(i[0] for i in info)):
                    if col == UNDEFINED: continue
                    mem = [i[2] for i in sorted(x for x in info if x[0] == col)]
                    groups[col] = (CommState(w, [st.members[m] for m in mem]), mem)
                rec.cache['g'] = groups
            return groups
        groups = self._coll('Split', (color, key), (), self._all, comb, early_ok=False)
        if color == UNDEFINED:
            return COMM_NULL
        state, mem = groups[color]
        w.comm_created(self._wrank)
        return Intracomm._make(state, mem.index(me), self._wrank)
    def Split_type(self, split_type=0, key=0, info=None): return self.Split(0, key)
    def Dup(self, info=None):
        st = self._st
        w = st.world
        def comb(rec):
            if 's' not in rec.cache: rec.cache['s'] = CommState(w, st.members)
            return rec.cache['s']
        state = self._coll('Dup', None, (), self._all, comb, early_ok=False)
        w.comm_created(self._wrank)
        return Intracomm._make(state, self._local, self._wrank)
    Clone = Dup
    def Free(self):
        self._check()
        if self._predefined:
            misuse('free of a predefined communicator')
        s = sim(); s.yield_()
        self._st.world.comm_dropped(self._wrank)
        self._freed = True
    Disconnect = Free

    # -- point to point
    def _post_send(self, buf, dest, tag, isobj, sync=False, nonblocking=False):
        self._check()
        s = sim(); s.yield_()
        m = Msg(); m.comm = self._st; m.tag = int(tag); m.src_local = self._local; m.dst_local = int(dest); m.isobj = isobj
        if dest == PROC_NULL:
            m.null = m.done = m.matched = True
            return m
        if not (0 <= dest < self.size):
            raise Exception_(6, 'MPI_ERR_RANK: invalid rank')
        if tag < 0: raise Exception_(4, 'MPI_ERR_TAG: invalid tag')
        m.sendbuf = self._pk(buf) if isobj else Buf(buf, False)
        # 0: eager, 1: rendezvous, data read as soon as matched, 2: rendezvous, data read at completion
        mode = s.choices.pick(3, 'rendezvous')
        if sync: mode = max(mode, 1)
        m.eager = mode == 0
        m.late = mode == 2 and nonblocking
        if mode: s.probe('rendezvous')
        if m.eager: m.capture()
        nb = m.sendbuf if isobj else m.sendbuf.data()
        s.event('send', self._st.id, m.dst_local, m.tag, len(nb), crc(nb) if len(nb) else 0)
        # match with the oldest posted receive
        for i, r in enumerate(self._st.recvs.get(m.dst_local, [])):
            src, rtag = r.want
            if src in (ANY_SOURCE, m.src_local) and rtag in (ANY_TAG, m.tag):
                self._st.recvs[m.dst_local].pop(i)
                self._join(m, r)
                break
        else:
            self._st.sends.setdefault(m.dst_local, []).append(m)
        return m
    def _join(self, m, r):
        """message m meets posted receive r: from now on both handles see m"""
        m.recvbuf = r.recvbuf
        m.matched = True
        r.real = m
        r.matched = True
        if not m.late or sim().choices.pick(2, 'late_completion') == 0:
            m.deliver()
        else:
            sim().probe('late_completion')
    def _post_recv(self, buf, source, tag, isobj):
        self._check()
        s = sim(); s.yield_()
        r = RecvMsg(); r.comm = self._st; r.want = (int(source), int(tag)); r.dst_local = self._local; r.src_local = source; r.tag = tag; r.isobj = isobj
        if source == PROC_NULL:
            r.null = r.done = r.matched = True
            return r
        if not (source == ANY_SOURCE or 0 <= source < self.size):
            raise Exception_(6, 'MPI_ERR_RANK: invalid rank')
        r.recvbuf = None if isobj else Buf(buf, True)
        q = self._st.sends.get(self._local, [])
        seen = {}
        for i, m in enumerate(q):
            if source in (ANY_SOURCE, m.src_local) and tag in (ANY_TAG, m.tag) and m.src_local not in seen:
                seen[m.src_local] = i
        if seen:
            idx = sorted(seen.values())
            i = idx[s.choices.pick(len(idx), 'any_source')]
            self._join(q.pop(i), r)
        else:
            self._st.recvs.setdefault(self._local, []).append(r)
        s.event('recv', self._st.id, source, tag)
        return r
    def Send(self, buf, dest, tag=0, _obj=False, _sync=False):
        m = self._post_send(buf, dest, tag, _obj, _sync)
        if not m.eager and not m.null:
            sim().wait(lambda: m.matched, 'Send(%s)' % m.desc())
            m.deliver()
    def Ssend(self, buf, dest, tag=0): self.Send(buf, dest, tag, _sync=True)
    def Bsend(self, buf, dest, tag=0):
        self._post_send(buf, dest, tag, False).capture()
    Rsend = Send
    def send(self, obj, dest, tag=0): self.Send(obj, dest, tag, _obj=True)
    def ssend(self, obj, dest, tag=0): self.Send(obj, dest, tag, _obj=True, _sync=True)
    bsend = send
    def Isend(self, buf, dest, tag=0, _obj=False, _sync=False):
        m = self._post_send(buf, dest, tag, _obj, _sync, nonblocking=True)
        r = Request('send', self, m)
        if m.eager: m.sent = True
        return SendRequest('send', self, m)
    def Issend(self, buf, dest, tag=0): return self.Isend(buf, dest, tag, _sync=True)
    def isend(self, obj, dest, tag=0): return self.Isend(obj, dest, tag, _obj=True)
    def issend(self, obj, dest, tag=0): return self.Isend(obj, dest, tag, _obj=True, _sync=True)
    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = self._post_recv(buf, source, tag, False)
        sim().wait(lambda: r.matched, 'Recv(%s)' % r.desc())
        r.finish()
        if status is not None and not r.null: status._set(r.real)
    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = self._post_recv(None, source, tag, True)
        sim().wait(lambda: r.matched, 'recv(%s)' % r.desc())
        r.finish()
        if status is not None and not r.null: status._set(r.real)
        return r.object()
    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return RecvRequest('recv', self, self._post_recv(buf, source, tag, False))
    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return RecvRequest('recv', self, self._post_recv(None, source, tag, True), obj=True)
    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        q = self.Irecv(recvbuf, source, recvtag)
        p = self.Isend(sendbuf, dest, sendtag)
        Request.Waitall([q, p])
    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        q = self.irecv(source=source, tag=recvtag)
        p = self.isend(sendobj, dest, sendtag)
        return Request.waitall([q, p])[0]
    def Sendrecv_replace(self, buf, dest, sendtag=0, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        b = Buf(buf, True)
        tmp = numpy.frombuffer(bytes(b.data()), 'u1').copy()
        q = self.Irecv(buf, source, recvtag)
        p = self.Isend([tmp, PRE['BYTE']], dest, sendtag)
        Request.Waitall([q, p])
    def _probe(self, source, tag):
        for m in self._st.sends.get(self._local, []):
            if source in (ANY_SOURCE, m.src_local) and tag in (ANY_TAG, m.tag): return m
        return None
    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim().poll(lambda: self._probe(source, tag) is not None)
        m = self._probe(source, tag)
        if m is not None and status is not None:
            if m.payload is None: m.nbytes = len(m.sendbuf if m.isobj else m.sendbuf.data())
            status._set(m)
        return m is not None
    iprobe = Iprobe
    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        s = sim(); s.yield_()
        s.wait(lambda: self._probe(source, tag) is not None, 'Probe')
        m = self._probe(source, tag)
        if status is not None:
            if m.payload is None: m.nbytes = len(m.sendbuf if m.isobj else m.sendbuf.data())
            status._set(m)
        return True
    probe = Probe
    # -- non-blocking collectives: the data to send are those at the call
    def _nb(self, f, *a, **k):
        self._prefix = 'I'
        try: return f(*a, **k)
        finally: self._prefix = ''
    def Ibarrier(self): return self._coll('Ibarrier', None, (), self._all, lambda rec: None, early_ok=False)
    ibarrier = Ibarrier
    def Ibcast(self, buf, root=0): return self._nb(self.Bcast, buf, root)
    def Iallgather(self, sendbuf, recvbuf): return self._nb(self.Allgather, sendbuf, recvbuf)
    def Iallgatherv(self, sendbuf, recvbuf): return self._nb(self.Allgatherv, sendbuf, recvbuf)
    def Igather(self, sendbuf, recvbuf=None, root=0): return self._nb(self.Gather, sendbuf, recvbuf, root)
    def Igatherv(self, sendbuf, recvbuf=None, root=0): return self._nb(self.Gatherv, sendbuf, recvbuf, root)
    def Iscatter(self, sendbuf, recvbuf, root=0): return self._nb(self.Scatter, sendbuf, recvbuf, root)
    def Iscatterv(self, sendbuf, recvbuf, root=0): return self._nb(self.Scatterv, sendbuf, recvbuf, root)
    def Ialltoall(self, sendbuf, recvbuf): return self._nb(self.Alltoall, sendbuf, recvbuf)
    def Ialltoallv(self, sendbuf, recvbuf): return self._nb(self.Alltoallv, sendbuf, recvbuf)
    def Iallreduce(self, sendbuf, recvbuf, op=OPS['SUM']): return self._nb(self.Allreduce, sendbuf, recvbuf, op)
    def Ireduce_scatter(self, sendbuf, recvbuf, recvcounts=None, op=OPS['SUM']): return self._nb(self.Reduce_scatter, sendbuf, recvbuf, recvcounts, op)
    def Ireduce_scatter_block(self, sendbuf, recvbuf, op=OPS['SUM']): return self._nb(self.Reduce_scatter_block, sendbuf, recvbuf, op)
    def Ireduce(self, sendbuf, recvbuf, op=OPS['SUM'], root=0): return self._nb(self.Reduce, sendbuf, recvbuf, op, root)
    def Iscan(self, sendbuf, recvbuf, op=OPS['SUM']): return self._nb(self.Scan, sendbuf, recvbuf, op)
    def Iexscan(self, sendbuf, recvbuf, op=OPS['SUM']): return self._nb(self.Exscan, sendbuf, recvbuf, op)
    def Idup(self, info=None): raise SimUnsupported('Idup')

class CollRequest(Request):
    """a collective this rank has entered and not completed"""
    def __init__(self, comm, rec, k, op, need, combine):
        self.kind, self.obj, self.comm = 'coll', False, comm
        self.rec, self.k, self.op, self.need, self.combine = rec, k, op, need, combine
        self.msg = self
        self.src_local = self.tag = -1; self.nbytes = 0
    def desc(self): return '%s #%d on comm %d' % (self.op, self.k, self.comm._st.id)
    def _ready(self):
        if self.kind is None: return True
        return self.need(self.rec) if self.rec.early else self.rec.arrived == len(self.comm._st.members)
    def _finish(self):
        if self.kind is None: return None
        self.kind = None
        self.combine(self.rec)
        self.rec.left += 1
        if self.rec.left == len(self.comm._st.members): del self.comm._st.recs[self.k]

class RecvMsg(Msg):
    def __init__(self):
        Msg.__init__(self); self.real = None
    def deliver(self):
        if self.real is not None: self.real.deliver()
    def finish(self):
        if self.null: return
        self.real.deliver(); self.real.check()
    def check(self):
        if self.real is not None: self.real.check()
    def object(self):
        return None if self.null else self.real.object()

class SendRequest(Request):
    def _ready(self):
        if self.kind is None: return True
        m = self.msg
        return m.null or m.eager or m.matched
    def _finish(self):
        if self.kind is None: return None
        self.kind = None
        m = self.msg
        if not m.null and not m.eager and not m.done:
            m.deliver()
        return None

class RecvRequest(Request):
    def _finish(self):
        if self.kind is None: return None
        self.kind = None
        self.msg.finish()
        return self.msg.object() if self.obj else None

class Intracomm(Comm): pass

class _NullComm(Intracomm):
    def __init__(self): self._st = None; self._freed = True; self._predefined = True
    def __bool__(self): return False
    def __eq__(self, o): return isinstance(o, _NullComm)
    def __ne__(self, o): return not isinstance(o, _NullComm)
    def __hash__(self): return 0
COMM_NULL = object.__new__(_NullComm); COMM_NULL.__init__()

_MPI4PY_COMM_API = set('''Accept Ack_failed Agree Alltoallw Attach_buffer Bsend_init Call_errhandler Connect Create_dist_graph
Create_dist_graph_adjacent Create_graph Create_group Create_intercomm Cart_map Graph_map Iagree Iallgather Iallgatherv Iallreduce Ialltoall
Ialltoallv Ialltoallw Ibarrier Ibcast Ibsend Idup Iexscan Iflush_buffer Igather Igatherv Improbe Ireduce Ireduce_scatter Ireduce_scatter_block
Irsend Iscan Iscatter Iscatterv Isendrecv Ishrink Mprobe Recv_init Reduce_scatter Reduce_scatter_block Reduce_local Revoke Rsend_init Send_init Shrink Spawn
Spawn_multiple Ssend_init allgatherv mprobe improbe info topology group Get_info Set_info Get_parent Get_failed Get_dist_neighbors ibsend
Neighbor_allgather neighbor_allgather Create_errhandler Create_keyval Delete_attr Get_remote_group Publish_name'''.split())

def _addressof(obj):
    if isinstance(obj, Comm): return obj._addr
    return id(obj)
def _handleof(obj):
    if isinstance(obj, Comm): return obj._st.id
    return id(obj)

class MPIModule(types.ModuleType):
    """stands for mpi4py.MPI; the world and self communicators are those of the running rank"""
    @property
    def COMM_WORLD(self):
        s = Sim.current
        if s is None:
            raise SimUnsupported('COMM_WORLD outside of a simulation')
        return s.mpi.world_handles[s.cur]
    @property
    def COMM_SELF(self):
        s = Sim.current
        if s is None:
            raise SimUnsupported('COMM_SELF outside of a simulation')
        return s.mpi.self_handles[s.cur]
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise SimUnsupported('mpi4py.MPI.%s' % name)

class _Info(object):
    def __init__(self): self.d = {}
    @classmethod
    def Create(cls): return cls()
    def Set(self, k, v): self.d[k] = v
    def Get(self, k): return self.d.get(k)
    def Free(self): pass

def _build():
    m = MPIModule('mpi4py.MPI')
    d = m.__dict__
    d.update(PRE); d.update(OPS)
    d.update(Exception=Exception_, Comm=Comm, Intracomm=Intracomm, Datatype=Datatype, Op=Op, Request=Request, Group=Group, Status=Status, Info=_Info,
             IN_PLACE=IN_PLACE, BOTTOM=BOTTOM, ANY_SOURCE=ANY_SOURCE, ANY_TAG=ANY_TAG, PROC_NULL=PROC_NULL, UNDEFINED=UNDEFINED, ROOT=ROOT,
             COMM_NULL=COMM_NULL, REQUEST_NULL=REQUEST_NULL, DATATYPE_NULL=DATATYPE_NULL, OP_NULL=None, INFO_NULL=None, SUCCESS=0,
             ERRORS_RETURN='errors_return', ERRORS_ARE_FATAL='errors_are_fatal', COMM_TYPE_SHARED=1, IDENT=0, CONGRUENT=1, SIMILAR=2, UNEQUAL=3,
             THREAD_SINGLE=0, THREAD_FUNNELED=1, THREAD_SERIALIZED=2, THREAD_MULTIPLE=3, TAG_UB=2 ** 30, MAX_PROCESSOR_NAME=256,
             VERSION=3, SUBVERSION=1, Wtime=lambda: sim().wtime(), Wtick=lambda: 1e-9, Get_processor_name=lambda: 'sim',
             Is_initialized=lambda: True, Is_finalized=lambda: False, Init=lambda: None, Finalize=lambda: None, Query_thread=lambda: 0,
             Get_version=lambda: (3, 1), Get_library_version=lambda: 'simulated', get_vendor=lambda: ('Simulated MPI', (1, 0, 0)),
             _addressof=_addressof, _handleof=_handleof, _sizeof=lambda o: 8, _typedict=_TYPEDICT, _typedict_c=_TYPEDICT, __TypeDict__=_TYPEDICT,
             pickle=pickle, memory=memoryview, buffer=memoryview)
    return m

def install():
    """put the simulated modules in the place of mpi4py"""
    if 'mpi4py' in sys.modules and not getattr(sys.modules['mpi4py'], '_simulated', False):
        raise SimUnsupported('the real mpi4py is already imported')
    pkg = types.ModuleType('mpi4py')
    pkg._simulated = True
    pkg.__path__ = []
    pkg.__version__ = '4.1.2'
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True, threads=True)
    MPI = _build()
    pkg.MPI = MPI
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = MPI
    return MPI
