"""Simulated pfft (the interface of pfft-python that this version of pmesh is written for:
LocalBuffer(partition, base), process meshes of the full dimension). Partition geometry of the
(n-1)-dimensional process meshes is that of the installed pfft 0.1.12 (tools/pfft_conformance.py
compares them); the transform gathers the global array and uses numpy."""
import sys, types, itertools, math
import numpy
from .core import Sim, SimUnsupported
from . import mpi

class Flags(int):
    PFFT_TRANSPOSED_NONE = 0
    PFFT_TRANSPOSED_IN = 1 << 0
    PFFT_TRANSPOSED_OUT = 1 << 1
    PFFT_SHIFTED_NONE = 0
    PFFT_SHIFTED_IN = 1 << 2
    PFFT_SHIFTED_OUT = 1 << 3
    PFFT_MEASURE = 0
    PFFT_ESTIMATE = 1 << 4
    PFFT_PATIENT = 1 << 5
    PFFT_EXHAUSTIVE = 1 << 6
    PFFT_NO_TUNE = 0
    PFFT_TUNE = 1 << 7
    PFFT_PRESERVE_INPUT = 1 << 8
    PFFT_DESTROY_INPUT = 1 << 9
    PFFT_BUFFERED_INPLACE = 1 << 10
    PFFT_PADDED_R2C = 1 << 11
    PFFT_PADDED_C2R = 1 << 12
class Type(int):
    PFFT_C2C, PFFT_R2C, PFFT_C2R, PFFT_R2R, PFFTF_C2C, PFFTF_R2C, PFFTF_C2R, PFFTF_R2R = range(8)
class Direction(int):
    PFFT_FORWARD = -1
    PFFT_BACKWARD = 1

def split_size_2d(s):
    a = int(s ** 0.5 + 1)
    while s % a: a -= 1
    return a, s // a

class ProcMesh(object):
    def __init__(self, np, comm=None):
        s = mpi.sim()
        if comm is None:
            comm = s.mpi.world_handles[s.cur]
        np = tuple(int(i) for i in np)
        if int(numpy.prod(np, dtype='i8')) != comm.size:
            raise ValueError("The shape of the process mesh, %s, does not agree with the size of communicator, %d" % (np, comm.size))
        self.np = numpy.array(np, dtype='intp')
        self.ndim = len(np)
        self.comm = comm
        st = comm._st
        w = st.world
        # one cartesian communicator and one per direction: collective calls
        def comb(rec):
            if 'perm' not in rec.cache:
                # MPI may reorder the ranks in a cartesian communicator; it does so alike every time
                n = len(st.members)
                orders = s.__dict__.setdefault('cart_orders', {})
                key = (tuple(st.members), np)
                if key in orders:
                    rec.cache['perm'] = orders[key]
                    return orders[key]
                perm = list(range(n))
                k = s.choices.pick(4, 'cart_order') if n > 1 else 0
                if k == 1: perm.reverse()
                elif k == 2: perm = perm[1:] + perm[:1]
                elif k == 3: perm = perm[::2] + perm[1::2]
                if k: s.probe('cart_order')
                rec.cache['perm'] = orders[key] = perm
            return rec.cache['perm']
        perm = comm._coll('ProcMesh', None, (np,), comm._all, comb, early_ok=False)
        self._ncomm = 0
        try:
            for i in range(1 + self.ndim):
                w.comm_created(comm._wrank)
                self._ncomm += 1
        except mpi.Exception_:
            for i in range(self._ncomm): w.comm_dropped(comm._wrank)
            self._ncomm = 0
            raise RuntimeError("Failed to create communication mesh")
        self._world, self._wrank = w, comm._wrank
        self.perm = perm
        self.rank = comm.rank
        self.this = numpy.array(numpy.unravel_index(perm[comm.rank], np) if np else [], dtype='intp')
    def __del__(self):
        for i in range(getattr(self, '_ncomm', 0)):
            self._world.comm_dropped(self._wrank)

def _blocks(n, p):
    """PFFT's default block distribution: ceil(n/p), trailing blocks may be empty"""
    b = -(-n // p)
    return [min(i * b, n) for i in range(p + 1)]

class Partition(object):
    def __init__(self, type, n, procmesh, flags):
        n = [int(i) for i in n]
        self.type = int(type); self.flags = int(flags); self.procmesh = procmesh
        self.n = numpy.array(n, dtype='intp')
        self.ndim = nd = len(n)
        np = [int(i) for i in procmesh.np]
        if len(np) > nd:
            raise ValueError("ProcMesh (%d) shall have no more dimentions than Mesh (%d)" % (len(np), nd))
        padded = bool(self.flags & (Flags.PFFT_PADDED_R2C | Flags.PFFT_PADDED_C2R))
        if len(np) == nd and padded:
            raise ValueError("padded transforms are not supported on a full process mesh")
        if len(np) < 1 and nd > 1:
            raise ValueError("process mesh of %d dimensions for a mesh of %d" % (len(np), nd))
        self.full = len(np) == nd
        self.r2c = self.type in (Type.PFFT_R2C, Type.PFFTF_R2C)
        if not self.r2c and self.type not in (Type.PFFT_C2C, Type.PFFTF_C2C):
            raise SimUnsupported('Partition type %d' % self.type)
        self.single = self.type in (Type.PFFTF_R2C, Type.PFFTF_C2C)
        self.i_dtype = numpy.dtype(('f4' if self.single else 'f8') if self.r2c else ('c8' if self.single else 'c16'))
        self.o_dtype = numpy.dtype('c8' if self.single else 'c16')
        self.transposed = bool(self.flags & Flags.PFFT_TRANSPOSED_OUT)
        no = list(n)
        if self.r2c: no[-1] = n[-1] // 2 + 1
        self.n_o = no
        self.i_edges, self.o_edges = [], []
        for d in range(nd):
            self.i_edges.append(_blocks(n[d], np[d]) if d < len(np) else [0, n[d]])
        if self.transposed and not self.full:
            for d in range(nd):
                self.o_edges.append([0, no[d]] if d == 0 or d > len(np) else _blocks(no[d], np[d - 1]))
        else:
            for d in range(nd):
                self.o_edges.append(_blocks(no[d], np[d]) if d < len(np) else [0, no[d]])
        self.i_edges = [numpy.array(e, dtype='intp') for e in self.i_edges]
        self.o_edges = [numpy.array(e, dtype='intp') for e in self.o_edges]
        geo = self._local(procmesh.this)
        (self.local_i_start, self.local_i_shape), (self.local_o_start, self.local_o_shape) = geo
        ish, osh = list(self.local_i_shape), list(self.local_o_shape)
        self.local_ni, self.local_no = self.local_i_shape.copy(), self.local_o_shape.copy()
        ni = list(ish)
        if self.r2c and padded and not self.full:
            ni[-1] = 2 * (n[-1] // 2 + 1)
            self.local_ni[-1] = ni[-1]
        it = self.i_dtype.itemsize
        st, k = [], it
        for d in reversed(range(nd)):
            st.insert(0, k); k *= max(ni[d], 0) if ni[d] > 0 else 1
        self.local_i_strides = numpy.array(st, dtype='intp')
        order = list(range(1, len(np) + 1)) + [0] + list(range(len(np) + 1, nd)) if self.transposed and not self.full else (list(range(1, nd)) + [0] if self.transposed else list(range(nd)))
        ost = [0] * nd
        k = self.o_dtype.itemsize
        for d in reversed(order):
            ost[d] = k; k *= osh[d] if osh[d] > 0 else 1
        self.local_o_strides = numpy.array(ost, dtype='intp')
        self.i_dtypes = self.i_dtype; self.o_dtypes = self.o_dtype
        self.local_i_slice = tuple(slice(a, a + b) for a, b in zip(self.local_i_start, self.local_i_shape))
        self.local_o_slice = tuple(slice(a, a + b) for a, b in zip(self.local_o_start, self.local_o_shape))
        # memory enough for either layout of the output
        need_i = int(numpy.prod([max(i, 0) for i in ni])) * it
        tr = _o_shapes(self, procmesh)
        need_o = max(int(numpy.prod(x)) for x in tr) * self.o_dtype.itemsize
        self.alloc_bytes = max(need_i, need_o, 16)
        self.alloc_local = -(-self.alloc_bytes // self.o_dtype.itemsize)
    def _where(self, edges, dims, this):
        start, shape = [], []
        for e, p in zip(edges, dims):
            i = 0 if p is None else int(this[p])
            a, b = int(e[i]), int(e[i + 1])
            start.append(a if b > a else 0); shape.append(b - a)   # PFFT: an empty block starts at 0
        return numpy.array(start, dtype='intp'), numpy.array(shape, dtype='intp')
    def _dims(self, transposed):
        nd, k = self.ndim, self.procmesh.ndim
        if transposed and not self.full:
            return [None] + [d if d < k else None for d in range(nd - 1)]
        return [d if d < k else None for d in range(nd)]
    def _local(self, this):
        return self._where(self.i_edges, self._dims(False), this), self._where(self.o_edges, self._dims(self.transposed), this)
    def geometry(self, local):
        """(start, shape) of input and output on rank `local` of the communicator"""
        pm = self.procmesh
        this = numpy.unravel_index(pm.perm[local], tuple(pm.np)) if pm.ndim else ()
        return self._local(this)

def _o_shapes(p, procmesh):
    out = []
    for tr in (False, True):
        if tr and not p.full:
            edges = [numpy.array([0, p.n_o[0]])] + [numpy.array(_blocks(p.n_o[d], int(procmesh.np[d - 1])) if d <= procmesh.ndim else [0, p.n_o[d]]) for d in range(1, p.ndim)]
        else:
            edges = [numpy.array(_blocks(p.n_o[d], int(procmesh.np[d]))) if d < procmesh.ndim else numpy.array([0, p.n_o[d]]) for d in range(p.ndim)]
        out.append(p._where(edges, p._dims(tr), procmesh.this)[1])
    return out

GUARD = 192
def overrun(guards):
    for w in guards:
        if (w[:GUARD] != 0xa7).any() or (w[len(w) - GUARD:] != 0xa7).any():
            return 'memory next to a pfft buffer of %d bytes was written to' % (len(w) - 2 * GUARD)
class LocalBuffer(object):
    def __init__(self, partition, base=None):
        self.partition = partition
        if base is None:
            s = mpi.sim()
            # nothing may be written just before or after the buffer
            whole = numpy.full(partition.alloc_bytes + 2 * GUARD, 0xa7, 'u1')
            self.mem = whole[GUARD:len(whole) - GUARD]
            s.guards.append(whole)
            from . import poison
            poison.fill(self.mem)
        else:
            if not isinstance(base, LocalBuffer):
                raise TypeError('base must be a LocalBuffer')
            if len(base.mem) < partition.alloc_bytes:
                raise ValueError('base buffer of %d bytes is too small, %d needed' % (len(base.mem), partition.alloc_bytes))
            self.mem = base.mem
    def __contains__(self, other):
        return isinstance(other, LocalBuffer) and other.mem is self.mem
    def _view(self, shape, dtype, strides, type):
        # the base of the array is this buffer, as in pfft-python
        v = numpy.ndarray(shape, dtype, buffer=self.mem, strides=strides)
        self.__array_interface__ = dict(v.__array_interface__, data=(self.address, False), strides=tuple(strides))
        try: a = numpy.asarray(self)
        finally: del self.__array_interface__
        return a if type is numpy.ndarray else a.view(type=type)
    def view_input(self, type=numpy.ndarray):
        p = self.partition
        return self._view(tuple(int(i) for i in p.local_i_shape), p.i_dtype, tuple(int(i) for i in p.local_i_strides), type)
    def view_output(self, type=numpy.ndarray):
        p = self.partition
        return self._view(tuple(int(i) for i in p.local_o_shape), p.o_dtype, tuple(int(i) for i in p.local_o_strides), type)
    def view_raw(self, type=numpy.ndarray):
        return self.mem.view(self.partition.o_dtype)
    @property
    def address(self):
        return self.mem.ctypes.data

class Plan(object):
    def __init__(self, partition, direction, i, o=None, type=None, flags=None):
        self.partition = partition
        self.direction = int(direction)
        if self.direction not in (Direction.PFFT_FORWARD, Direction.PFFT_BACKWARD):
            raise ValueError('direction must be forward or backward')
        if o is None: o = i
        self.inplace = i.mem is o.mem
        self.type = partition.type if type is None else int(type)
        self.flags = partition.flags if flags is None else int(flags)
        # which side of the partition the input and output of this plan are
        fwd = self.direction == Direction.PFFT_FORWARD
        t = self.flags & (Flags.PFFT_TRANSPOSED_OUT if fwd else Flags.PFFT_TRANSPOSED_IN)
        wrong = self.flags & (Flags.PFFT_TRANSPOSED_IN if fwd else Flags.PFFT_TRANSPOSED_OUT)
        if bool(t) != partition.transposed or wrong:
            raise RuntimeError('Plan is not created: flags of plan and partition disagree')
        expect = {Type.PFFT_R2C: Type.PFFT_C2R, Type.PFFTF_R2C: Type.PFFTF_C2R}.get(partition.type, partition.type)
        if self.type != (partition.type if fwd else expect):
            raise RuntimeError('Plan is not created: type of plan and partition disagree')
        comm = partition.procmesh.comm
        sig = (tuple(int(k) for k in partition.n), self.direction, self.type, self.flags, self.inplace)
        comm._coll('Plan', None, sig, comm._all, lambda rec: None, early_ok=False)
        self.sig = sig
        self.pmflags = self.flags
    def execute(self, i, o=None):
        if o is None: o = i
        p = self.partition
        s = mpi.sim()
        for b in (i, o):
            if len(b.mem) < p.alloc_bytes:
                s.fail('misuse', 'pfft: buffer too small for the plan')
        if (i.mem is o.mem) != self.inplace:
            # PFFT plans are made for one of the two; executing the other gives garbage
            s.fail('misuse', 'pfft: %s plan executed on %s buffers' % (('in-place', 'separate') if self.inplace else ('out-of-place', 'the same')))
        fwd = self.direction == Direction.PFFT_FORWARD
        def view(buf, side):
            return numpy.ndarray(tuple(p.local_i_shape if side == 'i' else p.local_o_shape), p.i_dtype if side == 'i' else p.o_dtype,
                                 buffer=buf.mem, strides=tuple(p.local_i_strides if side == 'i' else p.local_o_strides))
        src = view(i, 'i' if fwd else 'o').copy()
        comm = p.procmesh.comm
        n = [int(k) for k in p.n]
        def comb(rec):
            if 'g' not in rec.cache:
                g = numpy.zeros(n if fwd else p.n_o, 'f8' if (fwd and p.r2c) else 'c16')
                for r in range(comm.size):
                    (a, sh), (b, so) = p.geometry(r)
                    st, shp = (a, sh) if fwd else (b, so)
                    g[tuple(slice(x, x + y) for x, y in zip(st, shp))] = rec.contrib[r][0]
                with numpy.errstate(all='ignore'):
                    if fwd:
                        out = numpy.fft.rfftn(g) if p.r2c else numpy.fft.fftn(g)
                    else:
                        N = float(numpy.prod(n))
                        out = c2r(g, n) if p.r2c else numpy.fft.ifftn(g) * N
                rec.cache['g'] = out
            return rec.cache['g']
        g = comm._coll('execute', src, self.sig, comm._all, comb, early_ok=False, data=src.tobytes())
        if i.mem is not o.mem and not (self.flags & Flags.PFFT_PRESERVE_INPUT):
            from . import poison
            poison.fill(i.mem)
        if i.mem is o.mem or True:
            # everything of the output buffer that is not part of the result is scratch space
            from . import poison
            if i.mem is o.mem or s.params.get('poison'):
                poison.fill(o.mem)
        dst = view(o, 'o' if fwd else 'i')
        st, sh = (p.local_o_start, p.local_o_shape) if fwd else (p.local_i_start, p.local_i_shape)
        with numpy.errstate(all='ignore'):
            dst[...] = g[tuple(slice(x, x + y) for x, y in zip(st, sh))]

def c2r(g, n):
    """unnormalised backward transform of the stored half, as FFTW computes it"""
    nd = len(n)
    g = g.copy()
    if nd > 1:
        ax = tuple(range(nd - 1))
        g = numpy.fft.ifftn(g, axes=ax) * float(numpy.prod(n[:-1]))
    return numpy.fft.irfft(g, n[-1], axis=-1) * n[-1]

def install():
    m = types.ModuleType('pfft')
    m._simulated = True
    m.__version__ = '0.1.16'
    for c in (Flags, Type, Direction, ProcMesh, Partition, LocalBuffer, Plan, split_size_2d):
        setattr(m, c.__name__, c)
    m.MPI = sys.modules['mpi4py.MPI']
    sys.modules['pfft'] = m
    core = types.ModuleType('pfft.core'); core.__dict__.update({k: v for k, v in m.__dict__.items() if not k.startswith('__')})
    sys.modules['pfft.core'] = core
    return m
