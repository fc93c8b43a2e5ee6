"""Run under mpirun: dumps what the real pfft says about partitions, as JSON lines on rank 0."""
import sys, json, itertools
import numpy, pfft
from mpi4py import MPI
comm = MPI.COMM_WORLD
def conv(x):
    if isinstance(x, (list, tuple)): return [conv(i) for i in x]
    if isinstance(x, numpy.ndarray): return x.tolist()
    if isinstance(x, numpy.generic): return x.item()
    return x
def nps(ndim, size):
    out = []
    for k in (ndim - 1, ndim):
        if k == 0:
            if size == 1: out.append([])
            continue
        for t in itertools.product(range(1, size + 1), repeat=k):
            if numpy.prod(t) == size: out.append(list(t))
    return out
shapes = [[8, 8, 8], [4, 6, 5], [5, 3, 2], [2, 2, 2], [7, 1, 4], [3, 9, 6], [8, 8], [5, 4], [3, 7], [2, 9], [1, 1]] 
if len(sys.argv) > 2: shapes = json.loads(sys.argv[2])
F = pfft.Flags
rows = []
for n in shapes:
    for np in nps(len(n), comm.size):
        pm = pfft.ProcMesh(np, comm=comm)
        for transposed in (False, True):
            for typ in ('PFFT_R2C', 'PFFTF_R2C', 'PFFT_C2C', 'PFFTF_C2C'):
                pad = F.PFFT_DESTROY_INPUT if len(np) == len(n) else (F.PFFT_PRESERVE_INPUT | F.PFFT_PADDED_R2C | F.PFFT_PADDED_C2R)
                fl = pad | (F.PFFT_TRANSPOSED_OUT if transposed else 0)
                try:
                    p = pfft.Partition(getattr(pfft.Type, typ), n, pm, fl)
                except Exception as e:
                    r = dict(err=repr(e))
                else:
                    b = pfft.LocalBuffer(p)
                    vi, vo = b.view_input(), b.view_output()
                    r = dict(rank=comm.rank, pr=conv(pm.rank), this=conv(pm.this), ni=conv(p.local_ni), no=conv(p.local_no),
                         ishape=conv(p.local_i_shape), istart=conv(p.local_i_start), istrides=conv(p.local_i_strides),
                         oshape=conv(p.local_o_shape), ostart=conv(p.local_o_start), ostrides=conv(p.local_o_strides),
                         iedges=conv(p.i_edges), oedges=conv(p.o_edges), alloc=conv(p.alloc_local),
                         idt=str(vi.dtype), odt=str(vo.dtype), vistr=list(vi.strides), vostr=list(vo.strides), vish=list(vi.shape), vosh=list(vo.shape),
                         offs=[vi.__array_interface__['data'][0]-vo.__array_interface__['data'][0]])
                rr = comm.gather(r)
                if comm.rank == 0:
                    print(json.dumps(dict(n=n, np=np, T=transposed, type=typ, ranks=rr)))
