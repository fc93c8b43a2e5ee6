"""mpsort: its own Python layer runs; only the compiled global sort is simulated."""
import sys, types, importlib.util, os, sysconfig
import numpy
from .core import SimUnsupported
from . import mpi, poison

def sort(source, orderby=None, out=None, comm=None, tuning=[]):
    """globally sort `source` by its integer field `orderby`; rank r receives the next len(out_r) items"""
    s = mpi.sim()
    if comm is None:
        comm = s.mpi.world_handles[s.cur]
    source = numpy.asarray(source)
    if out is None: out = source
    key = source[orderby] if orderby is not None else source
    if key.dtype.kind not in 'iu' and source.dtype.names is None:
        raise TypeError('Only integer types are supported')
    if source.dtype.itemsize != out.dtype.itemsize:
        raise ValueError('itemsize of source and out disagree')
    def comb(rec):
        if 'r' not in rec.cache:
            parts = [c[0][0] for c in rec.contrib]
            lens = [c[0][1] for c in rec.contrib]
            dts = set(str(p.dtype) for p in parts)
            if len(dts) > 1:
                s.fail('mismatch', 'mpsort.sort: ranks sort different types: %s' % sorted(dts))
            g = numpy.concatenate(parts)
            if len(g) != sum(lens):
                s.fail('misuse', 'mpsort.sort: %d items to be stored in %d' % (len(g), sum(lens)))
            k = g[orderby] if orderby is not None else g
            if k.dtype.kind not in 'iu':
                s.fail('misuse', 'mpsort.sort: key of type %s' % k.dtype)
            if k.dtype.kind == 'i' and len(k) and k.min() < 0:
                k = k.astype('i8')       # radix sort compares the bits; negative keys come last
                k = k.view('u8')
            idx = numpy.argsort(k, kind='stable')
            if len(idx) > 1 and s.choices.pick(2, 'sort_ties'):
                # the order of equal keys is not specified
                idx = numpy.argsort(k[::-1], kind='stable')
                idx = len(k) - 1 - idx
            rec.cache['r'] = g[idx]
            rec.cache['o'] = numpy.concatenate([[0], numpy.cumsum(lens)]).astype('i8')
        return rec.cache['r'], rec.cache['o']
    r, o = comm._coll('mpsort', (source.copy(), len(out)), (str(orderby),), comm._all, comb, early_ok=False, data=source.tobytes())
    me = comm.rank
    out[...] = r[o[me]:o[me + 1]].view(out.dtype)
    return None

def install():
    site = sysconfig.get_paths()['platlib']
    path = os.path.join(site, 'mpsort', '__init__.py')
    b = types.ModuleType('mpsort.binding'); b.sort = sort
    spec = importlib.util.spec_from_file_location('mpsort', path, submodule_search_locations=[os.path.dirname(path)])
    m = importlib.util.module_from_spec(spec)
    sys.modules['mpsort'] = m
    sys.modules['mpsort.binding'] = b
    spec.loader.exec_module(m)
    return m
