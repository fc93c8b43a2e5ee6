"""Uninitialised memory holds arbitrary values: in the simulation, values chosen from the seed."""
import numpy
from .core import Sim
_empty, _empty_like = numpy.empty, numpy.empty_like
PATTERNS = [bytes.fromhex(x) for x in ('000000000000f87f', 'efbeaddeefbeadde', '3333333333333340', '0000000000000000', 'ffffffffffffff7f', 'a5a5a5a5a5a5a5a5', '010000000000f03f', 'ffffffffffffffff')]
def fill(a):
    """fill the memory of a contiguous array"""
    s = Sim.current
    if s is None: return a
    seed = s.params.get('poison')
    if seed:
        s.poisoned = getattr(s, 'poisoned', 0) + 1
        s.probe('poison')
        k = (seed * 1000003 + s.poisoned * 7919) % len(PATTERNS)
    else: k = 3         # zeros, as of fresh pages: never what the process happened to hold
    try:
        if a.dtype.hasobject or a.size == 0 or a.dtype.itemsize == 0: return a
        if not (a.flags.c_contiguous or a.flags.f_contiguous): return a
        b = numpy.ndarray(a.nbytes, 'u1', buffer=(a if a.flags.c_contiguous else a.T).view(numpy.ndarray))
        n8 = len(b) // 8
        p = numpy.frombuffer(PATTERNS[k], 'u1')
        if n8: b[:n8 * 8].reshape(n8, 8)[...] = p
        b[n8 * 8:] = p[:len(b) - n8 * 8]
    except (ValueError, TypeError):
        pass
    return a
def empty(*args, **kw):
    return fill(_empty(*args, **kw))
def empty_like(*args, **kw):
    return fill(_empty_like(*args, **kw))
def install():
    empty.__doc__, empty_like.__doc__ = _empty.__doc__, _empty_like.__doc__
    numpy.empty, numpy.empty_like = empty, empty_like
