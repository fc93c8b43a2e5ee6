"""Inside a simulated rank the clocks of the time module are the simulated clock."""
import time, threading
from .core import Sim
_real = {k: getattr(time, k) for k in ('time', 'perf_counter', 'monotonic', 'process_time', 'sleep', 'time_ns', 'perf_counter_ns', 'monotonic_ns')}
def _inside():
    s = Sim.current
    return s if s is not None and getattr(threading.current_thread(), '_simulated_rank', False) else None
def _clock(k):
    real = _real[k]
    ns = k.endswith('_ns')
    def clock():
        s = _inside()
        if s is None: return real()
        t = s.wtime()
        return int(t * 1e9) if ns else t
    clock.__name__ = k
    return clock
def sleep(t):
    s = _inside()
    if s is None: return _real['sleep'](t)
    s.now += max(0.0, t)
    s.yield_()
def install():
    for k in _real:
        setattr(time, k, sleep if k == 'sleep' else _clock(k))
