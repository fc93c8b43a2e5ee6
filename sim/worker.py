"""Search worker: python -m sim.worker JSON; runs cases of one property and writes what it saw."""
import sys, os, json, time, random, importlib, traceback, hashlib

def case_seed(prop, seed, index):
    return int.from_bytes(hashlib.blake2b(('%s/%d/%d' % (prop, seed, index)).encode(), digest_size=8).digest(), 'little')

def make_case(mod, prop, seed, index, tier):
    rng = random.Random(case_seed(prop, seed, index))
    case = mod.gen(rng, tier, index)
    case = json.loads(json.dumps(case))
    case['_choice_seed'] = rng.getrandbits(48)
    return case

def run_case(mod, case, choices=None):
    """returns (failure or None, choices, Run)"""
    from . import harness, core
    harness.RUN = run = harness.Run()
    if choices is None:
        choices = harness.choices_for(case, case['_choice_seed'])
    fail = None
    import numpy
    numpy.random.seed(case['_choice_seed'] % (1 << 31))
    try:
        mod.run(case, choices)
    except harness.RunFailure as e:
        fail = e.failure
    except core.Violation as e:
        fail = core.Failure(e.kind, str(e))
    except Exception as e:
        fail = core.classify(e, None)
        if fail.harness and fail.kind == 'harness':
            malformed(fail, e)
    if fail is not None and fail.kind == 'harness' and hasattr(fail, 'exc'):
        malformed(fail, fail.exc)
    run.hash.update(repr(choices.log).encode())
    run.hash.update(repr(fail).encode())
    return fail, choices, run

def malformed(fail, e):
    """an oracle stumbled over a result of the wrong shape or type: the result is at fault, not the oracle"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1].filename if tb else ''
    if '/sim/' in last and not last.endswith('/sim/harness.py'): return
    # a public attribute that is not there is a fault of the result too
    public = isinstance(e, AttributeError) and not (getattr(e, 'name', None) or '_').startswith('_')
    if public or isinstance(e, (ValueError, IndexError, TypeError, KeyError, AssertionError, ZeroDivisionError)):
        fail.kind = 'malformed'
        fail.harness = False

def shrink_candidates(mod, case):
    """simpler cases, generic: shorter lists, smaller integers, simpler swarm"""
    spec = getattr(mod, 'SHRINK', {})
    for key, how in spec.items():
        if key not in case: continue
        v = case[key]
        if isinstance(v, list):
            m = how or 0
            n = len(v)
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    w = v[:i] + v[i + k:]
                    if len(w) >= m: yield dict(case, **{key: w})
                k //= 2
        elif isinstance(v, bool):
            if v: yield dict(case, **{key: False})
        elif isinstance(v, int):
            for w in sorted(set([how, (v + how) // 2, v - 1])):
                if how <= w < v: yield dict(case, **{key: w})
    if hasattr(mod, 'simplify'):
        for c in mod.simplify(case): yield c
    sw = case.get('swarm', {})
    if sw.get('poison'): yield dict(case, swarm=dict(sw, poison=0))

def shrink(mod, case, choices, fail, deadline):
    """greedy: smaller case, then shorter and quieter choice list, while the same kind of failure persists"""
    from . import harness, core
    best, log = case, list(choices)
    def attempt(c, l):
        try:
            f, ch, _ = run_case(mod, c, core.Choices(replay=l))
        except Exception:
            return None
        if f is not None and not f.harness and f.kind == fail.kind:
            return f, ch.log
        return None
    msg = fail.msg
    # does it fail without any disturbance?
    r = attempt(best, [])
    if r: log, msg = [], r[0].msg
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for c in shrink_candidates(mod, best):
            if time.time() > deadline: break
            try:
                c = json.loads(json.dumps(c))
            except Exception:
                continue
            # the schedule of a smaller case is a different one: try the old list, then fresh seeds
            for l in ([log, []] if log else [[]]):
                r = attempt(c, l)
                if r: break
            if not r and log:
                for k in range(3):
                    ch = harness.choices_for(c, (c.get('_choice_seed', 0) + k) & 0xffffffff)
                    try: f, ch, _ = run_case(mod, c, ch)
                    except Exception: continue
                    if f is not None and not f.harness and f.kind == fail.kind:
                        r = (f, ch.log); break
            if r:
                best, log, msg = c, list(r[1]) if log or r[1] and any(r[1]) else [], r[0].msg
                improved = True
                break
    # the schedule: truncate, then zero
    while log and log[-1] == 0: log.pop()
    k = len(log)
    while k >= 1 and time.time() < deadline:
        i = 0
        while i < len(log) and time.time() < deadline:
            if any(log[i:i + k]):
                l = log[:i] + [0] * len(log[i:i + k]) + log[i + k:]
                r = attempt(best, l)
                if r:
                    log, msg = l, r[0].msg
                    while log and log[-1] == 0: log.pop()
            i += k
        k //= 2
    return best, log, msg

def main():
    cfg = json.loads(sys.argv[1])
    from . import env, core, harness
    env.install(cfg['build'])
    mod = importlib.import_module('props.' + cfg['prop'].lower())
    out = open(cfg['out'], 'w')
    def emit(d):
        out.write(json.dumps(d) + '\n'); out.flush()
    if cfg['mode'] == 'replay':
        case, log = cfg['case'], cfg['choices']
        if cfg.get('log'): case['_log'] = True
        f, ch, run = run_case(mod, case, core.Choices(replay=log) if log is not None else None)
        emit(dict(type='result', failure=None if f is None else dict(kind=f.kind, msg=f.msg, rank=f.rank, harness=f.harness), digest=run.hash.hexdigest(), log=run.log, choices=ch.log))
        return
    if cfg['mode'] == 'digest':
        for i in cfg['indices']:
            case = make_case(mod, cfg['prop'], cfg['seed'], i, cfg['tier'])
            f, ch, run = run_case(mod, case)
            emit(dict(type='digest', index=i, digest=run.hash.hexdigest(), fail=repr(f) if f else None))
        return
    if cfg['mode'] == 'shrink':
        case, log = cfg['case'], cfg['choices']
        f = core.Failure(cfg['kind'], '')
        best, l, msg = shrink(mod, case, log, f, time.time() + cfg['seconds'])
        emit(dict(type='shrunk', case=best, choices=l, msg=msg))
        return
    # search
    t0 = time.time()
    i = cfg['worker']
    count = nontrivial = 0
    seen = set()
    inter = set()
    samples = []
    status = open(cfg['status'], 'w')
    notes = {}
    while i < cfg['max'] and time.time() - t0 < cfg['seconds']:
        status.seek(0); status.write('%d %.3f\n' % (i, time.time())); status.flush()
        case = make_case(mod, cfg['prop'], cfg['seed'], i, cfg['tier'])
        f, ch, run = run_case(mod, case)
        count += 1
        inter.add(run.sched.hexdigest())
        if run.sims and (any(ch.log) or case.get('n', 2) > 1):
            d = run.hash.hexdigest()
            if d not in seen:
                seen.add(d); nontrivial += 1
        if len(samples) < 1:
            samples.append(dict(index=i, case={k: v for k, v in case.items()}, choices=len(ch.log), disturbed=sum(1 for x in ch.log if x)))
        k = None
        if f is not None:
            k = mod.known(case, f) if hasattr(mod, 'known') else None
            if k:
                notes[k] = notes.get(k, 0) + 1
            else:
                emit(dict(type='failure', index=i, case=case, choices=ch.log, kind=f.kind, msg=f.msg, rank=f.rank, harness=f.harness))
                break
        i += cfg['of']
    st = harness.STATS
    emit(dict(type='stats', cases=count, nontrivial=nontrivial, digests=sorted(seen)[:0], seen=sorted(seen), inter=sorted(inter), worlds=st.worlds, steps=st.steps, simtime=st.simtime, probes=st.probes,
              kinds=st.kinds, ranks=st.ranks, samples=samples, seconds=time.time() - t0, last=i, notes=notes))

if __name__ == '__main__':
    main()
