#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] [--seed N] [--seconds S] [--workers W]
   check.py --replay FILE          run a recorded violation again
Exit 0: held on everything explored. 1: VIOLATION line printed. 2: error of the check."""
import sys, os, json, time, argparse, subprocess, tempfile, shutil, signal, hashlib, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
CASE_LIMIT = 90          # wall seconds after which one case counts as hung (typical: well below one)

def environ(hashseed='0'):
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed), PYTHONNOUSERSITE='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', MALLOC_ARENA_MAX='2')
    e['PATH'] = '/opt/venv/bin:' + e.get('PATH', '')
    return e

def spawn(cfg, hashseed='0', **kw):
    return subprocess.Popen([PY, '-m', 'sim.worker', json.dumps(cfg)] if len(json.dumps(cfg)) < 100000 else [PY, '-c', BIG % json.dumps(bigfile(cfg))],
                            cwd=HERE, env=environ(hashseed), stdout=subprocess.DEVNULL, stderr=kw.get('stderr', subprocess.DEVNULL), start_new_session=True)
BIG = "import sys,json; sys.argv=['w', open(%s).read()]; from sim import worker; worker.main()"
def bigfile(cfg):
    p = cfg['out'] + '.cfg'
    with open(p, 'w') as f: json.dump(cfg, f)
    return p

def read(path):
    out = []
    try:
        with open(path) as f:
            for l in f:
                try: out.append(json.loads(l))
                except ValueError: pass
    except OSError: pass
    return out

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()

def one(cfg, scratch, limit, hashseed='0'):
    """run one worker to its end; returns (records, how it ended)"""
    cfg = dict(cfg, out=os.path.join(scratch, 'one-%d' % (time.time() * 1e6)))
    err = open(cfg['out'] + '.err', 'w')
    p = spawn(cfg, hashseed, stderr=err)
    try:
        p.wait(limit); how = p.returncode
    except subprocess.TimeoutExpired:
        kill(p); how = 'hang'
    err.close()
    return read(cfg['out']), how, open(cfg['out'] + '.err').read()[-2000:]

def replay_once(prop, build, scratch, case, choices, hashseed='0', log=False):
    rec, how, err = one(dict(mode='replay', prop=prop, build=build, case=case, choices=choices, log=log), scratch, CASE_LIMIT * 1.5, hashseed)
    if how == 'hang':
        return dict(kind='hang', msg='one case did not end within %d s' % (CASE_LIMIT * 1.5), harness=False, rank=None), None
    if isinstance(how, int) and how < 0:
        return dict(kind='crash', msg='process ended by signal %d' % -how, harness=False, rank=None), None
    for r in rec:
        if r['type'] == 'result': return r['failure'], r
    return dict(kind='harness', msg='worker ended with %s: %s' % (how, err), harness=True, rank=None), None

def build_into(scratch):
    from sim import build
    return build.build(os.path.join(scratch, 'build'))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--log', action='store_true')
    ap.add_argument('--build', help='use this build directory (development only)')
    ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='pmsim-')
    try:
        return replay(a, scratch) if a.replay else search(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay(a, scratch):
    d = json.load(open(a.replay))
    build = a.build or build_into(scratch)
    f, rec = replay_once(d['property'], build, scratch, d['case'], d['choices'], log=a.log)
    if a.log and rec: print('\n'.join(rec['log']))
    if f is None:
        print('replay of %s: the property held' % a.replay); return 0
    print('%s: %s' % (f['kind'], f['msg']))
    if f['harness']: return 2
    if rec and d.get('digest') and rec['digest'] == d['digest']:
        print('execution identical to the recorded one (digest %s)' % d['digest'])
    print('VIOLATION property=%s replay=%s' % (d['property'], a.replay))
    return 1

def search(a, scratch):
    from sim import build as B
    t0 = time.time()
    prop = a.prop
    mod_src = os.path.join(HERE, 'props', prop.lower() + '.py')
    if not os.path.exists(mod_src):
        print('no such property', prop); return 2
    meta = {}
    exec(compile(open(os.path.join(HERE, 'props', 'meta.py')).read(), 'meta', 'exec'), meta)
    m = meta['META'][prop]
    try:
        build = a.build or build_into(scratch)
    except B.BuildError as e:
        print('build failed:', e); return 2
    tb = time.time() - t0
    seconds = a.seconds if a.seconds is not None else (m.get('quick_s', 24) if a.tier == 'quick' else m.get('thorough_s', 600))
    W = a.workers
    procs = []
    for w in range(W):
        cfg = dict(mode='search', prop=prop, build=build, seed=a.seed, worker=w, of=W, seconds=seconds, tier=a.tier, max=m.get('max', 10 ** 9),
                   out=os.path.join(scratch, 'w%d.out' % w), status=os.path.join(scratch, 'w%d.st' % w))
        procs.append((w, cfg, spawn(cfg, w, stderr=open(os.path.join(scratch, 'w%d.err' % w), 'w'))))
    live = {w: (cfg, p) for w, cfg, p in procs}
    found, errors = [], []
    hard = time.time() + seconds + CASE_LIMIT + 60
    while live:
        time.sleep(0.1)
        for w in list(live):
            cfg, p = live[w]
            rc = p.poll()
            st = None
            try: st = open(cfg['status']).read().split()
            except OSError: pass
            if rc is None:
                if st and len(st) == 2 and time.time() - float(st[1]) > CASE_LIMIT or time.time() > hard:
                    kill(p); del live[w]
                    found.append(dict(kind='hang', index=int(st[0]) if st else -1, msg='case did not end within %d s' % CASE_LIMIT))
                continue
            del live[w]
            recs = read(cfg['out'])
            if rc < 0:
                found.append(dict(kind='crash', index=int(st[0]) if st else -1, msg='worker ended by signal %d' % -rc))
            elif rc != 0:
                errors.append('worker %d ended with %d: %s' % (w, rc, open(os.path.join(scratch, 'w%d.err' % w)).read()[-3000:]))
            for r in recs:
                if r['type'] == 'failure':
                    (errors if r['harness'] else found).append(r if not r['harness'] else 'case %d: %s %s' % (r['index'], r['kind'], r['msg']))
        if found or errors:
            # let the others finish the case they are in, briefly, so that the lowest index is reported
            end = time.time() + 2
            while live and time.time() < end:
                time.sleep(0.05)
                for w in list(live):
                    if live[w][1].poll() is not None:
                        break
                else: continue
                break
            for w in list(live):
                cfg, p = live.pop(w)
                if p.poll() is None: kill(p)
                for r in read(cfg['out']):
                    if r['type'] == 'failure':
                        (errors if r['harness'] else found).append(r if not r['harness'] else 'case %d: %s %s' % (r['index'], r['kind'], r['msg']))
    stats = [r for w, cfg, p in procs for r in read(cfg['out']) if r['type'] == 'stats']
    violations = 0
    line = None
    code = 0
    found.sort(key=lambda r: r['index'])
    for r in found:
        rep = confirm(a, prop, build, scratch, r)
        if rep:
            violations += 1
            line = 'VIOLATION property=%s replay=%s' % (prop, rep[0])
            print('%s: %s' % (rep[1], rep[2]))
            code = 1
            break
        errors.append('not reproduced in a fresh process: case %s %s %s' % (r['index'], r['kind'], r['msg']))
    kf = known_findings(a, prop, build, scratch) if not line else []
    if not a.noevidence:
        evidence(a, prop, m, stats, violations, time.time() - t0, tb, kf)
    n = sum(s['cases'] for s in stats)
    print('%s %s seed=%d: %d runs, %d worlds, %d steps in %.1f s (build %.1f s)' % (prop, a.tier, a.seed, n, sum(s['worlds'] for s in stats), sum(s['steps'] for s in stats), time.time() - t0, tb))
    for k in kf: print(k)
    if line:
        print(line)
        return 1
    if errors:
        for e in errors[:5]: print('ERROR', e)
        return 2
    if n == 0:
        print('ERROR nothing was run'); return 2
    return 0

def confirm(a, prop, build, scratch, r):
    """reproduce in a fresh process, minimise, reproduce the minimised file; returns (path, kind, msg)"""
    case, choices = r.get('case'), r.get('choices')
    if case is None:
        if r['index'] < 0: return None
        # crash or hang: the case is a function of its index, the schedule of its seed
        rec, how, err = one(dict(mode='digest', prop=prop, build=build, seed=a.seed, tier=a.tier, indices=[]), scratch, 60)
        p = subprocess.run([PY, '-c', "import sys,json,importlib; from sim import env; env.install(%r); from sim import worker; m=importlib.import_module('props.%s'); print(json.dumps(worker.make_case(m,%r,%d,%d,%r)))"
                            % (build, prop.lower(), prop, a.seed, r['index'], a.tier)], cwd=HERE, env=environ(), stdout=subprocess.PIPE, text=True)
        try: case = json.loads(p.stdout)
        except ValueError: return None
        choices = None
    f, rec = replay_once(prop, build, scratch, case, choices)
    if f is None or f['harness']: return None
    kind, msg = f['kind'], f['msg']
    best = (case, choices)
    if kind not in ('crash', 'hang'):
        recs, how, err = one(dict(mode='shrink', prop=prop, build=build, case=case, choices=choices, kind=kind, seconds=30), scratch, 30 + CASE_LIMIT)
        for s in recs:
            if s['type'] == 'shrunk':
                g, rec2 = replay_once(prop, build, scratch, s['case'], s['choices'], hashseed='7')
                if g is not None and not g['harness'] and g['kind'] == kind:
                    best, msg, rec = (s['case'], s['choices']), g['msg'], rec2
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    d = dict(property=prop, seed=a.seed, index=r['index'], case=best[0], choices=best[1], failure=dict(kind=kind, msg=msg), digest=rec['digest'] if rec else None)
    h = hashlib.blake2b(json.dumps(d, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, h))
    with open(path, 'w') as fp: json.dump(d, fp, indent=1)
    return path, kind, msg

def known_findings(a, prop, build, scratch):
    out = []
    try: kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except OSError: return out
    for k in kf.get('findings', []):
        if k['property'] != prop or k.get('status') == 'fixed': continue
        f, rec = replay_once(prop, build, scratch, k['case'], k.get('choices') or [])
        if f is not None and not f['harness'] and f['kind'] == k['kind']:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    return out

def evidence(a, prop, m, stats, violations, wall, tb, kf):
    def tot(key):
        d = {}
        for s in stats:
            for k, v in s[key].items(): d[k] = d.get(k, 0) + v
        return d
    runs = sum(s['cases'] for s in stats)
    secs = max([s['seconds'] for s in stats] or [1])
    inter = set(); seen = set()
    for s in stats: inter.update(s['inter']); seen.update(s['seen'])
    probes, kinds = tot('probes'), tot('kinds')
    faults = dict(kinds)
    for k in ('fault_mpi_error', 'poison', 'early_exit', 'rendezvous', 'comm_limit_hit'): 
        if k in probes: faults['fired_' + k] = probes[k]
    ev = dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level='exploration', wall_s=round(wall, 2), violations=violations,
        coverage=dict(evaluations=runs, distinct_nontrivial=len(seen),
            rule=m['rule'] + ' A run counts as distinct and non-trivial when it has at least two ranks or a disturbed choice, and its event log (every call with its payload digest, every choice, every result) differs from all others.',
            samples=[x for s in stats for x in s['samples']][:3],
            simulated_worlds=sum(s['worlds'] for s in stats), scheduler_steps=sum(s['steps'] for s in stats),
            simulated_seconds=round(sum(s['simtime'] for s in stats), 3), seeds_per_hour=int(runs / max(secs, 1e-9) * 3600),
            distinct_interleavings=len(inter), interleaving_measure='hash of the sequence of ranks chosen by the scheduler over all worlds of the run',
            faults_and_disturbances=faults, reached={k: v for k, v in probes.items()}, ranks_per_world={str(k): v for k, v in tot('ranks').items()},
            known_findings=kf, build_s=round(tb, 1),
            real_components=m.get('real', []) + ['pmesh Python modules and compiled extensions built from /repo', 'numpy', 'mpsort Python layer'],
            stub_components=['mpi4py (simulated MPI)', 'pfft (simulated partitions and transform)', 'mpsort compiled global sort'], explanation=m.get('what', '')),
        assumptions=m.get('assumptions', []) + ['The simulated MPI follows the MPI standard for the calls made; the simulated pfft follows the partition rules of pfft 0.1.12 (compared with the real one by tools/pfft_conformance.py).'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

if __name__ == '__main__':
    sys.exit(main())
