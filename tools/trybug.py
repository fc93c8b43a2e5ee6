#!/opt/venv/bin/python
"""trybug.py DIR [--notests] [--seconds S] [--props C01,C02]
Tries one planted bug (a folder with patch.diff, demo.sh, meta.json) in scratch copies: does it apply, build, keep the
stable tests passing, does its demo tell the two trees apart, and does the check of its property report it?
Development only; no check uses it."""
import sys, os, json, subprocess, shutil, time, argparse
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', OMP_NUM_THREADS='1',
    OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1',
    OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1',
    OMPI_MCA_plm='isolated', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
    OMPI_MCA_pml='ob1', OMPI_MCA_oob_tcp_if_include='lo', OMPI_MCA_hwloc_base_binding_policy='none')
ENV['PATH'] = '/opt/venv/bin:' + ENV['PATH']

def sh(cmd, cwd, limit, path=None):
    e = dict(ENV)
    if path: e['PYTHONPATH'] = path
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, errors='replace')
        return p.returncode, p.stdout, time.time() - t
    except subprocess.TimeoutExpired as x:
        return 'timeout', str(x.stdout)[-2000:], time.time() - t

def original_lines(patch):
    """lines removed by the patch that are not in the original tree (must be none)"""
    bad, name = [], None
    for l in open(patch):
        if l.startswith('--- a/'): name = l[6:].strip()
        elif l.startswith('-') and not l.startswith('---'):
            base = subprocess.run(['git', '-C', '/repo', 'show', 'caa9e0f:' + name], stdout=subprocess.PIPE, text=True).stdout.split('\n')
            if l[1:].rstrip('\n') not in base: bad.append(l.rstrip())
    return bad

def record(name, rc, t):
    import fcntl
    f = HERE + '/tools/planted.json'
    with open(f, 'a+') as h:
        fcntl.flock(h, fcntl.LOCK_EX)
        h.seek(0)
        d = json.loads(h.read() or '{}')
        d[name] = dict(rc=rc, s=round(t))
        h.seek(0); h.truncate()
        json.dump(d, h, indent=1, sort_keys=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('dir'); ap.add_argument('--notests', action='store_true'); ap.add_argument('--seconds'); ap.add_argument('--props')
    ap.add_argument('--seed', default='1'); ap.add_argument('--record', action='store_true')
    a = ap.parse_args()
    d = os.path.abspath(a.dir); name = os.path.basename(d)
    meta = json.load(open(d + '/meta.json'))
    out = dict(id=name, property=meta['property'])
    w = '/tmp/w/try-' + name
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        tree = w + '/repo'
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        rc, o, _ = sh(['git', 'apply', d + '/patch.diff'], tree, 60)
        if rc: print('does not apply', o); out['applies'] = False; return out
        out['notoriginal'] = original_lines(d + '/patch.diff')
        subprocess.run('touch pmesh/*.pyx', shell=True, cwd=tree)
        if not a.notests:
            rc, o, t = sh(['python', 'setup.py', 'build_ext', '--inplace', '-j', '4'], tree, 600, tree)
            if rc: print(o[-3000:]); out['builds'] = False; return out
            rep = w + '/rep'; os.makedirs(rep)
            rc, o, t = sh(['python', '/opt/vp/lib/run_tests.py', rep], tree, 1200, tree)
            sh(['python', '/opt/vp/results.py', w + '/res.json', 'junit:%s/*.xml' % rep, 'lines:%s/dead.lines' % rep], tree, 60)
            res = json.load(open(w + '/res.json'))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            out['broken_tests'] = [s for s in stable if s not in res['passed']]
            dd = w + '/d'; shutil.copytree(d, dd)
            for f in ('patch.diff', 'meta.json'): os.unlink(dd + '/' + f)
            rc, o, t = sh(['bash', dd + '/demo.sh'], '/repo', 300)
            out['demo_clean'] = rc; out['demo_clean_s'] = round(t, 1)
            if rc: print('DEMO ON CLEAN TREE:', o[-3000:])
            rc, o, t = sh(['bash', dd + '/demo.sh'], tree, 300)
            out['demo_bug'] = rc; out['demo_bug_s'] = round(t, 1)
            if not rc: print('DEMO ON BUGGED TREE:', o[-2000:])
        sys.path.insert(0, HERE)
        from sim import build
        build.build(w + '/b', tree)
        for p in (a.props or meta['property']).split(','):
            rc, o, t = sh([sys.executable, HERE + '/check.py', p, '--build', w + '/b', '--noevidence', '--seed', a.seed] + (['--seconds', a.seconds] if a.seconds else []), HERE, 900)
            out['check_' + p] = rc; out['check_s_' + p] = round(t, 1)
            out['says_' + p] = ([l for l in o.split('\n') if 'VIOLATION' in l] or o.split('\n')[-3:])[0][:200]
            lines = [l for l in o.split('\n') if l.strip()]
            print('  ' + '\n  '.join(lines[-4:]))
            if a.record and p == meta['property']: record(name, rc, t)
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)
        print(json.dumps(out))
if __name__ == '__main__': main()
