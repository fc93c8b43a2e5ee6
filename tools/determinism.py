#!/opt/venv/bin/python
"""Runs the same cases in two processes with different hash seeds and neighbours and compares the digests
of everything that happened (event log, choices, results).  tools/determinism.py [N] [PROP ...]"""
import sys, os, json, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
def main():
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    props = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props')) if f[0] == 'c' and f[1:3].isdigit())
    scratch = tempfile.mkdtemp(prefix='pmsim-')
    bad = 0
    try:
        build = os.environ.get('BUILD') or check.build_into(scratch)
        for p in props:
            idx = list(range(N))
            a, _, e1 = check.one(dict(mode='digest', prop=p, build=build, seed=1, tier='quick', indices=idx), scratch, 900, '1')
            b, _, e2 = check.one(dict(mode='digest', prop=p, build=build, seed=1, tier='quick', indices=idx[::-1]), scratch, 900, '2')
            A = {r['index']: r['digest'] for r in a}; B = {r['index']: r['digest'] for r in b}
            diff = [i for i in idx if A.get(i) is None or A.get(i) != B.get(i)]
            fails = [r['index'] for r in a if r['fail']]
            print(p, '%d cases, %d differ%s%s' % (N, len(diff), ' ' + str(diff[:5]) if diff else '', ' failing: %s' % fails[:3] if fails else ''), e1[-300:] if diff else '')
            sys.stdout.flush()
            bad += bool(diff)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0
if __name__ == '__main__': sys.exit(main())
