"""Builds the extensions of /repo's working tree into a scratch directory."""
import os, sys, subprocess, sysconfig, shutil, hashlib, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import numpy

REPO = '/repo'
EXT = {'_domain': [], '_window': ['_window_imp.c'], '_invariant': [], '_whitenoise': ['gsl/ranlxd.c', 'gsl/missing.c', 'gsl/rng.c', '_whitenoise_imp.c']}

class BuildError(Exception): pass

def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def build(dest, repo=REPO, opt='-O1'):
    """copies the sources to dest/pmesh (no compiled files are taken over) and compiles them there"""
    pk = os.path.join(dest, 'pmesh')
    src = os.path.join(repo, 'pmesh')
    shutil.copytree(src, pk, ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', 'tests'))
    for m in EXT:
        g = os.path.join(pk, m + '.c')
        if os.path.exists(g): os.unlink(g)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    inc = ['-I' + pk, '-I' + os.path.join(pk, 'gsl'), '-I' + dest, '-I' + numpy.get_include(), '-I' + sysconfig.get_path('include')]
    cython = os.path.join(os.path.dirname(sys.executable), 'cython')
    def cc(source, obj, o):
        run(['gcc', o, '-w', '-fPIC', '-fno-strict-overflow', '-DNDEBUG', '-c'] + inc + [source, '-o', obj], dest)
        return obj
    with ThreadPoolExecutor(12) as ex:
        objs = {m: [] for m in EXT}
        for m, extra in EXT.items():
            for e in extra:
                s = os.path.join(pk, e)
                objs[m].append(ex.submit(cc, s, s + '.o', '-O2'))
        def cy(m):
            run([cython, '-3', os.path.join('pmesh', m + '.pyx')], dest)
            g = os.path.join(pk, m + '.c')
            return cc(g, g + '.o', opt)
        main = {m: ex.submit(cy, m) for m in EXT}
        for m in EXT:
            o = [main[m].result()] + [f.result() for f in objs[m]]
            run(['gcc', '-shared', '-o', os.path.join(pk, m + suffix)] + o + ['-lm'], dest)
    return dest

if __name__ == '__main__':
    t = time.time(); build(sys.argv[1]); print('built in %.1f s' % (time.time() - t))
