#!/opt/venv/bin/python
"""mutate_c.py OUTDIR [--files _domain,_whitenoise,_window] [--seconds S] [--jobs J]
Like mutate.py for the compiled sources: one small textual change at a time, the extension compiled anew, and the checks of the
properties it serves run against it. Development only."""
import os, sys, re, json, subprocess, shutil, argparse, sysconfig, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import build as B
import numpy
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--build', default='/tmp/w/b')
ap.add_argument('--seconds', type=float, default=5); ap.add_argument('--jobs', type=int, default=2); ap.add_argument('--only'); ap.add_argument('--workers', default='2')
A = ap.parse_args()
# source: extension, checks
FILES = {'_domain.pyx': ('_domain', ['C01', 'C04']), '_whitenoise_generics.h': ('_whitenoise', ['C16']), '_whitenoise_imp.c': ('_whitenoise', ['C16']), '_whitenoise.pyx': ('_whitenoise', ['C16']),
         '_window_generics.h': ('_window', ['C09', 'C10', 'C11']), '_window_imp.c': ('_window', ['C09', 'C10', 'C11']), '_window.pyx': ('_window', ['C09', 'C10', 'C11']), '_window_tuned_nnb.h': ('_window', ['C09', 'C10', 'C11']),
         '_window_tuned_cic.h': ('_window', ['C09', 'C10', 'C11']), '_window_tuned_tsc.h': ('_window', ['C09', 'C10', 'C11']), '_window_tuned_pcs.h': ('_window', ['C09', 'C10', 'C11'])}
SUB = [(r'<=', '<'), (r'(?<![<\-])<(?![<=])', '<='), (r'>=', '>'), (r'(?<![>\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'-=', '+='), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' + '),
       (r'\b\d+\b(?!\.)', lambda m: str(int(m.group()) + 1)), (r'\bnot ', ''), (r'\bor\b', 'and'), (r'\band\b', 'or')]
def mutants(f):
    text = open(A.build + '/pmesh/' + f).read()
    lines = text.split('\n')
    off = comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#if 0') or s.startswith('"""') and s.count('"""') == 1 and not off: off = True; continue
        if s.startswith('#endif') or s == '"""' : off = False; continue
        if '/*' in s and '*/' not in s: comment = True; continue
        if '*/' in s: comment = False; continue
        if off or comment or not s or s.startswith(('//', '/*', '*', '#', 'cdef', 'cimport', 'import', '"""', '@', 'static', 'def ')) or 'printf' in s or 'include' in s: continue
        if s.startswith('cdef'): continue
        body = re.split(r'//|/\*', l)[0] if f.endswith(('.c', '.h')) else l
        for p, r in SUB:
            for m in re.finditer(p, body):
                if f.endswith('.pyx') and ("'" in body[:m.start()] and body[:m.start()].count("'") % 2): continue
                yield n, l, l[:m.start()] + (r if isinstance(r, str) else r(m)) + l[m.end():]
        if s.endswith(';') and not re.match(r'(int|double|ptrdiff_t|FLOAT|unsigned|char|gsl_rng|struct|return|break|continue|typedef)\b', s) and not s.startswith('}'): yield n, l, re.match(r'\s*', l).group() + ';'
        if s == 'break;': yield n, l, l.replace('break;', ';')
suffix = sysconfig.get_config_var('EXT_SUFFIX')
def attempt(job):
    f, n, old, new = job
    ext, props = FILES[f]
    d = '%s/w%d' % (A.out, os.getpid() * 0 + abs(hash(job)) % 10 ** 12)
    shutil.copytree(A.build, d)
    res = dict(key='%s:%d' % (f, n + 1), old=old.strip(), new=new.strip(), status='survived')
    try:
        p = d + '/pmesh/' + f
        t = open(p).read().split('\n'); assert t[n] == old; t[n] = new; open(p, 'w').write('\n'.join(t))
        pk = d + '/pmesh'
        inc = ['-I' + pk, '-I' + pk + '/gsl', '-I' + d, '-I' + numpy.get_include(), '-I' + sysconfig.get_path('include')]
        try:
            if f.endswith('.pyx'):
                B.run([os.path.dirname(sys.executable) + '/cython', '-3', 'pmesh/' + f], d)
                B.run(['gcc', '-O1', '-w', '-fPIC', '-fno-strict-overflow', '-DNDEBUG', '-c'] + inc + [pk + '/' + ext + '.c', '-o', pk + '/' + ext + '.c.o'], d)
            else:
                s = pk + '/' + ext + '_imp.c'
                B.run(['gcc', '-O1', '-w', '-fPIC', '-fno-strict-overflow', '-DNDEBUG', '-c'] + inc + [s, '-o', s + '.o'], d)
            o = [pk + '/' + ext + '.c.o'] + [pk + '/' + e + '.o' for e in B.EXT[ext]]
            B.run(['gcc', '-shared', '-o', pk + '/' + ext + suffix] + o + ['-lm'], d)
        except B.BuildError: res['status'] = 'nobuild'; return res
        for q in props:
            r = subprocess.run([sys.executable, HERE + '/check.py', q, '--build', d, '--seconds', str(A.seconds), '--noevidence', '--workers', A.workers], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            if r.returncode == 1: res['status'] = 'killed'; res['by'] = q; return res
            if r.returncode: res['status'] = 'exit %d' % r.returncode; res['by'] = q; res['say'] = r.stdout[-300:]; return res
    except subprocess.TimeoutExpired: res['status'] = 'timeout'
    finally: shutil.rmtree(d, ignore_errors=True)
    return res
os.makedirs(A.out, exist_ok=True)
done = set()
rf = A.out + '/results.jsonl'
if os.path.exists(rf):
    for l in open(rf): x = json.loads(l); done.add((x['key'], x['old'], x['new']))
jobs = []
for f in (A.files.split(',') if A.files else FILES):
    for n, a, b in mutants(f):
        if a.strip() != b.strip() and ('%s:%d' % (f, n + 1), a.strip(), b.strip()) not in done and not (A.only and not re.search(A.only, a)): jobs.append((f, n, a, b))
jobs = list(dict.fromkeys(jobs))
print(len(jobs), 'changes', flush=True)
with ThreadPoolExecutor(A.jobs) as ex:
    for k, r in enumerate(ex.map(attempt, jobs)):
        open(rf, 'a').write(json.dumps(r) + '\n')
        if r['status'] != 'killed': print(r['status'], r['key'], '|', r['old'], '->', r['new'], r.get('say', '')[-120:].replace('\n', ' '), flush=True)
        if k % 50 == 49: print(k + 1, 'done', flush=True)
