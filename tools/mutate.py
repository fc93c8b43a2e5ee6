#!/opt/venv/bin/python
"""mutate.py OUTDIR [--files a.py,b.py] [--seconds S] [--jobs J] [--only REGEX]
Makes one small change at a time to the Python sources of pmesh (operators, comparisons, constants, conditions, arguments,
statements), runs the checks that execute the changed line against it and lists the changes that no check reports.
Development only: what survives is either equivalent, outside the properties, or shows where a check is weak."""
import sys, os, ast, json, time, random, copy, argparse, signal, importlib, re, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--files', default='domain,pm,coarray,lic,particlemesh,transfer,window,whitenoise,cic,tsc,_cic,lanczos,tools')
ap.add_argument('--build', default='/tmp/w/b'); ap.add_argument('--seconds', type=float, default=2.0)
ap.add_argument('--total', type=float, default=60); ap.add_argument('--jobs', type=int, default=6); ap.add_argument('--cov', type=int, default=120)
ap.add_argument('--only'); ap.add_argument('--props', type=int, default=99); ap.add_argument('--again', action='store_true', help='only the survivors recorded in OUTDIR, with more time'); ap.add_argument('--seed', type=int, default=5)
A = ap.parse_args()
PROPS = sorted(f[:-3] for f in os.listdir(HERE + '/props') if re.match(r'c\d\d\.py$', f))
os.makedirs(A.out, exist_ok=True)

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div, ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift]}

class Point:
    def __init__(self, line, what, fn): self.line, self.what, self.fn = line, what, fn

def points(tree):
    """yields (node path, list of replacement makers)"""
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
    out = []
    def u(n):
        try: return ast.unparse(n)[:70].replace('\n', ' ')
        except Exception: return '?'
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            items = list(enumerate(val)) if isinstance(val, list) else [(None, val)]
            for k, n in items:
                if not isinstance(n, ast.AST): continue
                def put(new, parent=parent, field=field, k=k):
                    if k is None: setattr(parent, field, new)
                    else: getattr(parent, field)[k] = new
                def rep(what, new, n=n, put=put):
                    ast.copy_location(new, n)
                    out.append((n.lineno, what, lambda: put(new), lambda: put(n)))
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for o in CMP.get(type(n.ops[0]), []):
                        m = copy.copy(n); m.ops = [o()]; rep('%s -> %s' % (u(n), u(m)), m)
                elif isinstance(n, ast.BinOp):
                    for o in BIN.get(type(n.op), []):
                        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str): continue
                        m = copy.copy(n); m.op = o(); rep('%s -> %s' % (u(n), u(m)), m)
                    if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and not isinstance(n.left, ast.Constant):
                        rep('%s -> %s' % (u(n), u(n.left)), n.left)
                elif isinstance(n, ast.AugAssign):
                    for o in BIN.get(type(n.op), []):
                        m = copy.copy(n); m.op = o(); rep('%s -> %s' % (u(n), u(m)), m)
                    m = ast.Assign(targets=[n.target], value=n.value); rep('%s -> %s' % (u(n), u(m)), m)
                elif isinstance(n, ast.BoolOp):
                    m = copy.copy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); rep('%s -> %s' % (u(n), u(m)), m)
                    if len(n.values) == 2:
                        rep('%s -> %s' % (u(n), u(n.values[0])), n.values[0]); rep('%s -> %s' % (u(n), u(n.values[1])), n.values[1])
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                    rep('%s -> %s' % (u(n), u(n.operand)), n.operand)
                elif isinstance(n, ast.Constant):
                    if isinstance(parent, ast.Expr): continue
                    v = n.value
                    if v is True or v is False: rep('%r -> %r' % (v, not v), ast.Constant(not v))
                    elif isinstance(v, int):
                        rep('%r -> %r in %s' % (v, v + 1, u(parent)), ast.Constant(v + 1))
                        if v: rep('%r -> %r in %s' % (v, v - 1, u(parent)), ast.Constant(v - 1))
                    elif isinstance(v, float): rep('%r -> %r in %s' % (v, v * 1.5 + 0.1, u(parent)), ast.Constant(v * 1.5 + 0.1))
                elif isinstance(n, ast.Call):
                    if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                        m = copy.copy(n); m.args = [n.args[1], n.args[0]] + n.args[2:]; rep('%s -> %s' % (u(n), u(m)), m)
                    for i, kw in enumerate(n.keywords):
                        if kw.arg is None: continue
                        m = copy.copy(n); m.keywords = n.keywords[:i] + n.keywords[i + 1:]; rep('drop %s= from %s' % (kw.arg, u(n)), m)
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'ravel', 'conj', 'reshape'):
                        rep('%s -> %s' % (u(n), u(n.func.value)), n.func.value)
                    if len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('abs', 'int', 'list', 'tuple', 'float'): rep('%s -> %s' % (u(n), u(n.args[0])), n.args[0])
                    sw = dict(floor='ceil', ceil='floor', minimum='maximum', maximum='minimum', min='max', max='min', sum='prod', prod='sum', all='any', any='all', zeros='ones', ones='zeros',
                              empty='zeros', zeros_like='ones_like', real='imag', imag='real', sin='cos', cos='sin', cumsum='copy', forward='backward', backward='forward', append='insert')
                    f = n.func
                    nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                    if nm in sw and nm != 'empty':
                        m = copy.copy(n)
                        m.func = ast.copy_location(ast.Attribute(value=f.value, attr=sw[nm], ctx=ast.Load()) if isinstance(f, ast.Attribute) else ast.Name(id=sw[nm], ctx=ast.Load()), f)
                        rep('%s -> %s' % (u(n), u(m)), m)
                elif isinstance(n, (ast.If, ast.IfExp)):
                    t = n.test
                    def setter(new, n=n): n.test = new
                    for c in (True, False):
                        new = ast.copy_location(ast.Constant(c), t)
                        out.append((t.lineno, 'if %s -> if %s' % (u(t), c), lambda n=n, new=new: setattr(n, 'test', new), lambda n=n, t=t: setattr(n, 'test', t)))
                elif isinstance(n, ast.Slice):
                    for f in ('lower', 'upper'):
                        if getattr(n, f) is not None:
                            m = copy.copy(n); setattr(m, f, None); rep('%s -> %s in %s' % (u(n), u(m), u(parent)), m)
                elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                    pass
                if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Assert)) and id(n) not in docs and k is not None:
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): continue
                    rep('delete %s' % u(n), ast.Pass())
                if isinstance(n, ast.Return) and k is not None and n.value is None: rep('delete return', ast.Pass())
    return out

def main():
    from sim import env, worker, harness, core
    ld = env.install(A.build)
    import numpy, scipy
    mods = {}
    for p in PROPS: mods[p] = importlib.import_module('props.' + p)
    def child(fn):
        """run fn(write) in a forked process"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r); os.setsid()
            d = os.open('/dev/null', os.O_WRONLY); os.dup2(d, 1)
            if not os.environ.get('MUTERR'): os.dup2(d, 2)
            try: fn(lambda o: os.write(w, (json.dumps(o) + '\n').encode()))
            except BaseException as e:
                try: os.write(w, (json.dumps(dict(error=traceback.format_exc()[-600:])) + '\n').encode())
                except OSError: pass
            os._exit(0)
        os.close(w)
        os.set_blocking(r, False)
        return dict(pid=pid, fd=r, buf=b'', t=time.time())
    def drain(c):
        while True:
            try: b = os.read(c['fd'], 65536)
            except BlockingIOError: return False
            if not b: return True
            c['buf'] += b
    # -- which lines does each check execute, and how often
    cf = A.out + '/cov.json'
    have = json.load(open(cf)) if os.path.exists(cf) else {}
    if set(PROPS) - set(have):
        def cov(p):
            def fn(w):
                hits = {}
                M = sys.monitoring
                M.use_tool_id(3, 'm')
                def on(code, line):
                    f = code.co_filename
                    if '/pmesh/' not in f: return M.DISABLE
                    k = (os.path.basename(f)[:-3], line)
                    hits[k] = hits.get(k, 0) + 1
                M.register_callback(3, M.events.LINE, on); M.set_events(3, M.events.LINE)
                t = time.time()
                for i in range(A.cov):
                    worker.run_case(mods[p], worker.make_case(mods[p], p.upper(), A.seed, i, 'quick'))
                    if time.time() - t > 100: break
                w(dict(p=p, n=i + 1, s=time.time() - t, hits=[[a, b, c] for (a, b), c in hits.items()]))
            return fn
        todo = [p for p in PROPS if p not in have]; live = []; res = have
        while todo or live:
            while todo and len(live) < A.jobs: live.append(child(cov(todo.pop(0))))
            time.sleep(0.1)
            for c in list(live):
                if drain(c):
                    live.remove(c); os.waitpid(c['pid'], 0); os.close(c['fd'])
                    for l in c['buf'].decode().splitlines():
                        d = json.loads(l)
                        if 'error' in d: print(d['error']); continue
                        res[d['p']] = d; print('coverage', d['p'], d['n'], 'cases', round(d['s'], 1), 's', flush=True)
        json.dump(res, open(cf, 'w'))
    cov = json.load(open(cf))
    line = {}
    for p, d in cov.items():
        for f, l, c in d['hits']: line.setdefault((f, l), {})[p] = c / d['n']
    # -- the changes
    done = {}
    rf = A.out + '/results.jsonl'
    if os.path.exists(rf):
        for l in open(rf):
            d = json.loads(l); done[d['key']] = d
    jobs = []
    for f in A.files.split(','):
        path = A.build + '/pmesh/' + f + '.py'
        src = open(path).read()
        tree = ast.parse(src)
        pts = points(tree)
        unc = 0
        ends = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for l in range(n.lineno, n.end_lineno + 1): ends[l] = n.lineno
        for i, (l, what, do, undo) in enumerate(pts):
            key = '%s:%d:%s#%d' % (f, l, what, i)
            if A.only and not re.search(A.only, key): continue
            ps = line.get((f, l)) or line.get((f, ends.get(l, l))) or {}
            jobs.append((key, f, ps, do, undo, tree))
    random.Random(1).shuffle(jobs)
    if A.again: jobs = [j for j in jobs if done.get(j[0], {}).get('killed') is False]
    else: jobs = [j for j in jobs if j[0] not in done]
    print(len(jobs), 'changes to try;', sum(1 for j in jobs if not j[2]), 'on lines no check executes', flush=True)
    out = open(rf, 'a')
    def attempt(key, f, ps, code):
        ps = sorted(ps, key=lambda p: -ps[p])[:A.props]
        def fn(w):
            ld.code['pmesh.' + f] = code; ld.shared.pop('pmesh.' + f, None)
            harn = []; counts = {}
            for p in ps:
                mod = mods[p]; t = time.time(); i = 0
                while time.time() - t < A.seconds:
                    w(dict(at=p, i=i))
                    case = worker.make_case(mod, p.upper(), A.seed + 100, i, 'quick')
                    fail, ch, run = worker.run_case(mod, case)
                    i += 1
                    if fail is not None:
                        if fail.harness: harn.append('%s %s' % (p, fail.msg[:150])); break
                        if hasattr(mod, 'known') and mod.known(case, fail): continue
                        w(dict(killed=p, kind=fail.kind, msg=fail.msg[:150], n=i, harn=harn)); return
                counts[p] = i
            w(dict(killed=False, harn=harn, props=ps, counts=counts))
        return fn
    for p in PROPS:
        for i in range(6): worker.run_case(mods[p], worker.make_case(mods[p], p.upper(), 3, i, 'quick'))
    live = []
    n = killed = 0
    t0 = time.time()
    while jobs or live:
        while jobs and len(live) < A.jobs:
            key, f, ps, do, undo, tree = jobs.pop()
            if not ps:
                out.write(json.dumps(dict(key=key, killed=False, props=[], uncovered=True)) + '\n'); continue
            do()
            try:
                t2 = ast.fix_missing_locations(ast.parse(ast.unparse(tree)))
                code = compile(t2, '/repo/pmesh/%s.py' % f, 'exec', dont_inherit=True)
            except Exception as e:
                undo(); continue
            undo()
            c = child(attempt(key, f, ps, code)); c['key'] = key; c['lim'] = max(A.total, A.seconds * len(ps) + 60)
            live.append(c)
        time.sleep(0.02)
        for c in list(live):
            end = drain(c)
            late = time.time() - c['t'] > c['lim']
            if not (end or late): continue
            if late and not end:
                try: os.killpg(c['pid'], signal.SIGKILL)
                except OSError: os.kill(c['pid'], signal.SIGKILL)
            os.waitpid(c['pid'], 0); os.close(c['fd']); live.remove(c)
            d = dict(key=c['key']); last = None
            for l in c['buf'].decode().splitlines():
                try: x = json.loads(l)
                except ValueError: continue
                if 'at' in x: last = x['at']
                else: d.update(x)
            if 'killed' not in d: d.update(killed=last, kind='hang' if late else 'crash')
            out.write(json.dumps(d) + '\n'); out.flush()
            n += 1; killed += d['killed'] is not False
            if n % 50 == 0: print(n, 'tried', killed, 'reported', round(time.time() - t0), 's', flush=True)
    print('tried', n, 'reported', killed)

main()
