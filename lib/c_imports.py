"""C08: imports.  Imports.tla models the import system on the library's own
import statements; real imports in fresh interpreters are judged by ImportStep."""
import ast, concurrent.futures as cf, importlib.util, json, os, py_compile, subprocess, sys, tempfile
import common, impl, tlc
from common import TIER, REPO, rng
HERE = os.path.dirname(os.path.abspath(__file__))

def modules():
    out = {}
    for top in ('CIM14', 'CIM15'):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'): continue
                p = os.path.join(dp, f); m = os.path.relpath(p, REPO)[:-3].replace(os.sep, '.')
                if m.endswith('.__init__'): m = m[:-9]
                out[m] = p
    return out

def program(name, path, mods):
    """the statements of Imports.tla; None if the module is beyond it"""
    t = ast.parse(open(path, encoding='utf-8').read())
    ispkg = path.endswith('__init__.py')
    prog = []
    def absolute(n, level):
        if not level: return n or ''
        base = name.split('.') if ispkg else name.split('.')[:-1]
        base = base[:len(base) - (level - 1)]
        return '.'.join(base + ([n] if n else []))
    def walk(body):
        for s in body:
            if isinstance(s, ast.ImportFrom):
                M = absolute(s.module, s.level)
                prog.append(['from', M, [a.name for a in s.names]])
                for a in s.names:
                    if a.asname: prog.append(['bind', a.asname])
            elif isinstance(s, ast.Import):
                for a in s.names: prog.append(['import', a.name])
            elif isinstance(s, ast.ClassDef): prog.append(['class', s.name, [b.id for b in s.bases if isinstance(b, ast.Name)]])
            elif isinstance(s, ast.FunctionDef): prog.append(['bind', s.name])
            elif isinstance(s, ast.Assign):
                for x in s.targets:
                    if isinstance(x, ast.Name): prog.append(['bind', x.id])
            elif isinstance(s, (ast.If, ast.Try)): walk(s.body)
    walk(t.body)
    return prog

def model(check, mods, sample):
    prog = {m: program(m, p, mods) for m, p in mods.items()}
    chain = {m: ['.'.join(m.split('.')[:i + 1]) for i in range(m.count('.') + 1)] for m in mods}
    names = {m: sorted({n for s in pr for n in (s[2] if s[0] == 'from' else [s[1]] if s[0] in ('class', 'bind') else [])}) for m, pr in prog.items()}
    tops = sorted({m.split('.')[0] for m in mods})
    def run1(part):
        top, starts = part
        mine = {m for m in mods if m.split('.')[0] == top}
        f = dict(prog={m: prog[m] for m in mine}, chain={m: chain[m] for m in mine}, names={m: names[m] for m in mine}, starts=starts)
        return tlc.run('Imports', files={'imports.json': f}, invariants=['Verdict'], workers=1, timeout=800)
    parts = []
    for top in tops:
        st = [m for m in sample if m.split('.')[0] == top]
        k = 4
        parts += [(top, st[i::k]) for i in range(k) if st[i::k]]
    out = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(run1, parts):
            check.tlc(r)
            for v in tlc.printed(r['out'], 'IMP'): out[v['start']] = v
    return out

def children(jobs, ref=None):
    """runs the jobs over fresh interpreters; results in order"""
    import threading
    rf = None
    if ref is not None:
        fd, rf = tempfile.mkstemp(suffix='.json'); os.write(fd, json.dumps(ref).encode()); os.close(fd)
    env = dict(os.environ); env.pop('PYTHONDONTWRITEBYTECODE', None); env['PYTHONDONTWRITEBYTECODE'] = '1'
    def one(chunk):
        inp = ''.join(json.dumps(j) + '\n' for j in chunk)
        p = subprocess.run([sys.executable, os.path.join(HERE, 'imports_child.py')] + ([rf] if rf else []), input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=800)
        l = [json.loads(x) for x in p.stdout.splitlines()]
        if len(l) != len(chunk): raise RuntimeError('import child died (%d of %d)' % (len(l), len(chunk)))
        return l
    n = 24
    chunks = [jobs[i::n] for i in range(n)]
    res = [None] * len(jobs)
    with cf.ThreadPoolExecutor(8) as ex:
        for i, l in enumerate(ex.map(one, [c for c in chunks if c])): res[i::n] = l
    if rf: os.unlink(rf)
    return res

def compile_all(chunk):
    for p in chunk:
        try: py_compile.compile(p, doraise=True)
        except Exception: pass

def run(pid):
    check = common.Check(pid)
    S = impl.Schema()
    mods = modules()
    ext = sorted(set(c['pkg'] for c in S.cls.values()) - set(mods))
    for p in ext: check.violation(p, 'package %s of the model is not there' % p)
    common.parallel(compile_all, sorted(mods.values()))
    r = rng('imports')
    names = sorted(mods)
    base = children([dict(order=names, all=True, ref=True)])[0]
    ref = base.get('ref')
    jobs = [dict(order=[m]) for m in names]
    n_orders, n_docs = (24, 48) if TIER == 'quick' else (400, 600)
    for _ in range(n_orders):
        o = list(names); r.shuffle(o); jobs.append(dict(order=o, all=True))
    o = list(reversed(names)); jobs.append(dict(order=o, all=True))
    byroot = {}
    for c in S.cls.values(): byroot.setdefault(c['root'], []).append(c['name'])
    for i in range(n_docs):
        root = r.choice(sorted(byroot)); l = sorted(set(byroot[root])); r.shuffle(l)
        jobs.append(dict(order=[], docs=[l[:r.choice([1, 3, 40, len(l)])], root, S.roots[root]['nsURI']]))
    # two arbitrary modules one after the other
    for _ in range(200 if TIER == 'quick' else 4000): jobs.append(dict(order=r.sample(names, r.choice([2, 2, 3, 5]))))
    idx = list(range(len(jobs))); r.shuffle(idx)
    shuffled = children([jobs[i] for i in idx], ref)
    res = [None] * len(jobs)
    for i, x in zip(idx, shuffled): res[i] = x
    jobs = [dict(order=names, all=True)] + jobs; res = [base] + res
    enc = {}
    for j, x in zip(jobs, res):
        e = dict(exc=x['exc'], all=x['all'] and not x['exc'], classes=x['classes'], base=base['classes'], differ=x['differ'], strays=x['strays'], unread=x['unread'][:5], doc=bool(j.get('docs')))
        enc.setdefault(json.dumps(e, sort_keys=True), []).append((j, x))
    keys = sorted(enc)
    t = tlc.run('ImportStep', files={'steps.json': [json.loads(k) for k in keys]}, invariants=['Report'])
    if t['distinct'] != len(keys): raise tlc.TLCError('not all records were judged')
    for f in tlc.printed(t['out'], 'FAIL'):
        for j, x in enc[keys[f['i'] - 1]][:200]:
            first = j['order'][0] if j['order'] else 'document %s %s' % (j['docs'][1], j['docs'][0][:3])
            check.violation(first if len(j['order']) == 1 else 'order', 'import order starting %s: %s %s %s' % (first, x['failed'], x['exc'], {k: x[k] for k in ('differ', 'strays', 'unread') if x[k]}), dict(job=dict(j, order=j['order'][:20]), result=dict(x, ref=None)))
    # the model's own verdicts, on the statements found in the sources
    try:
        sample = names if TIER == 'thorough' else sorted(r.sample(names, 90))
        pred = model(check, mods, sample)
        real = {j['order'][0]: not x['exc'] for j, x in zip(jobs, res) if len(j['order']) == 1}
        agree = sum(1 for m in pred if pred[m]['ok'] == real.get(m))
        check.add(model_first_imports=len(pred), model_agrees_with_interpreter=agree)
        check.cov['model_disagreements'] = [(m, pred[m], real.get(m)) for m in sorted(pred) if pred[m]['ok'] != real.get(m)][:5]
    except (tlc.TLCError, SyntaxError, KeyError, ValueError) as e: check.cov['model_skipped'] = str(e)[-300:]
    check.add(traces_validated_against_impl=len(jobs), first_imports=len(names), orders=n_orders + 2, documents=n_docs)
    check.cov['samples'] = [jobs[1], jobs[-1]]
    check.assumptions = ['each run is a fresh forked interpreter; bytecode compiled from the current sources']
    return check.finish()
