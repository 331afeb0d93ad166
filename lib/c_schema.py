"""C06: the classes against the published UML model (Schema.tla)."""
import common, impl, tlc
from common import TIER
VIEWS = ('PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance')
OFFER = {'str': ['text', '', ' a\tb\n', '\u00e9\u4e2d\U0001f600', '0', 'None', '<&>"\'', 'long ' * 20000], 'int': [0, 1, -7, 2 ** 40, -10 ** 30], 'float': [0.0, -1.5, 1e300, 5e-324, 0.1 + 0.2, -1e-9, float('inf')], 'bool': [True, False]}

def show(v):
    if v is None: return 'None'
    if isinstance(v, list): return 'list %d' % len(v)
    if isinstance(v, (str, int, float, bool)): return '%s %.200r' % (type(v).__name__, v)
    return 'object ' + type(v).__name__

def expected(S, k):
    c = S.cls[k]
    return dict(pkg=c['pkg'], name=c['name'], sup=c['sup'] or '',
                attrs=[[a['n'], a['t'], show(a['d']), a.get('e') or ''] for a in c['attrs']],
                refs=[[r['n'], r['many'], r['tgt'], r['opp'] or ''] for r in c['refs']])

def attempt(f, *a):
    try: return f(*a)
    except Exception as e: return '!' + type(e).__name__

def observe(S, k, classes):
    e = S.cls[k]
    try: c = impl.get_class(k)
    except impl.Missing as x: return dict(found=False, why=str(x))
    pkg = c.__module__
    if pkg.rsplit('.', 1)[-1] == c.__name__: pkg = pkg.rsplit('.', 1)[0]
    sup = ''
    for b in c.__mro__[1:]:
        if b in classes: sup = classes[b]; break
    tab = lambda n, d: c.__dict__.get(n, d)
    g = dict(found=True, module=pkg, name=c.__name__, sup=sup)
    g['attrs'] = list(map(str, tab('_attrs', [])))
    g['types'] = sorted([n, getattr(t, '__name__', str(t))] for n, t in dict(tab('_attr_types', {})).items())
    g['defaults'] = sorted([n, show(v)] for n, v in dict(tab('_defaults', {})).items())
    g['enums'] = sorted([n, str(v)] for n, v in dict(tab('_enums', {})).items())
    g['refs'] = list(map(str, tab('_refs', []))); g['many'] = list(map(str, tab('_many_refs', [])))
    o = attempt(c)
    if isinstance(o, str): return dict(found=False, why='cannot be created: ' + o)
    feats = [f['n'] for f in e['attrs'] + e['refs']]
    g['initial'] = [[n, show(attempt(getattr, o, n))] for n in feats]
    bad = []
    for a in e['attrs']:
        for v in OFFER[a['t']] + (a.get('lits') or []):
            x = attempt(setattr, o, a['n'], v)
            w = attempt(getattr, o, a['n'])
            if x is not None or type(w) is not type(v) or w != v: bad.append([a['n'], repr(v)[:200], show(w)])
            w = attempt(lambda: getattr(c(**{a['n']: v}), a['n']))
            if type(w) is not type(v) or w != v: bad.append([a['n'] + ' (constructor)', repr(v)[:200], show(w)])
    g['refused'] = bad
    ends = []
    for r in e['refs']:
        try:
            o, p = c(), impl.get_class(r['tgt'])()
            before = {n: show(getattr(p, n)) for n, _, _, _ in S.features(r['tgt'])}
            if r['many']: setattr(o, r['n'], [p])
            else: setattr(o, r['n'], p)
            v = getattr(o, r['n'])
            kind = ('list %d' % len(v) if isinstance(v, list) and all(x is p for x in v) else 'one' if v is p else show(v))
            back = []
            for n in before:
                w = getattr(p, n)
                if w is o or isinstance(w, list) and any(x is o for x in w): back.append(n)
            mine = [f for f in back if f == r['opp'] or not (f in VIEWS and r['opp'] in VIEWS)]   # three views of one reference
            ends.append([r['n'], kind, '+'.join(mine)])
        except Exception as x: ends.append([r['n'], '!' + type(x).__name__, ''])
    g['ends'] = ends
    return g

_G = {}
def work(chunk):
    return [(k, observe(_G['S'], k, _G['c'])) for k in chunk]

def model_ok(check, S):
    m = {k: dict(sup=c['sup'] or '', attrs=[dict(n=a['n'], d=a['d'] if a.get('lits') and a['d'] else '', lits=a.get('lits') or []) for a in c['attrs']],
                 refs=[dict(n=r['n'], tgt=r['tgt'], opp=r['opp'] or '', view=bool(r.get('view'))) for r in c['refs']]) for k, c in S.cls.items()}
    r = tlc.run('SchemaModel', files={'model.json': m}, invariants=['ModelOk'])
    if not r['ok']: raise tlc.TLCError('the model is inconsistent: ' + r['out'][-800:])
    check.tlc(r)

def run(pid):
    check = common.Check(pid)
    S = impl.Schema()
    model_ok(check, S)
    impl.import_all(S)
    cl = {}
    for k in S.cls:
        try: cl[impl.get_class(k)] = k
        except impl.Missing: pass
    _G.update(S=S, c=cl)
    obs = [x for p in common.parallel(work, sorted(S.cls)) for x in p]
    obs.sort()
    enc = [dict(exp=expected(S, k), got=g) for k, g in obs]
    res = tlc.run('Schema', files={'steps.json': enc}, invariants=['Report'])
    if res['distinct'] != len(enc): raise tlc.TLCError('not all classes were judged: ' + res['out'][-500:])
    for f in tlc.printed(res['out'], 'FAIL'):
        k, g = obs[f['i'] - 1]
        check.violation(k, '%s differs from the model: %s%s' % (k, ', '.join(f['clauses']), ' (%s)' % g['why'] if g.get('why') else ''), dict(cls=k, expected=enc[f['i'] - 1]['exp'], got=g))
    check.add(traces_validated_against_impl=len(enc), classes=len(enc), attributes=sum(len(c['attrs']) for c in S.cls.values()), references=sum(len(c['refs']) for c in S.cls.values()))
    check.cov['samples'] = [enc[0]]
    check.assumptions = ['spec/data/schema.json is the published model, reconciled with the shipped ecore files as described in DESIGN.md']
    return check.finish()
