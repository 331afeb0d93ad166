"""C05: every constructor, against assignment to an empty object."""
import signal
import common, impl, tlc
from common import TIER, rng

VIEWS = ('PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance')
VAL = {'str': ['given text', '', ' x ', 'None', '0', 'l' * 300, '\u00e9\n', '#a', 'A'], 'int': [7, 0, -3, 1, 2 ** 40, -1, 10, 255, 10 ** 20],
       'float': [2.5, 0.0, -1e-3, 1.0, 1e300, 0.1 + 0.2, -1.0, 1e-320, float('inf')], 'bool': [True, False, True]}

def value(f, i):
    v = VAL[f['t']][i % len(VAL[f['t']])]
    if f.get('lits') and i % 3 != 1:
        other = [l for l in f['lits'] if l != f['d']]
        v = other[-1 - i // 3 % len(other)] if other else f['d']
    return v

def tok(v, names):
    if isinstance(v, (list, tuple)): return [type(v).__name__] + [tok(x, names) for x in v]
    if id(v) in names: return names[id(v)]
    if v is None or isinstance(v, (str, int, float, bool)): return (type(v).__name__, repr(v))
    return ('?', type(v).__name__)

def get(o, n):
    try: return getattr(o, n)
    except Exception as e: return e

def default_ok(kind, f, v):
    if kind == 'attr': return type(v) is type(f['d']) and v == f['d']
    return (isinstance(v, list) and v == []) if f['many'] else v is None

class Env:
    def __init__(self, S): self.S = S; self.f = {}; self.partner = {}
    def feats(self, k):
        if k not in self.f: self.f[k] = self.S.features(k)
        return self.f[k]

def live(E, p, f, k, at, names):
    """gives a partner a life before the construction: attributes, an object at each of its
    references, and at the end that will point to the new object several (or one) of its class"""
    for n, kd, g, _ in E.feats(f['tgt']):
        if kd == 'attr' and n != 'UUID': setattr(p, n, value(g, 0)); continue
        if kd != 'ref' or f['tgt'] == 'CIM15.IEC61970.Wires.ACLineSegment' and n in VIEWS: continue
        own = n == f['opp']
        os = []
        for j in range((3 if own else 1) if g['many'] else 1):
            x = impl.get_class(k if own else g['tgt'])()
            names[id(x)] = (at, n, j); os.append(x); names.setdefault('alive', []).append(x)
        setattr(p, n, os if g['many'] else os[0])

def one(E, k, kwset, r):
    """kwset: {name: variant}; constructs, and assigns to an empty object.
    '+': collections are given as tuples; '*': partners are shared between references of the same class;
    '@': the partners have attributes, partners of their own and other objects at the same end"""
    share, tup, lived = kwset.get('*'), kwset.get('+'), kwset.get('@')
    kwset = {n: i for n, i in kwset.items() if n not in '*+@'}
    coll = tuple if tup else list
    c = impl.get_class(k); fs = E.feats(k)
    decl = {n: (kd, f) for n, kd, f, _ in fs}
    objs, exc = [], ['', '']
    given = []
    for mode in (0, 1):
        names, kw, parts, pool = {}, {}, {}, {}
        for n, i in kwset.items():
            kd, f = decl[n]
            if kd == 'attr': kw[n] = value(f, i); continue
            if i == 9: kw[n] = None; continue
            cnt = (2, 0, 1)[i % 3] if f['many'] else (1, 0, 1)[i % 3]
            tgt = impl.get_class(f['tgt'])
            ps = []
            for j in range(cnt):
                p = pool.get((f['tgt'], j)) if share else None
                if p is None:
                    p = tgt(); names[id(p)] = (n, j); pool[f['tgt'], j] = p
                    if lived: live(E, p, f, k, (n, j), names)
                ps.append(p)
            parts[n] = ps
            kw[n] = ps if f['many'] else (ps[0] if ps else None)
        o = None
        try:
            if mode == 0: o = c(**{a: (coll(b) if isinstance(b, list) else b) for a, b in kw.items()})
            else:
                o = c()
                for a, b in kw.items():
                    kd, f = decl[a]
                    if b is None and kd == 'ref' and f['many']: continue
                    setattr(o, a, coll(b) if isinstance(b, list) else b)
        except Exception as e:
            exc[mode] = type(e).__name__; o = None
        if o is not None: names[id(o)] = 'self'
        objs.append((o, names, parts)); given.append(kw)
    seen = {}
    if objs[0][0] is None or objs[1][0] is None: return exc, seen
    skip = set(VIEWS) if k == 'CIM15.IEC61970.Wires.ACLineSegment' and any(v in kwset for v in VIEWS) else ()
    for n, kd, f, _ in fs:
        g = n in kwset
        if n in skip and not g: continue
        v0, v1 = get(objs[0][0], n), get(objs[1][0], n)
        t0, t1 = tok(v0, objs[0][1]), tok(v1, objs[1][1])
        isD = default_ok(kd, f, v0); isG, ends, same = True, True, t0 == t1
        if g:
            w = given[0][n]
            if kd == 'attr': isG = type(v0) is type(w) and v0 == w
            elif w is None: isG = isD
            elif f['many']: isG = isinstance(v0, list) and len(v0) == len(w) and all(a is b for a, b in zip(v0, w))
            else: isG = v0 is w
            if kd == 'ref' and f['opp']:
                for q, (o, names, parts) in enumerate(objs):
                    for p in parts.get(n, []):
                        x = get(p, f['opp'])
                        ok = any(y is o for y in x) if isinstance(x, list) else x is o
                        if q == 0: ends = ends and ok
                        objs[q][2].setdefault('$' + n, []).append(tok(x, names))
                same = same and objs[0][2].get('$' + n) == objs[1][2].get('$' + n)
        e = (g, isG, isD, same, ends)
        seen.setdefault(e, n)
    return exc, seen

def plans(E, k, r):
    fs = [(n, kd, f) for n, kd, f, _ in E.feats(k)]
    yield {}
    for n, kd, f in fs:
        yield {n: 0}
        yield {n: 1}
        if kd == 'ref': yield {n: 9}; yield {n: 0, '@': 1}
    def clean(d):
        v = [n for n in d if n in VIEWS]
        if k == 'CIM15.IEC61970.Wires.ACLineSegment':
            keep = r.choice(v) if v else None
            for n in v:
                if n != keep: del d[n]
        return d
    yield clean({n: 0 for n, _, _ in fs})
    yield clean({n: 1 for n, _, _ in fs})
    yield clean({n: 2 for n, _, _ in fs})
    yield {n: 0 for n, kd, f in fs if kd == 'attr'}
    yield clean({n: 0 for n, kd, f in fs if kd == 'ref'})
    for a in E.S.ancestors(k):
        c = E.S.cls[a]; yield clean({f['n']: 2 for f in c['attrs'] + c['refs']})
    m = (24 if TIER == 'quick' else 150)
    for _ in range(m):
        dense = r.choice([.15, .5, .5, .85])
        d = {n: r.randrange(9) for n, _, _ in fs if r.random() < dense}
        items = list(d.items()); r.shuffle(items)
        d = clean(dict(items))
        if not any(f.get('opp') is None and f['many'] for n, kd, f in fs if kd == 'ref' and n in d) and r.random() < .3: d['+'] = 1
        if r.random() < .3: d['*'] = 1
        if r.random() < .3: d['@'] = 1
        yield d

_G = {}
def work(chunk):
    E = Env(_G['S']); out, n = {}, 0
    for k in chunk:
        r = rng('construct', k)
        try: impl.get_class(k)
        except impl.Missing as e:
            out.setdefault((('missing', ''), ()), []).append((k, {}, {}, 0)); continue
        for kwset in plans(E, k, r):
            n += 1
            try: exc, seen = one(E, k, kwset, r)
            except impl.Missing as e: exc, seen = ['missing', ''], {}
            except Exception as e: exc, seen = ['partner: ' + type(e).__name__, ''], {}
            key = (tuple(exc), tuple(sorted(seen)))
            l = out.setdefault(key, [])
            if not l or (len(l) < 40 and l[-1][0] != k): l.append((k, kwset, seen, n))
    return out, n

def run(pid):
    check = common.Check(pid)
    S = impl.Schema()
    r = tlc.run('Construct', dict(Depth=3, PerClass=3 if TIER == 'thorough' else 2), invariants=['AsAssigned'], properties=['Monotone'])
    if not r['ok']: raise tlc.TLCError('Construct violated')
    check.tlc(r)
    impl.import_all(S); _G['S'] = S
    recs, n = {}, 0
    for o, c in common.parallel(work, sorted(S.cls)):
        n += c
        for k, l in o.items(): recs.setdefault(k, []).extend(l)
    keys = sorted(recs)
    enc = [dict(exc=k[0][0], exc2=k[0][1], seen=[dict(given=e[0], isG=e[1], isD=e[2], same=e[3], ends=e[4]) for e in k[1]]) for k in keys]
    res = tlc.run('ConstructStep', files={'steps.json': enc}, invariants=['Report'])
    if res['distinct'] != len(enc): raise tlc.TLCError('not all records were judged')
    for f in tlc.printed(res['out'], 'FAIL'):
        k = keys[f['i'] - 1]
        badfeat = [k[1][j] for j, b in enumerate(f['bad']) if b] if f['bad'] else []
        for cid, kwset, seen, _ in recs[k][:40]:
            names = [seen[e] for e in badfeat if e in seen]
            check.violation(cid, '%s(%s): %s' % (cid, ', '.join(sorted(kwset))[:200], ('raises %s/%s' % k[0]) if any(k[0]) else 'wrong at %s' % names),
                            dict(cls=cid, kwargs=kwset, verdict=enc[f['i'] - 1], features=names))
    check.add(traces_validated_against_impl=n, distinct_records_judged=len(enc), classes=len(S.cls))
    check.cov['samples'] = [dict(cls=recs[k][0][0], kwargs=recs[k][0][1]) for k in keys[:3]]
    check.assumptions = ['features, defaults and opposite ends as in spec/data/schema.json']
    return check.finish()
