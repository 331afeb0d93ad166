"""C16, C17: the writer and the round trip, against CimWrite.tla / WriteStep.tla."""
import collections, concurrent.futures as cf, glob, io, os, shutil, tempfile
import xml.etree.ElementTree as ET
import common, impl, tlc, cimdoc, c_read, big
from c_read import Env, _G, pick, kind_of, new_id, random_model, tok, realise, model_values
from c_assoc import redeclares
from cimdoc import RDF, EMPTY
from common import TIER, rng
THOROUGH = TIER == 'thorough'
ENCODINGS = ['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'utf-16']

def untok(t): return {'str': lambda x: eval(x), 'int': int, 'float': float, 'bool': lambda x: x == 'True'}[t[0]](t[1])

def link(o, S, a, side, y):
    many, name = (a['lm'], a['lr']) if side == 'l' else (a['rm'], a['rr'])
    if not many: setattr(o, name, y); return
    f = getattr(o, 'add' + name, None) or getattr(o, 'add_' + name)
    f(y)

def build(E, el):
    """objects for the elements of a document, through the classes' own interface"""
    m = {}
    for e in el:
        if e['t'] == 'obj': m[e['id']] = impl.get_class(e['c'])(UUID=e['id'])
    for e in el:
        for s in e['b']:
            if e['t'] != 'obj' or s['k'] == 'bad' or s['k'] == 'ref' and s['to'] not in m: continue
            if s['k'] == 'attr': setattr(m[e['id']], s['f'], untok(s['v']))
            else: link(m[e['id']], E.S, E.assocs[s['a']], s['s'], m[s['to']])
    return m

def enums_set(E, m):
    """(id, attribute) of the enumeration values that are set"""
    out = set()
    for i, o in m.items():
        for n, kd, f, dc in E.S.features(E.O.class_of(o)):
            if kd == 'attr' and f.get('lits') and getattr(o, n) is not None: out.add((i, n))
    return out

class Plain:
    """a target that can only be written to"""
    __slots__ = ('all',)
    def __init__(self): self.all = []
    def write(self, s): self.all.append(s)

def write(m, how, enc, scratch):
    """cimwrite; returns (bytes, text or None)"""
    from PyCIM import cimwrite
    if how == 'string':
        s = io.StringIO(); cimwrite(m, s, enc); return s.getvalue().encode(enc), s.getvalue()
    if how == 'plain':
        s = Plain(); cimwrite(m, s, enc); return ''.join(s.all).encode(enc), None
    fd, path = tempfile.mkstemp(dir=scratch); os.close(fd)
    try:
        if how == 'path':
            import gc
            cimwrite(m, path, enc); gc.collect()
        else:
            with open(path, 'w', encoding=enc, newline='') as f:
                cimwrite(m, f, enc)
                with open(path, 'rb') as g: data = g.read()      # written when cimwrite returns
            return data, None
        with open(path, 'rb') as f: return f.read(), None
    finally: os.unlink(path)

def parse_value(f, text):
    text = text or ''
    try:
        if f['t'] == 'bool':
            t = text.strip().lower()
            return tok({'true': True, '1': True, 'false': False, '0': False}[t])
        if f['t'] == 'int': return tok(int(text))
        if f['t'] == 'float': return tok(float(text))
    except (KeyError, ValueError): return ('!', text[:40])
    return tok(text)

def parse(E, m, data, uri):
    """the document as an XML parser sees it -> (elements, oddities)"""
    S = E.S; odd = []
    try: root = ET.fromstring(data)
    except ET.ParseError as e: return [], ['not well formed: %s' % e]
    ns = '{%s#}' % uri
    if root.tag != '{%s}RDF' % RDF or root.attrib: odd.append('root %s' % root.tag)
    out = []
    for e in root:
        if (e.tail or '').strip() or (e.text or '').strip(): odd.append('loose text')
        i = e.get('{%s}ID' % RDF)
        if i is None: i = e.get('{%s}about' % RDF, '')[1:]
        if len(e.attrib) != 1: odd.append('attributes of %s' % e.tag)
        if not e.tag.startswith(ns): odd.append('element %s' % e.tag); continue
        name = e.tag[len(ns):]
        o = m.get(i); cid = E.O.class_of(o) if o is not None else None
        out.append(dict(t='obj', id=i, c=cid if cid in S.cls and S.cls[cid]['name'] == name else name, b=[]))
        if cid not in S.cls: odd.append('no such entry'); continue
        b = out[-1]['b']
        fs = {}
        for a in S.ancestors(cid):
            for f in S.cls[a]['attrs']:
                if f['n'] != 'UUID': fs.setdefault('%s.%s' % (S.cls[a]['name'], f['n']), ('attr', f, a))
            for f in S.cls[a]['refs']: fs.setdefault('%s.%s' % (S.cls[a]['name'], f['n']), ('ref', f, a))
        for st in e:
            if not st.tag.startswith(ns) or st.tag[len(ns):] not in fs: odd.append('statement %s' % st.tag); continue
            kd, f, dc = fs[st.tag[len(ns):]]
            if len(st) or (st.tail or '').strip(): odd.append('content of %s' % st.tag)
            res = st.get('{%s}resource' % RDF)
            if kd == 'attr' and not f.get('lits') and not f.get('e'):
                if st.attrib: odd.append('attributes of %s' % st.tag)
                b.append(dict(k='attr', f=f['n'], v=parse_value(f, st.text)))
                continue
            if res is None or len(st.attrib) != 1 or (st.text or '').strip(): odd.append('resource of %s' % st.tag); continue
            if kd == 'attr':
                pre = '%s#%s.' % (uri, f['e'])
                if not res.startswith(pre): odd.append('enumeration %s' % res); continue
                b.append(dict(k='attr', f=f['n'], v=tok(res[len(pre):])))
            else:
                if not res.startswith('#'): odd.append('reference %s' % res); continue
                if f.get('view'): continue
                # a redeclared reference is one reference
                top = [d for n, k2, g, d in S.features(cid) if n == f['n']][0]
                if top != dc: continue
                a, side = E.O.assoc[(dc, f['n'])]
                b.append(dict(k='ref', a=a['id'], s=side, to=res[1:], name='', decl=''))
    return out, odd

class Writes(cimdoc.Records):
    def add(self, model, order, out, odd, exc, again, same, back, read, assocs, ctx, outs=()):
        self.n += 1
        ren = {}
        def nm(kind, x):
            t = ren.setdefault(kind, {})
            if x not in t: t[x] = '%s%d' % (kind, len(t) + 1)
            return t[x]
        objs = [[nm('o', i), nm('c', c)] for i, c in model['objs']]
        vals = sorted([nm('o', a), nm('f', b), nm('v', c)] for a, b, c in model['vals'])
        links = sorted([nm('A', a), nm('o', b), nm('o', c)] for a, b, c in dict.fromkeys(model['l'] + model['r']))
        def st(s):
            if s['k'] == 'attr': return dict(k='attr', f=nm('f', s['f']), v=nm('v', s['v']))
            return dict(k='ref', a=nm('A', s['a']), s=s['s'], to=nm('o', s['to']))
        d = [dict(t='obj', id=nm('o', e['id']), c=nm('c', e['c']), b=[st(s) for s in e['b']]) for e in out]
        bk = dict(exc=back['exc'], other=back['other'], objs=sorted([nm('o', a), nm('c', b)] for a, b in back['objs']), vals=sorted([nm('o', a), nm('f', b), nm('v', c)] for a, b, c in back['vals']),
                  **{k: sorted([nm('A', a), nm('o', b), nm('o', c)] for a, b, c in back[k]) for k in 'lr'})
        A = {t: [assocs[a]['lm'], assocs[a]['rm'], assocs[a]['uni']] for a, t in ren.get('A', {}).items()}
        A['A0'] = [True, True, True]
        key = impl.json.dumps(dict(model=dict(objs=objs, vals=vals, links=links), outs=[nm('o', i) for i in outs], out=d, odd=odd, exc=exc, again=again, same=same, back=bk, read=read, A=A), sort_keys=True)
        l = self.d.setdefault(key, [])
        if len(l) < 20: l.append(ctx)

NOTHING = dict(objs=[], vals=[], l=[], r=[], other=[], exc='')
ODD = [o for o in c_read.ODD if o not in ('A%d', 'a%d')]
class Full:
    """a stream that fails after n writes"""
    def __init__(self, n): self.n = n
    def write(self, s):
        self.n -= 1
        if self.n < 0: raise IOError('no space')
    def flush(self): pass
def trips(E, W, pid, root, m, r, ctx, rest={}):
    """writes the model; perhaps edits it and writes it again"""
    m = trip(E, W, pid, root, m, r, ctx, rest)
    while r.random() < .25 and m:
        some = dict(r.sample(sorted(m.items()), min(len(m), 3)))
        random_values(E, some, r, r.choice([.1, .5]))
        if r.random() < .5:
            for i, o in some.items():
                fs = [(n, f) for n, kd, f, _ in E.S.features(E.O.class_of(o)) if kd == 'ref' and n not in c_read.VIEWS]
                for n, f in r.sample(fs, min(2, len(fs))): setattr(o, n, [] if f['many'] else None)
        if r.random() < .4:
            l = list(m.items()); r.shuffle(l); m = dict(l)
        m = trip(E, W, pid, root, m, r, ctx + ', edited', rest)

def trip(E, W, pid, root, m, r, ctx, rest={}):
    """writes the model m, reads the result back, records both; rest: objects the model refers to"""
    S = E.S; cim = 'CIM14' if root.startswith('CIM14') else 'CIM15'
    uri = S.roots[cim]['nsURI']
    if r.random() < .15:      # identifiers may be any text
        odd = {i: r.choice(ODD) % (n + _G['odd']) if r.random() < .5 else i for n, i in enumerate(m)}
        _G['odd'] += len(m)       # never one identifier twice
        for i, o in m.items(): o.UUID = odd[i]
        m = {odd[i]: o for i, o in m.items()}
    st = enums_set(E, m); names = E.O.names({**rest, **m}); ids = list(m)
    given = m
    if pid == 'C17' and r.random() < .15: given = {('key %d' % n if n % 3 else n): o for n, o in enumerate(m.values())}     # the map's keys are not stated
    elif r.random() < .1: given = collections.OrderedDict(m)
    keys = list(given)
    def see(x, nm): 
        o = E.O.of(x, nm, ids, st); o['vals'] = [v for v in o['vals'] if v[2] != ('NoneType', 'None')]; return o
    before = see(m, names)
    enc, how = r.choice(ENCODINGS), r.choice(['string', 'string', 'path', 'file', 'plain'])
    exc, out, odd, data, text, again = '', [], [], b'', None, True
    try: data, text = write(given, how, enc, _G['tmp'])
    except Exception as e: exc = type(e).__name__ + ': ' + str(e)[:100]
    if not exc:
        out, odd = parse(E, m, data, uri)
        if pid == 'C17':
            if r.random() < .15:
                from PyCIM import cimwrite
                try: cimwrite(given, Full(r.randrange(1 + 6 * len(m))), enc)
                except IOError: pass
            try: again = write(given, how, enc, _G['tmp'])[0] == data
            except Exception as e: again = False
    after = see(m, names)
    same = after == before and list(given) == keys and all(p is o for p, o in zip(m.values(), given.values())) and len(given) == len(m)
    back = NOTHING
    if pid == 'C16' and not exc:
        from PyCIM import cimread
        args = (None, None) if root == cim else (E.maps[root], uri)
        src = io.StringIO(text) if text is not None and r.random() < .5 else io.BytesIO(data)
        try:
            mm = cimread(src, *args); back = dict(E.O.of(mm, E.O.names(mm), ids, st), exc='')
            if len(mm) != len(m): back['other'] = back['other'] + ['number of entries']
        except Exception as e: back = dict(NOTHING, exc=type(e).__name__ + ': ' + str(e)[:100])
    if before['other']: odd = odd + before['other']
    if len(m) > 900: whole(E, W, pid, before, out, odd, exc, again, same, back, ids, (ctx, how, enc)); return m
    if pid == 'C16':      # only what matters for the round trip
        W.add(before, ids, [dict(t='obj', id=i, c=c, b=b) for (i, c), b in zip(before['objs'], own(E, before))], [], exc, True, same, back, True, E.assocs, (ctx, how, enc, data[:3000]))
    else: W.add(before, ids, out, odd, exc, again, same, back, False, E.assocs, (ctx, how, enc, data[:3000]), list(rest))
    return m

def whole(E, W, pid, before, out, odd, exc, again, same, back, ids, ctx):
    """A big model object by object: each with its statements and links, and the
    objects it is linked with standing outside; and one record for the order."""
    if exc: W.add(NOTHING, [], [], odd, exc, again, same, back, False, E.assocs, ctx); return
    if pid == 'C16': out = [dict(t='obj', id=i, c=c, b=b) for (i, c), b in zip(before['objs'], own(E, before))]
    bare = lambda o, **k: dict(o, vals=[], l=[], r=[], **k)
    W.add(bare(before), [], [dict(e, b=[]) for e in out], odd, exc, again, same, bare(back, other=back['other'][:5]), pid == 'C16', E.assocs, ctx + ('all',))
    def by(o, k, f):
        d = {}
        for x in o[k]:
            for i in {x[j] for j in f}: d.setdefault(i, []).append(x)
        return d
    idx = lambda o: (by(o, 'objs', (0,)), by(o, 'vals', (0,)), by(o, 'l', (1, 2)), by(o, 'r', (1, 2)))
    B, K = idx(before), idx(back); O = {}
    for e in out: O.setdefault(e['id'], []).append(e)
    def local(X, i, exc): return dict(objs=X[0].get(i, []), vals=X[1].get(i, []), l=X[2].get(i, []), r=X[3].get(i, []), other=[], exc=exc)
    for i in ids:
        b, k = local(B, i, ''), local(K, i, back['exc'])
        near = sorted({x for t in b['l'] + b['r'] for x in t[1:] if x != i})
        W.add(b, [], O.get(i, []), [], '', True, True, k, pid == 'C16', E.assocs, ctx + ('object %s' % i,), near)

def own(E, o):
    """the statements of each object of an observed model"""
    by = {i: [] for i, _ in o['objs']}
    for i, f, v in o['vals']: by[i].append(dict(k='attr', f=f, v=v))
    for a, x, y in dict.fromkeys(o['l']):
        if x in by: by[x].append(dict(k='ref', a=a, s='l', to=y))
    for a, x, y in dict.fromkeys(o['r']):
        if y in by: by[y].append(dict(k='ref', a=a, s='r', to=x))
    return [by[i] for i, _ in o['objs']]

def models(check, kinds, pid):
    def one(k):
        return k, tlc.run('CimWrite', dict(LM=k[0], RM=k[1], Uni=k[2], Self=k[3], MaxObj=3 if k[3] else 4, MaxLinks=3), invariants=['RoundTrip', 'Exact', 'OneEnd', 'Prefix', 'Emit'], properties=['ReadOnly'], timeout=800)
    out = {}
    with cf.ThreadPoolExecutor(common.NPROC) as ex:
        for k, r in ex.map(one, sorted(kinds)):
            if not r['ok']: raise tlc.TLCError('CimWrite violated for %s:\n%s' % (k, r['out'][-2000:]))
            # references that leave the model are not read back
            check.tlc(r); out[k] = [m for m in tlc.printed(r['out'], 'MOD') if pid == 'C17' or not m['o']]
    return out

def some_value(E, f, r):
    if f.get('lits'): return r.choice(f['lits'])
    while True:
        v = realise(pick(_G['forms'], f['t'], r), r)[1]
        if f['t'] != 'float' or v != 0 or str(v)[0] != '-': return v

def random_values(E, m, r, p):
    for i, o in m.items():
        for n, kd, f, dc in E.S.features(E.O.class_of(o)):
            if kd == 'attr' and n != 'UUID' and r.random() < p: setattr(o, n, some_value(E, f, r))

def _work(chunk):
    E, pid = _G['E'], _G['pid']; S = E.S; W = Writes()
    for what, root, part, arg in chunk:
        r = rng(pid, what, root, part)
        if what == 'docs':        # models of CimWrite.tla, several in one map
            n = 0; todo = []
            for a, picks in arg:
                for d in picks:
                    n += 1; ids = {}; el = []
                    sub = {}
                    for e in d['e'] + d['o']:
                        ids[e] = new_id(r, '%d%s' % (n, e))
                    for e in d['e'] + d['o']:
                        L = e[0] == 'a'
                        cid = E.concrete(a['lc'], a['lr'], r) if L else E.concrete(a['rc'], a['rr'], r)
                        if kind_of(a)[3] and a['rr'] and redeclares(S, cid, a['rc'], a['rr']): cid = a['lc']
                        sub[ids[e]] = impl.get_class(cid)(UUID=ids[e])
                    for _, x, y in d['l']:
                        if a['uni'] or r.random() < .5: link(sub[ids[x]], S, a, 'l', sub[ids[y]])
                        else: link(sub[ids[y]], S, a, 'r', sub[ids[x]])
                    if d['v']: random_values(E, {ids[d['v'][0][0]]: sub[ids[d['v'][0][0]]]}, r, .3)
                    todo.append((a, sub, {ids[e]: sub.pop(ids[e]) for e in d['o']}))
            r.shuffle(todo)
            for i in range(0, len(todo), 12):
                m = {}; rest = {}
                for _, s, o in todo[i:i + 12]: m.update(s); rest.update(o)
                trips(E, W, pid, root, m, r, 'models of %s' % ', '.join(a['id'] for a, _, _ in todo[i:i + 3]), rest)
        elif what == 'same':      # entries with one identifier (say, none), or one object under several keys
            for k in arg:
                u = r.choice(['', '', 'same', '_1']); c = impl.get_class(k); n = r.choice([2, 3, 5])
                os = [c(UUID=u)] * n if r.random() < .3 else [c(UUID=u) for _ in range(n)]
                try: data, exc = write({'k%d' % j: o for j, o in enumerate(os)}, r.choice(['string', 'path', 'file', 'plain']), 'utf-8', _G['tmp'])[0], ''
                except Exception as e: data, exc = b'', type(e).__name__ + ': ' + str(e)[:100]
                m = {u: os[0]}; obs = E.O.of(m, E.O.names(m), [u], enums_set(E, m))
                uri = S.roots['CIM14' if root.startswith('CIM14') else 'CIM15']['nsURI']
                out, odd = parse(E, m, data, uri) if not exc else ([], [])
                obs['objs'] = obs['objs'] * n
                W.add(obs, [], out, odd, exc, True, True, NOTHING, False, E.assocs, ('%d entries %r of %s' % (n, u, k), data[:1500]))
        elif what == 'class':     # every class, values in its attributes
            m = {}
            for j, k in enumerate(arg): m['_%d' % j] = impl.get_class(k)(UUID='_%d' % j)
            random_values(E, m, r, r.choice([.1, .5, 1]))
            if pid == 'C17':
                for i, o in m.items():
                    for n, kd, f, dc in S.features(E.O.class_of(o)):
                        if kd == 'attr' and f.get('lits') and r.random() < .2: setattr(o, n, None)
            trips(E, W, pid, root, m, r, 'classes %s...' % arg[0])
        else:
            if what == 'whole':
                if root.startswith('/'): root, _, el = big.sample(E, arg); el = [dict(e, b=list(e['b'])) for e in el]; r.shuffle(el)
                elif arg and part == 'star': el = c_read.star(E, root, r, arg)
                elif arg: el = random_model(E, root, r, arg, arg, 1, hubs=8)
                else: el = random_model(E, root, r, r.choice([950, 2500]), 4000, 3, hubs=8)
            elif what == 'big': el = random_model(E, root, r, 700, 700, 1)
            elif what == 'several': el = random_model(E, root, r, 0, 40, 2, among=arg)
            else: el = random_model(E, root, r, r.choice([3, 10, 30]), r.choice([3, 12, 50]), 3)
            m = build(E, el); random_values(E, m, r, r.choice([0, .1, .4]))
            if what != 'whole' and r.random() < .05: m = {}
            trips(E, W, pid, root, m, r, 'model %s %s' % (root, part))
    return W.d, W.n, 0

def _guarded(chunk):
    W = Writes()
    for it in chunk:
        try: d, n, _ = _work([it])
        except Exception as e:
            import traceback
            W.add(dict(NOTHING), [], [], [], 'building the model: %s: %s' % (type(e).__name__, str(e)[:150]), True, True, NOTHING, False, {}, (str(it)[:80], '', '', traceback.format_exc()[-1500:]))
            continue
        o = Writes(); o.d, o.n = d, n; W.merge(o)
    return W.d, W.n, 0

def run(pid):
    check = common.Check(pid)
    E = Env(); _G['E'] = E; _G['pid'] = pid; S = E.S
    kinds = {kind_of(a) for a in E.assocs.values()}
    mods = models(check, kinds, pid)
    _G['forms'] = model_values(check, 2); _G['odd'] = 0
    random_model(E, 'CIM15', rng('warm'))
    items = [('docs', root, i, l) for root, i, l in c_read.plan_c11(E, mods, 40 if THOROUGH else 5, pid)]
    for root in S.roots:
        ks = [k for k in sorted(S.cls) if S.cls[k]['root'] == root and k not in E.hidden and not k.endswith('.Element')]
        for t in range(15 if THOROUGH else 3):
            rng(pid, root, t).shuffle(ks)
            if pid == 'C17' and not t: items.append(('same', root, 0, ks[:400 if THOROUGH else 40]))
            for i in range(0, len(ks), 12): items.append(('class', root, (t, i), ks[i:i + 12]))
        for i in range((10 if THOROUGH else 1) * (50 if root in ('CIM14', 'CIM15') else 8)): items.append(('model', root, i, 0))
        if root in ('CIM14', 'CIM15'): items += [('whole', root, i, 0) for i in range(8 if THOROUGH else 2)] + [('big', root, i, 0) for i in range(8 if THOROUGH else 1)]
    items += [('several', root, '%d %d' % (n, j), g) for n, (root, g) in enumerate(c_read.several(E)) for j in range(10 if THOROUGH else 2)]
    items += [('whole', {'C16': 'CIM15', 'C17': 'CIM14'}[pid], 'huge', 66000)]        # more objects than 16 bits count
    items += [('whole', 'CIM15', 'star', 9000)]
    items += [('whole', p, i, p) for p in sorted(glob.glob(big.SAMPLES)) for i in range(3 if THOROUGH else 1)]
    rng(pid).shuffle(items)
    tmp = tempfile.mkdtemp(prefix='write-'); _G['tmp'] = tmp
    try:
        W = Writes()
        for d, n, _ in common.parallel(_guarded, items):
            o = Writes(); o.d, o.n = d, n; W.merge(o)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    keys = sorted(W.d); n = common.NPROC
    parts = [p for p in (keys[i::n] for i in range(n)) if p]
    def one(p):
        res = tlc.run('WriteStep', files={'steps.json': '[%s]' % ','.join(p)}, invariants=['Report'], timeout=800)
        if res['distinct'] != len(p): raise tlc.TLCError('not all records were judged:\n' + res['out'][-2000:])
        return [(p[f['i'] - 1], f['bad']) for f in tlc.printed(res['out'], 'FAIL')]
    with cf.ThreadPoolExecutor(n) as ex: fails = [f for l in ex.map(one, parts) for f in l]
    for k, b in fails:
        for c in W.d[k]:
            rec = impl.json.loads(k)
            check.violation(c[0], 'differs in %s: %s %s' % (', '.join(b), rec['exc'] or rec['back']['exc'], rec['odd'][:3]), dict(record=rec, context=c, bad=b))
    check.add(traces_validated_against_impl=W.n, distinct_records_judged=len(keys), associations=len(E.assocs), models=sum(map(len, mods.values())))
    check.cov['samples'] = [impl.json.loads(k) for k in sorted(keys, key=len)[:3]]
    check.assumptions.append('classes, attributes and associations as in spec/data/schema.json')
    return check.finish()
