"""C09-C15: the reader, against CimReadOps.tla."""
import concurrent.futures as cf, glob, importlib, os, resource, shutil, signal, tempfile
from fractions import Fraction
import common, impl, tlc, cimdoc, big
from c_assoc import redeclares
from cimdoc import Spelling, any_spelling, obj, attr, ref, bad, Records, EMPTY
from common import TIER, rng
THOROUGH = TIER == 'thorough'
NS16 = 'http://iec.ch/TC57/2013/CIM-schema-cim16'

class Env:
    def __init__(self):
        self.S = S = impl.Schema()
        impl.import_all(S)
        for c in S.cls.values():      # an enumeration without literals has its default only
            for f in c['attrs']:
                if f['e'] and not f['lits']: f['lits'] = [f['d']]
        self.O = cimdoc.Observer(S)
        self.assocs = {a['id']: a for a in S.associations()}
        self.maps = {}
        for root in S.roots:
            self.maps[root] = importlib.import_module(root).packageMap
        # classes the package map does not lead to share their name with another
        self.hidden = set()
        byname = {}
        for k, c in S.cls.items(): byname.setdefault((c['root'], c['name']), []).append(k)
        for (root, n), l in byname.items():
            if len(l) > 1:
                m = self.maps[root].get(n)
                self.hidden |= {k for k in l if not m or k.rsplit('.', 1)[0] != m and k != m}
        self.classnames = {c['name'] for c in S.cls.values()} | {c for m in self.maps.values() for c in m}
    def uri(self, root, r=None):
        u = self.S.roots[root]['nsURI']
        if r is None: return u
        if root == 'CIM15': return r.choice([u, NS16])
        if root.startswith('CIM14.') and r.random() < .5: return self.S.roots['CIM14']['nsURI']
        return u
    def args(self, root, uri, r):
        """(packageMap, nsURI) for cimread"""
        if root in ('CIM14', 'CIM15') and r.random() < .7: return (None, None)
        return (self.maps[root], uri)
    def concrete(self, cid, name, r):
        """a class that can stand at the end cid.name"""
        d = [c for c in self.S.descendants(cid) if c not in self.hidden and (c == cid or not name or not redeclares(self.S, c, cid, name))]
        return r.choice(d) if d else cid

_G = {}
ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
def new_id(r, n):
    return r.choice(['_%x' % r.randrange(16 ** 8), r.choice(ALPHA) + '.%d' % r.randrange(99), '_%d-%x' % (r.randrange(10), r.randrange(999)), r.choice(ALPHA), '_\u00e9\u4e2d', 'Terminal', 'name', 'urn:uuid:%x' % r.randrange(16 ** 8), r.choice(['http://example.org/grid#', 'https://example.org/grid/', 'http://Example.ORG/Grid#']), 'urn:uuid:%X' % r.randrange(16 ** 8), r.choice(['CIM14', 'CIM15.IEC61970', 'UUID', 'None', 'rdf:ID', 'cim:Terminal', 'IdentifiedObject.name']), r.choice(['#h', '##', '%41', 'a%20b', 'a b', 'x+y', 'cafe\u0301', '\u212b', 'a/b?c=d'])]) + '_%s' % n

KIN = [str.swapcase, str.upper, str.lower, lambda x: '_' + x, lambda x: x.lstrip('_') or 'x', lambda x: x + '_', lambda x: x + ' ', lambda x: ' ' + x, lambda x: '#' + x, lambda x: x + '0', lambda x: x[:-1] or 'y',
       lambda x: x.replace('-', '_'), lambda x: x.replace('_', '-'), lambda x: 'urn:uuid:' + x, lambda x: x.split(':')[-1] or 'z', lambda x: x + '#', lambda x: x + '.0', lambda x: x + '\u0301', lambda x: x[::-1], lambda x: x * 2, lambda x: x.split('#')[-1] or 'w']
def kin(ids, r, rate=None):
    """some of the identifiers become ones that resemble others"""
    rate = r.choice([0, .1, .5]) if rate is None else rate
    ids = list(ids); used = set(ids)
    for k in range(1, len(ids)):
        if r.random() < rate:
            v = r.choice(KIN)(ids[r.randrange(max(0, k - 4), k)])
            if v not in used and v not in ABSENT: used.add(v); ids[k] = v
    return ids
ABSENT = set()      # identifiers that no object may have
def absent(i, r, ids):
    """an identifier without an object, which resembles i"""
    for _ in range(6):
        v = r.choice([str.swapcase, str.upper, str.lower, lambda x: '_' + x + '__', lambda x: x + ' ', lambda x: ' ' + x, lambda x: '#' + x, lambda x: x + '\u0301', lambda x: x + '.'])(i)
        if v not in ids and v.strip('_# .\u0301').lower() == i.strip('_# .\u0301').lower(): ABSENT.add(v); return v
    return i + '!'
# identifiers are any text
ODD = ['a b%d', ' %d', 'x"y%d', "o'k%d", '<&%d>', '\u00fc\U0001d11e%d', '#h%d', '##%d', 'urn:uuid:%d', 'http://example.org/a b#_%d', '{%d}', 'a.b.%d', '\t%d', '%d\n', '&amp;%d', '%d', '%d ', ' %d ', '_%d\u00a0', '_%d', 'None%d', '%d/x?y=z#t', '--%d', ']]>%d', '%%41%d', 'a%%20b%d', '%%%d', '+%d', 'A%d', 'a%d', 'e\u0301%d', '\u00e9%d', '\u212b%d', '\u00c5%d', '\ufb01\u2460%d']
def ids_of(elems): return list(dict.fromkeys(e['id'] for e in elems if e['t'] != 'raw'))
def stated(elems): return {(e['id'], s['f']) for e in elems for s in e['b'] if s['k'] == 'attr'}

class Batch:
    """Components (element lists) read in one document and judged one by one."""
    def __init__(self, E, R, root, r, spell=None, sources=('bytes',), scratch=None):
        self.E, self.R, self.root, self.r = E, R, root, r
        self.spell, self.sources, self.scratch = spell, sources, scratch
        self.reads = 0
    def weave(self, comps):
        r = self.r; q = [list(c) for _, c in comps]; live = [i for i, c in enumerate(q) if c]; out = []
        keep = r.random() < .3
        while live:
            i = live[0] if keep else r.choice(live)
            out.append(q[i].pop(0))
            if not q[i]: live.remove(i)
        return out
    def run(self, comps, start=None, start_model=EMPTY):
        """comps: [(context, elements)]"""
        E, r = self.E, self.r
        sp = self.spell(r) if self.spell else Spelling()
        uri = E.uri(self.root, r)
        text = cimdoc.render(self.weave(comps), uri + '#', sp, E.S)
        src = r.choice(self.sources)
        m, exc = cimdoc.read(text, sp, src, E.args(self.root, uri, r), start, r, self.scratch)
        self.reads += 1
        if m is None:
            if len(comps) > 1:
                for c in comps: self.run([c])
            else: self.R.add(comps[0][1], dict(objs=[], vals=[], l=[], r=[], other=[]), exc, E.assocs, (comps[0][0], text[:3000], src))
            return
        names = E.O.names(m)
        claimed = set()
        for ctx, elems in comps:
            ids = []
            for e in elems:
                if e['t'] != 'raw' and e['id'] not in ids: ids.append(e['id'])
            claimed |= set(ids)
            self.R.add(elems, E.O.of(m, names, ids, stated(elems)), '', E.assocs, (ctx, text if len(comps) == 1 else text[:200], src))
        extra = [i for i in m if i not in claimed]
        if extra: self.R.add([], dict(objs=[(i, E.O.class_of(m[i])) for i in extra], vals=[], l=[], r=[], other=[]), '', E.assocs, ('extra entries', text[:3000], src))
        return m

# --- verdict -------------------------------------------------------------------
def judge(check, recs, label=lambda c: str(c[0])):
    """recs: Records; every distinct record is judged by TLC"""
    keys = sorted(recs.d)
    if not keys: return
    n = common.NPROC if len(keys) > 400 else 1
    parts = [keys[i::n] for i in range(n)]
    def one(p):
        res = tlc.run('ReadStep', files={'steps.json': '[%s]' % ','.join(p)}, invariants=['Report'], timeout=800)
        if res['distinct'] != len(p): raise tlc.TLCError('not all records were judged:\n' + res['out'][-2000:])
        return [(p[f['i'] - 1], f['bad']) for f in tlc.printed(res['out'], 'FAIL')]
    with cf.ThreadPoolExecutor(n) as ex: fails = [f for l in ex.map(one, parts) for f in l]
    for k, b in fails:
        if 'consistent' in b: raise tlc.TLCError('the document generator made an inconsistent document: %s' % k[:2000])
        for c in recs.d[k]:
            check.violation(label(c), 'differs in %s: %s' % (', '.join(b), impl.json.loads(k)['obs']['exc'] or str(c)[:160]), dict(record=impl.json.loads(k), context=c, bad=b))
    check.add(traces_validated_against_impl=recs.n, distinct_records_judged=len(keys))
    check.cov.setdefault('samples', []).extend(impl.json.loads(k) for k in keys[:2])

def guarded(fn):
    """Items one at a time; one that the library cannot even be prepared for
    (a class that cannot be imported or created) is recorded as a failed read."""
    def work(chunk):
        R = Records(); reads = 0
        for it in chunk:
            try: d, n, k = fn([it])
            except Exception as e:
                import traceback
                R.add([], dict(objs=[], vals=[], l=[], r=[], other=[]), 'preparation: %s: %s' % (type(e).__name__, str(e)[:150]), {}, (str(it)[:80], traceback.format_exc()[-1500:]))
                continue
            o = Records(); o.d, o.n = d, n; R.merge(o); reads += k
        return R.d, R.n, reads
    return work
def _guarded(a): return guarded(_G['fn'])(a)

def collect(check, fn, items):
    _G['fn'] = fn
    tmp = tempfile.mkdtemp(prefix='read-'); _G['tmp'] = tmp
    try:
        R, reads = Records(), 0
        for d, n, reads1 in common.parallel(_guarded, items):
            o = Records(); o.d, o.n = d, n; R.merge(o); reads += reads1
    finally: shutil.rmtree(tmp, ignore_errors=True)
    check.add(documents_read=reads)
    return R

# --- C11: every association kind, every small document -----------------------
def kind_of(a): return (a['lm'], a['rm'], a['uni'], a['lc'] == a['rc'])
def model_docs(check, kinds, max_st, max_el, faults, cuts=False):
    def one(k):
        return k, tlc.run('CimRead', dict(LM=k[0], RM=k[1], Uni=k[2], Self=k[3], MaxSt=max_st, MaxEl=min(max_el, 3) if k[3] else max_el, Faults=faults),
                          invariants=['Reads', 'Ignores', 'OrderFree', 'Splits', 'Emit'], timeout=800, workers=4 if k[3] else 1)
    out = {}
    with cf.ThreadPoolExecutor(common.NPROC) as ex:
        for k, r in ex.map(one, sorted(kinds)):
            if not r['ok']: raise tlc.TLCError('CimRead violated for %s:\n%s' % (k, r['out'][-2000:]))
            check.tlc(r); out[k] = [d if cuts else d['d'] for d in tlc.printed(r['out'], 'DOC') if d['cuts'] or not cuts]
    return out

def instantiate(E, a, doc, r, n):
    """the abstract document doc on the association a of the real classes"""
    S = E.S; ids, cls = {}, {}
    def i_of(x):
        if x not in ids: ids[x] = new_id(r, '%d%s' % (n, x))
        return ids[x]
    out = []
    ln, rn = S.cls[a['lc']]['name'], S.cls[a['rc']]['name']
    for e in doc:
        side = e['c']
        cid = E.concrete(a['lc'], a['lr'], r) if side == 'L' else E.concrete(a['rc'], a['rr'], r)
        if kind_of(a)[3] and a['rr'] and redeclares(S, cid, a['rc'], a['rr']): cid = a['lc']
        b = []
        for s in e['b']:
            if s['k'] == 'ref':
                if s['s'] == 'l': b.append(ref(a['id'], 'l', i_of(s['to']), a['lr'], ln))
                else: b.append(ref(a['id'], 'r', i_of(s['to']), a['rr'], rn))
            else: b.append(_fault(E, r, cid))
        if e['t'] == 'obj': out.append(obj(i_of(e['id']), cid, b))
        else: out.append(obj(i_of(e['id']), 'Unknown%s' % r.choice(['', 'Thing', 'Line.1']), b, t='unknown'))
    return out

def _c11(chunk):
    E = _G['E']
    R = Records(); reads = 0
    for root, part, al in chunk:
        r = rng('c11', root, part)
        comps = []; n = 0
        for a, picks in al:
            for d in picks:
                n += 1; comps.append((a['id'], instantiate(E, a, d, r, n)))
        r.shuffle(comps)
        b = Batch(E, R, root, r, _G.get('spell'), _G.get('sources', ('bytes',)), _G['tmp'])
        for i in range(0, len(comps), 30): b.run(comps[i:i + 30])
        reads += b.reads
    return R.d, R.n, reads

def plan_c11(E, docs, per, salt):
    """[(root, part, [(association, docs)])]: every document of the model at least once"""
    byroot = {}
    for k in docs:
        al = [a for a in E.assocs.values() if kind_of(a) == k]
        r = rng(salt, *k)
        ds = list(docs[k]); r.shuffle(ds)
        r.shuffle(al)
        each = max(per, -(-len(ds) // len(al)))
        pos = 0
        for a in al:
            picks = [ds[(pos + j) % len(ds)] for j in range(each)]; pos += each
            byroot.setdefault(E.S.cls[a['lc']]['root'], []).append((a, picks))
    items = []
    for root, l in byroot.items():
        rng(salt, root).shuffle(l)
        for i in range(0, len(l), 20): items.append((root, i, l[i:i + 20]))
    return items

def run_c11(check, E):
    kinds = {kind_of(a) for a in E.assocs.values()}
    docs = model_docs(check, kinds, 3, 4, False)
    _G['docs'] = docs; _G['per'] = 0
    R = collect(check, _c11, plan_c11(E, docs, 400 if THOROUGH else 40, 'c11'))
    R.merge(collect(check, _models, [(root, i, False) for root in E.S.roots for i in range(60 if THOROUGH else 12 if root in ('CIM14', 'CIM15') else 3)]))
    R.merge(collect(check, _models, [(root, 'several %d %d' % (n, j), g) for n, (root, g) in enumerate(several(E)) for j in range(30 if THOROUGH else 4)]))
    R.merge(collect(check, _big, bigs(E, check.pid)))
    judge(check, R)
    check.add(associations=len(E.assocs), model_documents=sum(map(len, docs.values())))

def several(E):
    """pairs of classes with several associations between them"""
    S = E.S; by = {}
    for a in E.assocs.values():
        if a['rr']: by.setdefault(frozenset((a['lc'], a['rc'])), []).append(a)
    out = []
    for g, l in sorted(by.items(), key=lambda x: sorted(x[0])):
        if len(l) > 1: out.append((S.cls[l[0]['lc']]['root'], sorted(g)))
    # an association of a class and another one of its base
    for a in E.assocs.values():
        for c in S.descendants(a['lc'])[1:]:
            if c not in E.hidden and not S.shadowed(c) and any(b['lc'] == c and b['rc'] in S.ancestors(a['rc']) or b['rc'] == c and b['lc'] in S.ancestors(a['rc']) for b in E.assocs.values() if b is not a and b['rr']):
                out.append((S.cls[c]['root'], sorted((c, a['rc']))))
    return [x for n, x in enumerate(out) if x not in out[:n]]

# --- random models over many classes and associations at once ------------------
LEX = {'str': [('plain text', 'plain text'), ('', ''), (' a &lt;b&gt; &amp; c ', ' a <b> & c '), ('\u00e9\u4e2d', '\u00e9\u4e2d')],
       'int': [('7', 7), ('-3', -3), ('0', 0)], 'float': [('2.5', 2.5), ('-1e-3', -1e-3), ('10', 10.0)],
       'bool': [('true', True), ('false', False), ('1', True)]}
def tok(v): return (type(v).__name__, repr(v))
def attr_statement(E, k, f, dc, r, lexicon=None):
    dn = E.S.cls[dc]['name']
    if f.get('lits'):
        lit = r.choice(f['lits'])
        return attr(f['n'], dn, None, tok(lit), res='%s.%s' % (f['e'], lit))
    lex, v = r.choice((lexicon or LEX)[f['t']])
    return attr(f['n'], dn, lex, tok(v))

def random_model(E, root, r, n_obj=25, n_links=30, n_attr=2, twins=True, among=None, hubs=0):
    """A random consistent document; returns its elements."""
    S = E.S
    if 'byclass' not in _G:
        bc = {}
        for a in E.assocs.values():
            for c in S.descendants(a['lc']): bc.setdefault(c, []).append((a, 'l'))
            if a['rr']:
                for c in S.descendants(a['rc']): bc.setdefault(c, []).append((a, 'r'))
        _G['byclass'] = bc
        _G['roots'] = {rt: [k for k in sorted(S.cls) if S.cls[k]['root'] == rt and k not in E.hidden and not S.shadowed(k)] for rt in S.roots}
        _G['rootset'] = {rt: set(l) for rt, l in _G['roots'].items()}
    bc = _G['byclass']; pool, pset = _G['roots'][root], _G['rootset'][root]
    cls = [r.choice(among or pool) for _ in range(3)] + list(among or ())
    if among: n_obj = len(cls)
    while len(cls) < n_obj:      # grow along associations so that links are possible
        c = r.choice(cls); opts = bc.get(c, [])
        if opts and r.random() < .8:
            a, s = r.choice(opts)
            d = [x for x in S.descendants(a['rc'] if s == 'l' else a['lc']) if x in pset]
            if d: cls.append(r.choice(d)); continue
        cls.append(r.choice(cls if r.random() < .5 else pool))
    ids = kin([new_id(r, i) for i in range(len(cls))], r)
    links, lown, rown, fit = {}, set(), set(), {}
    for _ in range(n_links * 3):
        if len(links) >= n_links: break
        i = r.randrange(hubs) if hubs and r.random() < .4 else r.randrange(len(cls)); opts = bc.get(cls[i], [])
        if not opts: continue
        a, s = r.choice(opts)
        other = a['rc'] if s == 'l' else a['lc']
        if other not in fit: fit[other] = [j for j in range(len(cls)) if other in S.ancestors(cls[j])]
        js = fit[other]
        if not js: continue
        j = r.choice(js)
        x, y = (i, j) if s == 'l' else (j, i)
        if (a['id'], x, y) in links: continue
        if not a['lm'] and (a['id'], x) in lown: continue
        if not a['rm'] and not a['uni'] and (a['id'], y) in rown: continue
        if x == y and not (a['uni']): continue
        if a['lr'] in VIEWS or a['rr'] in VIEWS: 
            if ('view', x) in lown or ('view', y) in lown: continue
            lown |= {('view', x), ('view', y)}
        lown.add((a['id'], x)); rown.add((a['id'], y))
        links[(a['id'], x, y)] = a
    body = [[] for _ in cls]
    for (aid, x, y), a in links.items():
        how = 'l' if a['uni'] else r.choice(['l', 'r', 'lr', 'lr'] if twins else ['l', 'r'])
        if 'l' in how: body[x].append(ref(aid, 'l', ids[y], a['lr'], S.cls[a['lc']]['name']))
        if 'r' in how: body[y].append(ref(aid, 'r', ids[x], a['rr'], S.cls[a['rc']]['name']))
    for i, k in enumerate(cls):
        at = [(f, dc) for n, kd, f, dc in S.features(k) if kd == 'attr' and n != 'UUID']
        for f, dc in r.sample(at, min(len(at), r.randrange(n_attr + 1))): body[i].append(attr_statement(E, k, f, dc, r))
        r.shuffle(body[i])
    el = [obj(ids[i], cls[i], body[i]) for i in range(len(cls))]
    r.shuffle(el)
    return el
VIEWS = {'PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance'}

def star(E, root, r, n, how=None):
    """one object with n partners on one association"""
    S = E.S; pset = _G['rootset'][root]
    a = r.choice([a for _, a in sorted(E.assocs.items()) if a['lc'] in pset and a['rc'] in pset and not a['uni'] and a['lm'] + a['rm'] and a['lc'] != a['rc'] and a['lr'] not in VIEWS and a['rr'] not in VIEWS])
    s = 'l' if a['lm'] else 'r'        # the side whose end is many-valued
    hub, part = (a['lc'], a['rc']) if s == 'l' else (a['rc'], a['lc'])
    hub, part = (r.choice([x for x in S.descendants(c) if x in pset]) for c in (hub, part))
    ids = kin([new_id(r, i) for i in range(n + 1)], r)
    name = dict(l=a['lr'], r=a['rr']); decl = dict(l=S.cls[a['lc']]['name'], r=S.cls[a['rc']]['name']); o = 'r' if s == 'l' else 'l'
    el = [obj(ids[0], hub, [])]
    for i in ids[1:]:
        k = how or r.choice('hpb'); b = []
        if k in 'hb': el[0]['b'].append(ref(a['id'], s, i, name[s], decl[s]))
        if k in 'pb': b.append(ref(a['id'], o, ids[0], name[o], decl[o]))
        el.append(obj(i, part, b))
    r.shuffle(el)
    return el

def _models(chunk):
    E = _G['E']; R = Records(); reads = 0
    for root, i, _ in chunk:
        r = rng('models', root, i)
        b = Batch(E, R, root, r, any_spelling if r.random() < .3 else None, ('bytes',), _G['tmp'])
        b.run([('model %s %s' % (root, i), random_model(E, root, r) if not _ else random_model(E, root, r, 0, 40, 1, among=_))])
        reads += b.reads
    return R.d, R.n, reads

# --- models of thousands of objects: the sample documents and random ones ---------
HUGE = 1000       # more objects than 16 bits count
def _big(chunk):
    E = _G['E']; R = Records(); reads = 0
    for pid, name, i in chunk:
        r = rng('big', pid, name, i)
        if name.startswith('/'): root, uri, el = big.sample(E, name); name = os.path.basename(name)
        else:
            root = name; uri = E.uri(root, r); n = 70000 if i == HUGE else r.choice([700, 2500] if i < 2 else [150, 300, 400])
            el = star(E, root, r, 9000) if i == HUGE + 1 else random_model(E, root, r, n, n if i == HUGE else n * 2, 1 if i == HUGE else 6 if pid == 'C10' else 2, hubs=8)
        el = [dict(e, b=list(e['b'])) for e in el]
        ctx = 'big %s %s %s' % (pid, name, i)
        if pid in ('C11', 'C12', 'C14') and i: r.shuffle(el)
        if pid == 'C12':
            for e in el: r.shuffle(e['b'])
        if pid == 'C13': el = inject(E, r, el, .08)
        files = [el]
        if pid == 'C14':
            ids = {e['id'] for e in el if e['t'] == 'obj'}
            el = [dict(e, b=[s for s in e['b'] if s['k'] != 'ref' or s['to'] in ids]) for e in el if e['t'] == 'obj']
            files = split_model(E, el, r, r.choice([2, 4])); el = [e for p in files for e in p]
        m, exc = None, ''
        for f in files:
            sp = any_spelling(r) if pid == 'C12' or not name.startswith('/') and i >= 2 else Spelling(r)
            text = cimdoc.render(f, uri + '#', sp, E.S)
            m, exc = cimdoc.read(text, sp, r.choice(cimdoc.SOURCES if pid == 'C12' else ['bytes', 'path', 'text']), E.args(root, uri, r), m, r, _G['tmp']); reads += 1
            if m is None: break
        big.judge_whole(E, R, el, m, exc, ctx)
    return R.d, R.n, reads
def bigs(E, pid):
    random_model(E, 'CIM15', rng('warm')); _G['allcls'] = sorted(E.S.cls)
    huge = [(pid, {'C09': 'CIM15', 'C10': 'CIM15', 'C11': 'CIM14'}[pid], HUGE)] if pid in ('C09', 'C10', 'C11') else []
    if pid in ('C11', 'C14'): huge += [(pid, 'CIM15', HUGE + 1)]
    return huge + [(pid, p, i) for p in sorted(glob.glob(big.SAMPLES)) for i in range(4 if THOROUGH else 1)] + [(pid, root, i) for root in ('CIM14', 'CIM15') for i in range(60 if THOROUGH else 14 if pid == 'C12' else 5)]

# --- C13: what is not understood ------------------------------------------------
def junk_name(E, r, cid):
    """a statement name that is no feature of the class"""
    S = E.S; have = {n for n, _, _, _ in S.features(cid)} | {'UUID'}
    if r.random() < .3:       # one that the class of this name has in another version or profile
        if 'namesakes' not in _G:
            _G['namesakes'] = {}
            for k in S.cls: _G['namesakes'].setdefault(S.cls[k]['name'], []).append(k)
        l = sorted({'%s.%s' % (S.cls[dc]['name'], n) for k in _G['namesakes'][S.cls[cid]['name']] for n, _, _, dc in S.features(k) if n not in have})
        if l: return r.choice(l)
    if r.random() < .4:
        for _ in range(5):
            o = S.cls[r.choice(_G['allcls'])]; l = [f['n'] for f in o['attrs'] + o['refs'] if f['n'] not in have]
            if l: return '%s.%s' % (o['name'], r.choice(l))
    many = [n for n, kd, f, _ in S.features(cid) if kd == 'ref' and f['many']]
    n = r.choice(['bogus', 'Bogus', 'name2', '__class__', '__dict__', '__init__', '__doc__', '_attrs', '_refs', '_defaults', 'mro', 'UUID'] + ['add' + x for x in many[:3]] + ['remove' + x for x in many[:2]] + ['get' + x for x in many[:1]] + ['_' + x for x in many[:2]])
    return '%s.%s' % (S.cls[cid]['name'], n)

def _fault(E, r, cid, ids=('nobody',)):
    S = E.S
    refs = [(n, dc) for n, kd, f, dc in S.features(cid) if kd == 'ref']
    what = r.randrange(12); i = r.choice(list(ids))
    if what >= 10:       # what looks like a statement, inside an element that is not understood
        n, kd, f, dc = r.choice([x for x in S.features(cid)]); n = '%s.%s' % (S.cls[dc]['name'], n); c = r.choice(['ext:meta', 'Unknown.part', ':' + S.cls[cid]['name'], 'ext:' + S.cls[cid]['name']])
        return bad(lambda cp, rp, q: '<%s>%s</%s>' % ((t := cp + c.lstrip(':') if c[:4] != 'ext:' else c), ('<%s%s>%s</%s%s>' % (cp, n, r.choice(['1', 'true', 'text']), cp, n) if kd == 'attr' else '<%s%s %sresource=%s#%s%s/>' % (cp, n, rp, q, i, q)) * r.choice([1, 1, 2]), t))
    if what >= 7 and not refs: what = r.randrange(7)
    n = junk_name(E, r, cid) if what < 4 else ''
    if what == 0: return bad(lambda cp, rp, q: '<%s%s>%s</%s%s>' % (cp, n, 'some text', cp, n))
    if what == 1: return bad(lambda cp, rp, q: '<%s%s/>' % (cp, n))
    if what == 2: return bad(lambda cp, rp, q: '<%s%s %sresource=%s#%s%s/>' % (cp, n, rp, q, i, q))
    if what == 3: return bad(lambda cp, rp, q: '<%s%s %sresource=%shttp://iec.ch/x#Kind.lit%s/>' % (cp, n, rp, q, q))
    if what == 4: return bad(lambda cp, rp, q: '<ext:name>foreign</ext:name>')
    if what == 5: return bad(lambda cp, rp, q: '<ext:a><ext:b %sresource=%s#%s%s>t</ext:b><!-- c --><ext:c/></ext:a>' % (rp, q, i, q))
    if what == 6: return bad(lambda cp, rp, q: '<ext:Thing %sabout=%s#%s%s><ext:IdentifiedObject.name>x</ext:IdentifiedObject.name></ext:Thing>' % (rp, q, i, q))
    n, dc = r.choice(refs); n = '%s.%s' % (S.cls[dc]['name'], n)
    if what == 7:
        near = '#' + absent(i, r, ids)
        t = r.choice(['#not_there', '#not.there', '#', '', 'other.xml#' + i, 'urn:uuid:1234', 'http://example.org/model.v1#a.b', near, near, near])
        return bad(lambda cp, rp, q: '<%s%s %sresource=%s%s%s/>' % (cp, n, rp, q, t, q))
    if what == 8: return bad(lambda cp, rp, q: '<%s%s/>' % (cp, n))
    return bad(lambda cp, rp, q: '<%s%s>\n   </%s%s>' % (cp, n, cp, n))

def unknown(E, r, c):
    """a name that no class has; often almost that of class c"""
    n = c['name']
    u = r.choice(['NoSuchClass', 'Old.' + n, n + '.x', n + '2', n + '_', '_' + n, n.lower(), n.upper(), n[0].lower() + n[1:], n[:-1], n + 's', 'x.y.' + n, n + '-' + n, 'Core.' + n, n + '.' + n, n + '.' + n + '.' + n])
    return u if u not in E.classnames else 'NoSuchClass'

def nameless(E, r, cid):
    """an element of a class without rdf:ID and rdf:about"""
    nm = E.S.cls[cid]['name']; at = r.choice(['', ' ID="%s"', ' about="#%s"', ' id="%s"', ' ext:ID="%s"', ' resource="#%s"', ' xml:id="%s"', ' ext:about="#%s"', ' UUID="%s"', ' xml:base="%s"']); at = at and at % ('n%d' % r.randrange(99))
    inner = r.choice(['', '<%sIdentifiedObject.name>none</%sIdentifiedObject.name>', '\n', '<ext:x/>'])
    return dict(t='raw', id='', c='', b=[], raw=lambda cp, rp, q: '<%s%s%s>%s</%s%s>' % (cp, nm, at, inner % (cp, cp) if '%' in inner else inner, cp, nm))

def inject(E, r, el, rate):
    """faults sprinkled over a document"""
    S = E.S; ids = [e['id'] for e in el]
    out = []
    flood = r.choice(el) if el and r.random() < .12 else None     # the same fault hundreds of times
    for e in el:
        b = []
        if e is flood and r.random() < .7: b += [_fault(E, r, e['c'], ids)] * r.choice([150, 300, 1100])
        elif e is flood: out += [obj('u', 'NoSuchClass', [], t='unknown')] * r.choice([150, 1100])
        for s in e['b'] + [None]:
            while r.random() < rate: b.append(_fault(E, r, e['c'], ids))
            if s: b.append(s)
        out.append(dict(e, b=b))
        while r.random() < rate:
            k = r.randrange(5)
            victim = r.choice(el)
            if k == 4: out.append(nameless(E, r, victim['c'])); continue
            i = r.choice([victim['id'], new_id(r, 'u%d' % len(out)), 'not_there'])
            body = [bad(s) for s in ([lambda cp, rp, q: '<%sIdentifiedObject.name>wrong</%sIdentifiedObject.name>' % (cp, cp)] if r.random() < .5 else [])]
            if k == 0: out.append(obj(i, unknown(E, r, S.cls[victim['c']]), body, t='unknown'))
            elif k == 1:   # unknown class repeating an object's own statements
                at = [x for x in victim['b'] if x['k'] == 'ref']
                out.append(obj(victim['id'] if r.random() < .7 else i, 'Bogus.Line', at + body, t='unknown'))
            elif k == 2:
                nm = r.choice(['Terminal', 'FullModel', S.cls[victim['c']]['name']])
                out.append(obj(i, nm, [bad(lambda cp, rp, q: '<ext:IdentifiedObject.name>wrong</ext:IdentifiedObject.name>')], t='foreign'))
            else: out.append(dict(t='raw', id='', c='', b=[], raw=lambda cp, rp, q: '<ext:note>free <ext:b/> text</ext:note>'))
    return out

def _c13(chunk):
    E = _G['E']; R = Records(); reads = 0
    for root, i, _ in chunk:
        r = rng('c13', root, i)
        b = Batch(E, R, root, r, any_spelling if r.random() < .4 else None, ('bytes', 'path', 'drip'), _G['tmp'])
        b.run([('faults %s %d' % (root, i), inject(E, r, random_model(E, root, r, r.choice([4, 12, 25]), r.choice([3, 10, 30])), r.choice([.1, .3, .5])))])
        reads += b.reads
    return R.d, R.n, reads

def run_c13(check, E):
    _G['allcls'] = sorted(E.S.cls)
    kinds = {kind_of(a) for a in E.assocs.values()}
    docs = model_docs(check, kinds, 2, 3, True)
    _G['docs'] = docs
    R = collect(check, _c11, plan_c11(E, docs, 150 if THOROUGH else 20, 'c13'))
    n = 25 if THOROUGH else 3
    R.merge(collect(check, _c13, [(root, i, 0) for root in E.S.roots for i in range(n * (12 if root in ('CIM14', 'CIM15') else 2))]))
    R.merge(collect(check, _big, bigs(E, check.pid)))
    judge(check, R)
    check.add(model_documents=sum(map(len, docs.values())))

# --- C09: every class, form, position and size -----------------------------------
DEEP = '<ext:a><ext:b><ext:c>text</ext:c></ext:b><ext:d/></ext:a>'
def _c09(chunk):
    E = _G['E']; S = E.S; R = Records(); reads = 0
    for what, root, part, ks in chunk:
        r = rng('c09', what, root, part)
        n = 0; used = set()
        def el(k, size=0):
            nonlocal n; n += 1
            b = []
            at = [(f, dc) for nm, kd, f, dc in S.features(k) if kd == 'attr' and nm != 'UUID']
            if at and r.random() < .4:
                f, dc = r.choice(at); b.append(attr_statement(E, k, f, dc, r))
            e = obj(new_id(r, n) if what != 'class' or r.random() < .7 else r.choice(ODD) % (n // 4), k, b)
            if e['id'] in used: e['id'] = new_id(r, n)
            used.add(e['id'])
            if r.random() < .2: e['filler'] = r.choice([DEEP, '\n', ' ', 'loose text', '<!-- only -->', '<?pi?>'])
            if size: e['filler'] = '<ext:big>%s</ext:big>' % ('x' * size)
            return e
        if what == 'class':        # many classes in one document; every class alone
            b = Batch(E, R, root, r, any_spelling if r.random() < .5 else None, ('bytes', 'drip', 'text'), _G['tmp'])
            def stranger(k): return dict(el(k), t='unknown', c=unknown(E, r, S.cls[k]))
            b.run([(k, [el(k)] + [nameless(E, r, k)] * (r.random() < .1) + [stranger(k)] * (r.random() < .3)) for k in ks])
            for k in ks: b.run([(k, [el(k)] + [stranger(k)] * (r.random() < .3))])
        elif what == 'big':        # megabytes, with objects on every position of the reader's buffer
            b = Batch(E, R, root, r, None, ('path', 'bytes', 'openb'), _G['tmp'])
            b.run([(k, [el(k, r.choice([0, 0, 0, 50, 1000, 16384, 16300, 200000 if r.random() < .02 else 5])) for _ in range(12)]) for k in ks])
        elif what == 'nested':     # an identified element inside another element
            b = Batch(E, R, root, r, None, ('bytes', 'drip'), _G['tmp'])
            for j in range(0, len(ks) - 1, 2):
                inner, outer = el(ks[j]), dict(el(ks[j + 1]), b=[])
                inner = dict(inner, b=[], silent=True)
                nm, iid = S.cls[ks[j]]['name'], inner['id']
                outer['filler'] = None
                outer['nest'] = lambda cp, rp, q, nm=nm, iid=iid: '<ext:has><%s%s %sID=%s%s%s/></ext:has>' % (cp, nm, rp, q, iid, q)
                tail = el(ks[j])
                b.run([('nested %s' % ks[j], [outer, inner, tail])])
        reads += b.reads
    return R.d, R.n, reads

def run_c09(check, E):
    kinds = [(False, False, False, False), (True, False, True, True)]
    docs = model_docs(check, kinds, 1, 4, True)
    _G['docs'] = docs; _G['allcls'] = sorted(E.S.cls); _G['spell'] = any_spelling
    R = collect(check, _c11, plan_c11(E, docs, 10 if THOROUGH else 1, 'c09'))
    items = []
    for root in E.S.roots:
        ks = [k for k in sorted(E.S.cls) if E.S.cls[k]['root'] == root and k not in E.hidden and not k.endswith('.Element')]
        for t in range(20 if THOROUGH else 3):
            r = rng('c09', root, t); r.shuffle(ks)
            for i in range(0, len(ks), 25): items.append(('class', root, (t, i), ks[i:i + 25]))
        items.append(('nested', root, 0, ks[:200 if THOROUGH else 40]))
        for t in range(6 if THOROUGH else 1):
            r.shuffle(ks)
            if root in ('CIM14', 'CIM15'): items.append(('big', root, t, (ks * 3)[:400])); items.append(('big', root, (t, 1), ks[:60]))
    R.merge(collect(check, _c09, items))
    R.merge(collect(check, _big, bigs(E, check.pid)))
    judge(check, R)
    check.add(classes=len(E.S.cls) - len(E.hidden))

# --- C10: attribute values -------------------------------------------------------
PIECE = {'REF_AMP_lt': '&amp;lt;', 'SP': ' ', 'TAB': '\t', 'LF': '\n', 'CRLF': '\r\n', 'CR': '\r', 'REF_LT': '&lt;', 'REF_AMP': '&amp;', 'GT': '>', 'QUOT': '"', 'APOS': "'",
         'DEC_CR': '&#13;', 'HEX_LF': '&#xA;', 'DEC_SP': '&#32;', 'EACUTE': '\u00e9', 'DEC_EACUTE': '&#233;', 'HAN': '\u6f22', 'CLEF': '\U0001d11e', 'HEX_CLEF': '&#x1D11E;',
         'COMMENT': '<!-- c -->', 'PI': '<?p i?>', 'CDATA_MARKUP': '<![CDATA[<b>&]]>', 'CDATA_EMPTY': '<![CDATA[]]>', 'NBSP': '\u00a0', 'NEL': '\u0085'}
CHAR = {'ENTITY': '&lt;', 'SP': ' ', 'TAB': '\t', 'LF': '\n', 'CR': '\r', 'LT': '<', 'GT': '>', 'AMP': '&', 'QUOT': '"', 'APOS': "'", 'EACUTE': '\u00e9', 'HAN': '\u6f22', 'CLEF': '\U0001d11e', 'NBSP': '\u00a0', 'NEL': '\u0085'}
def number(m):
    if 'special' in m: return float(m['special'])
    return (-1 if m['neg'] else 1), Fraction(int(m['dig'] or '0')) * Fraction(10) ** m['exp']
FRAG = ['&amp;', '&lt;', '&gt;', '&quot;', '&apos;', '&nbsp;', '&#10;', '&#xA;', '&#9;', '&#13;', '&#x41;', '\\r', '\\t', '\\\\', '%20', '%0A', '_x000D_', '<br/>', '^', '~', '`', '+', '=', '|', '\x7f', '&', ';', '#', '<', '>', '"', "'", '<a>', '<!--', '-->', '<![CDATA[', ']]>', '<?pi ', '%s', '%', '{0}', '{}', '\\n', '\\', '\\u0041', '$1', ' ', '\t', '\n', '\u00e9', '\U0001f600', 'e\u0301', 'a', '0', 'None', 'True', 'false', '1.0', '#', 'cim:', 'rdf:ID', 'http://iec.ch/TC57/2010/CIM-schema-cim15#', '.', '_', '-', 'nan', ',', '\u00df', '\u0130']
def xml_char(r):
    while True:
        k = r.random()
        c = r.randrange(0x20, 0x180) if k < .4 else r.randrange(0x20, 0xd800) if k < .75 else r.choice([9, 10, 13, 0x85, 0x2028, 0xe000, 0xfffd, 0xd7ff, 0x10000, 0x10ffff, 0x7f]) if k < .85 else r.randrange(0xe000, 0x110000)
        if 0xd800 <= c < 0xe000 or c in (0xfffe, 0xffff): continue
        return chr(c)
_short = {}
def pick(forms, t, r):
    """a form of the type: short ones as often as long ones, and random text"""
    if t == 'str' and r.random() < .25: return dict(t='random')
    l = forms[t]
    if id(l) not in _short: _short[id(l)] = (l, [f for f in l if t == 'str' and len(f['lex']) < 2] or l)
    return r.choice(_short[id(l)][r.random() < .4])
def realise(v, r):
    """a form of Values.tla -> (XML text, Python value)"""
    if v['t'] == 'bool': return v['lex'], v['m']['b']
    if v['t'] == 'int': s, q = number(v['m']); return v['lex'], int(s * q)
    if v['t'] == 'float':
        if 'special' in v['m']: return v['lex'], number(v['m'])
        s, q = number(v['m'])
        try: f = float(q)
        except OverflowError: f = float('inf')
        return v['lex'], (-f if s < 0 else f)
    if v['t'] == 'random':
        t = ''.join(r.choice(FRAG) if r.random() < .5 else xml_char(r) for _ in range(r.choice([1, 3, 10, 40])))
        x = []
        for c in t:
            k = r.random()
            if c in '&<' or c == '\r' or (c == '>' and k < .7) or k < .05: c = '&#%d;' % ord(c) if k < .4 or c not in '&<' else '&amp;' if c == '&' else '&lt;'
            x.append(c)
        return ''.join(x).replace(']]>', ']]&gt;'), t
    n = r.choice([3, 20, 40, 40, 16384 * 2 + r.randrange(9)]) if r.random() < .1 else 4
    long = 'long' * n
    return ''.join(PIECE.get(p, long if p == 'LONG' else p) for p in v['lex']), ''.join(CHAR.get(p, long if p == 'LONG' else p) for p in v['m'])

def model_values(check, pieces):
    def one(k):
        r = tlc.run('Values', dict(Kind=k, MaxPieces=pieces), invariants=['Emit'], timeout=800)
        check.tlc(r); return k, list(tlc.printed(r['out'], 'VAL'))
    with cf.ThreadPoolExecutor(4) as ex: return dict(ex.map(one, ('bool', 'int', 'float', 'str')))

def _c10(chunk):
    E, forms = _G['E'], _G['forms']; S = E.S; R = Records(); reads = 0
    for root, part, ks in chunk:
        r = rng('c10', root, part)
        n = 0; comps = []
        def value(k, f, dc):
            if f.get('lits'): return attr_statement(E, k, f, dc, r)
            lex, v = realise(pick(forms, f['t'], r), r)
            return attr(f['n'], S.cls[dc]['name'], lex, tok(v))
        for k in ks:
            at = [(f, dc) for nm, kd, f, dc in S.features(k) if kd == 'attr' and nm != 'UUID']
            for _ in range(_G['per']):
                n += 1; b = []
                for f, dc in at:
                    b.append(value(k, f, dc))
                    while r.random() < .1: b.append(value(k, f, dc))
                    if r.random() < .1: b.append(b[-1])
                r.shuffle(b)
                comps.append((k, [obj(new_id(r, n), k, b)]))
            for f, dc in at:      # one statement alone: everything else keeps its default
                if r.random() < (1 if THOROUGH else .15):
                    n += 1; comps.append(('%s.%s' % (k, f['n']), [obj(new_id(r, n), k, [value(k, f, dc)])]))
        b = Batch(E, R, root, r, any_spelling if part % 2 else None, ('bytes', 'text', 'path', 'drip') if part % 3 == 0 else ('bytes',), _G['tmp'])
        for i in range(0, len(comps), 40): b.run(comps[i:i + 40])
        reads += b.reads
    return R.d, R.n, reads

def run_c10(check, E):
    _G['forms'] = model_values(check, 3 if THOROUGH else 2)
    _G['per'] = 20 if THOROUGH else 2
    items = []
    for root in E.S.roots:
        ks = [k for k in sorted(E.S.cls) if E.S.cls[k]['root'] == root and k not in E.hidden and not k.endswith('.Element')]
        for i in range(0, len(ks), 10): items.append((root, i // 10, ks[i:i + 10]))
    R = collect(check, _c10, items)
    # every form at least once
    R.merge(collect(check, _forms, [(t, i, l[i:i + 100]) for t, l in _G['forms'].items() for i in range(0, len(l), 100)]))
    R.merge(collect(check, _big, bigs(E, check.pid)))
    judge(check, R)
    check.add(lexical_forms=sum(map(len, _G['forms'].values())))

def _forms(chunk):
    """every lexical form on an attribute of its type"""
    E = _G['E']; S = E.S; R = Records(); reads = 0
    if 'attrs_of' not in _G:
        ao = {}
        for k in sorted(S.cls):
            if k in E.hidden or S.cls[k]['root'] != 'CIM15': continue
            for nm, kd, f, dc in S.features(k):
                if kd == 'attr' and nm != 'UUID' and not f.get('lits') and dc == k: ao.setdefault(f['t'], []).append((k, f, dc))
        _G['attrs_of'] = ao
    for t, i, l in chunk:
        r = rng('forms', t, i); comps = []
        for j, v in enumerate(l):
            k, f, dc = r.choice(_G['attrs_of'][t])
            lex, val = realise(v, r)
            comps.append(('%s %r' % (t, lex[:40]), [obj('_%s%d_%d' % (t, i, j), k, [attr(f['n'], S.cls[dc]['name'], lex, tok(val))])]))
        b = Batch(E, R, 'CIM15', r, None, ('bytes', 'drip'), _G['tmp'])
        b.run(comps)
        if i % 300 == 0: b.spell = any_spelling; b.sources = ('text', 'path'); b.run(comps)
        reads += b.reads
    return R.d, R.n, reads

# --- C12: spellings, orders and sources --------------------------------------------
def _c12(chunk):
    E = _G['E']; S = E.S; R = Records(); reads = 0
    for root, i, n in chunk:
        r = rng('c12', root, i)
        el = random_model(E, root, r, r.choice([3, 8, 25]), r.choice([2, 8, 30]), 3)
        for e in el:       # attributes with every kind of text
            for s in e['b']:
                if s['k'] == 'attr' and s['lex'] is not None and s['v'][0] == 'str' and r.random() < .7:
                    lex, v = realise(pick(_G['forms'], 'str', r), r); s['lex'], s['v'] = lex, tok(v)
        for j in range(n):
            q = [dict(e, b=list(e['b'])) for e in el]
            how = r.randrange(4)
            if how: r.shuffle(q)
            if how == 1: q.sort(key=lambda e: e['id'])
            if how == 2: q.sort(key=lambda e: e['c'], reverse=True)
            for e in q:
                if how == 3: e['b'].reverse()
                elif how: r.shuffle(e['b'])
            b = Batch(E, R, root, r, any_spelling, cimdoc.SOURCES, _G['tmp'])
            b.run([('variant %d of model %s %d' % (j, root, i), q)])
            reads += b.reads
    return R.d, R.n, reads

def run_c12(check, E):
    _G['forms'] = model_values(check, 2)
    kinds = {kind_of(a) for a in E.assocs.values()}
    docs = model_docs(check, kinds, 2, 3, False)
    _G['docs'] = docs; _G['spell'] = any_spelling; _G['sources'] = cimdoc.SOURCES
    R = collect(check, _c11, plan_c11(E, docs, 60 if THOROUGH else 8, 'c12'))
    m = 30 if THOROUGH else 6
    R.merge(collect(check, _c12, [(root, i, 25 if THOROUGH else 12) for root in E.S.roots for i in range(m * (12 if root in ('CIM14', 'CIM15') else 2))]))
    R.merge(collect(check, _big, bigs(E, check.pid)))
    judge(check, R)


# --- C14: histories of reads, and models read in parts -------------------------------
def start_of(obs):
    """an observed model as the start model of the next read"""
    return dict(objs=obs['objs'], vals=obs['vals'], links=list(dict.fromkeys(obs['l'])))

def read_parts(E, R, root, comps, r, ctx, spell=None, sources=('bytes',), start=None, pre=()):
    """comps: [[part, part, ...]] (element lists): the k-th parts of all make the
    k-th file.  Every intermediate map and the final one are judged."""
    S = E.S; n = max(map(len, comps)); m = {} if start is None else start
    held = dict(m); models = [EMPTY for _ in comps]; reads = 0
    if pre: models = [pre for _ in comps]
    for k in range(n):
        q = [[dict(e, b=list(e['b'])) for e in (c[k] if k < len(c) else [])] for c in comps]
        flat = [e for c in q for e in c]
        sp = spell(r) if spell else Spelling()
        uri = E.uri(root, r)
        text = cimdoc.render(flat, uri + '#', sp, S)
        got, exc = cimdoc.read(text, sp, r.choice(sources), E.args(root, uri, r), m, r, _G['tmp']); reads += 1
        other = []
        if got is None:
            R.add(flat, dict(objs=[], vals=[], l=[], r=[], other=[]), exc, E.assocs, (ctx, text[:3000])); return reads
        if got is not m: other.append('another map is returned')
        for i, o in held.items():
            if m.get(i) is not o and not any(e['id'] == i for e in flat): other.append('entry of the start map replaced')
        names = E.O.names(got); held = dict(got)
        for j, c in enumerate(comps):
            seen = [e for p in c[:k] for e in p]; new = {e['id'] for e in flat if e['t'] == 'obj'}   # described anew: nothing stays
            ids = list(dict.fromkeys([i for i, _ in models[j]['objs']] + [e['id'] for p in c[:k + 1] for e in p]))
            st = stated(seen + q[j]) | {(v[0], v[1]) for v in models[j]['vals'] if v[0] not in new}
            obs = E.O.of(got, names, ids, st); obs['other'] = obs['other'] + other
            R.add(q[j], obs, '', E.assocs, (ctx, text[:2000], 'file %d' % (k + 1)), start=models[j])
            models[j] = start_of(obs)
            if k == n - 1:      # the same as one combined file
                w = dict(obs); R.add([e for p in c for e in p], w, '', E.assocs, (ctx, 'combined'), start=pre or EMPTY)
    known = {i for c in comps for p in c for e in p for i in [e['id']]} | {i for i, _ in (pre['objs'] if pre else [])}
    extra = [i for i in m if i not in known]
    if extra: R.add([], dict(objs=[(i, '?') for i in extra], vals=[], l=[], r=[], other=[]), '', E.assocs, (ctx, 'extra entries'))
    return reads

def split_model(E, el, r, n):
    """distributes the elements over n files so that no file refers to a later one"""
    f = {e['id']: r.randrange(n) for e in el}
    by = {e['id']: dict(e, b=[]) for e in el}
    have = {(e['id'], s['a'], s['s'], s['to']) for e in el for s in e['b'] if s['k'] == 'ref'}
    for e in el:
        for s in e['b']:
            if s['k'] != 'ref' or f[s['to']] <= f[e['id']]: by[e['id']]['b'].append(s); continue
            a = E.assocs[s['a']]
            if a['uni']: continue
            o = 'r' if s['s'] == 'l' else 'l'
            if (s['to'], s['a'], o, e['id']) in have: continue
            have.add((s['to'], s['a'], o, e['id']))
            c, nm = (a['lc'], a['lr']) if o == 'l' else (a['rc'], a['rr'])
            by[s['to']]['b'].append(ref(s['a'], o, e['id'], nm, E.S.cls[c]['name']))
    return [[by[e['id']] for e in el if f[e['id']] == k] for k in range(n)]

class Broken:
    def __init__(self, data, at): self.d, self.at, self.p = data, at, 0
    def seek(self, n): self.p = n
    def read(self, n=-1):
        if self.p >= self.at: raise IOError('no more')
        b = self.d[self.p:min(self.at, self.p + n)]; self.p += len(b); return b

def failing_read(E, r, root):
    """a read that fails, one way or another; its outcome is not judged"""
    from PyCIM import cimread
    import io
    el = random_model(E, root, r, 8, 8); uri = E.uri(root)
    text = cimdoc.render(el, uri + '#', Spelling(), E.S).encode('utf-8')
    how = r.randrange(11); a = (E.maps[root], uri)
    try:
        if how >= 8:     # a map without some of the classes, or with none that can be imported
            m = E.maps[root]; n = {E.S.cls[e['c']]['name'] for e in el}
            m = {c: p if how != 10 else 'CIM15.NoSuchPackage' for c, p in m.items() if how == 10 or c not in n or (how == 9 and r.random() < .5)}
            cimread(io.BytesIO(text), m, uri); return
        if how == 0: cimread(io.BytesIO(text[:r.randrange(1, len(text))]), *a)
        elif how == 1: cimread(os.path.join(_G['tmp'], 'no such file'), *a)
        elif how == 2: cimread(io.BytesIO(b''), *a)
        elif how == 3: cimread(io.BytesIO(text.replace(b'</cim:', b'</cin:', 1)), *a)
        elif how == 4: cimread(Broken(text, r.randrange(len(text))), *a)
        elif how == 5: cimread(io.BytesIO(text), E.maps[root])
        elif how == 6: cimread(io.BytesIO(text), None, uri)
        else:
            i = text.rfind(b'</cim:'); cimread(io.BytesIO(text[:i] + b'&nothing;' + text[i:]), *a)
    except Exception: pass

def _c14(chunk):
    E = _G['E']; S = E.S; R = Records(); reads = 0
    for what, root, i, arg in chunk:
        r = rng('c14', what, root, i)
        spell = any_spelling if r.random() < .3 else None
        if what == 'docs':
            comps = []; n = 0
            for a, picks in arg:
                for d in picks:
                    n += 1
                    whole = instantiate(E, a, d['d'], r, n)
                    c = sorted(r.sample(d['cuts'], r.randrange(1, len(d['cuts']) + 1)))
                    comps.append([whole[x:y] for x, y in zip([0] + c, c + [len(whole)])])
            r.shuffle(comps)
            for j in range(0, len(comps), 25): reads += read_parts(E, R, root, comps[j:j + 25], r, 'parts of %s %d' % (root, i), spell)
        elif what == 'parts':
            el = random_model(E, root, r, r.choice([6, 15, 30]), r.choice([5, 15, 40]))
            parts = split_model(E, el, r, r.choice([2, 2, 3, 5]))
            start, pre = None, ()
            if r.random() < .5:       # entries the caller made
                k = r.choice(_G['roots'][root]); mid = 'made'
                if r.random() < .5:    # under an identifier that the document describes anew
                    e = r.choice(el); mid = e['id']
                    if r.random() < .6: k = e['c']
                o = impl.get_class(k)(UUID=mid); start = {mid: o}
                for n, kd, f, _ in S.features(k):
                    if kd == 'attr' and n != 'UUID' and r.random() < .3: setattr(o, n, f['lits'][0] if f.get('lits') else {'str': 'old', 'int': 77, 'float': 7.5, 'bool': True}[f['t']])
                if r.random() < .5:    # and others: without identifier, under another name, or no CIM object at all
                    ids = {e['id'] for e in el}
                    c = impl.get_class(k); more = {'bare': c(), 'alias': c(UUID='u1'), 'note': 'text', 'none': None, 'nought': 0, 'map': {}}
                    for n in r.sample(sorted(more), r.randrange(1, 5)):
                        if n not in ids: start[n] = more[n]
                    start = dict(r.sample(list(start.items()), len(start)))
                obs = E.O.of(start, E.O.names(start), list(start), set()); pre = start_of(obs)
            reads += read_parts(E, R, root, [parts], r, 'model in parts %s %d' % (root, i), spell, ('bytes', 'path', 'text'), start, pre)
        elif what == 'many':      # far more reads than files may be open at a time
            el = random_model(E, root, r, 2, 3); sp = Spelling(); uri = E.uri(root); args = E.args(root, uri, r)
            text = cimdoc.render(el, uri + '#', sp, S)
            opened = len(os.listdir('/proc/self/fd')); soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
            resource.setrlimit(resource.RLIMIT_NOFILE, (opened + 60, hard))
            try:
                for step in range(150):
                    if r.random() < .2: failing_read(E, r, root)
                    m, exc = cimdoc.read(text, sp, 'path', args, None, r, _G['tmp'])
                    reads += 1
                    obs = E.O.of(m, E.O.names(m), ids_of(el), stated(el)) if m is not None else dict(objs=[], vals=[], l=[], r=[], other=[])
                    R.add(el, obs, exc, E.assocs, ('read %d of many %s %d' % (step, root, i), text[:2000]))
                    if m is None: break
            finally: resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        else:
            old = []; fixed = os.path.join(_G['tmp'], 'h%s%d.xml' % (root, i))
            for step in range(r.randrange(3, 9)):
                rt = r.choice([root, root, r.choice(list(S.roots))])
                while r.random() < .4: failing_read(E, r, rt)
                kept = None
                if old and r.random() < .4: rt, el, _, _, text, sp, uri, args, kept = r.choice(old)
                else:
                    el = random_model(E, rt, r, r.choice([3, 8, 15]), r.choice([2, 8]), r.choice([2, 6]))
                    if r.random() < .5: el = inject(E, r, el, .3)
                    sp = spell(r) if spell else Spelling(); uri = E.uri(rt, r); args = E.args(rt, uri, r)
                    text = cimdoc.render(el, uri + '#', sp, S)
                again = []
                if kept and r.random() < .6: m, exc = cimdoc.reread(kept, args); again = [kept]
                else: m, exc = cimdoc.read(text, sp, r.choice(['bytes', 'path', 'text']), args, None, r, _G['tmp'], fixed, again)
                reads += 1
                other = []
                if m is not None:
                    ids = {id(o) for o in m.values()}
                    for x in old:
                        if x[2] is m: other.append('an earlier map is returned')
                        elif ids & {id(o) for o in x[2].values()}: other.append('objects of an earlier read are returned')
                    extra = [k for k in m if k not in {e['id'] for e in el}]
                    if extra: other.append('extra entries')
                    obs = E.O.of(m, E.O.names(m), ids_of(el), stated(el)); obs['other'] = obs['other'] + other
                else: obs = dict(objs=[], vals=[], l=[], r=[], other=[])
                R.add(el, obs, exc, E.assocs, ('history %s %d step %d' % (root, i, step), text[:2000]))
                if m is None: break
                old.append((rt, el, m, obs, text, sp, uri, args, again[0] if again else None))
            for rt, el, m, obs, *_ in old:      # earlier results are as they were
                o2 = E.O.of(m, E.O.names(m), ids_of(el), stated(el))
                if len(m) != len({e['id'] for e in el if e['t'] == 'obj'}): o2['other'] = o2['other'] + ['entries came or went']
                R.add(el, o2, '', E.assocs, ('history %s %d, afterwards' % (root, i), ''))
    return R.d, R.n, reads

def run_c14(check, E):
    _G['allcls'] = sorted(E.S.cls)
    kinds = {kind_of(a) for a in E.assocs.values()}
    docs = model_docs(check, kinds, 2, 3, False, cuts=True)
    random_model(E, 'CIM15', rng('warm'))
    items = [('docs', root, i, l) for root, i, l in plan_c11(E, docs, 60 if THOROUGH else 6, 'c14')]
    n = 30 if THOROUGH else 3
    for root in E.S.roots:
        for i in range(n * (12 if root in ('CIM14', 'CIM15') else 2)): items += [('parts', root, i, 0), ('history', root, i, 0)]
    items += [('many', root, i, 0) for root in E.S.roots for i in range(5 if THOROUGH else 1)]
    R = collect(check, _c14, items)
    R.merge(collect(check, _big, bigs(E, check.pid)))
    judge(check, R)

# --- C15: which classes -----------------------------------------------------------------
def _c15(chunk):
    E = _G['E']; S = E.S; R = Records(); reads = 0
    both = _G['both']
    for what, i in chunk:
        r = rng('c15', what, i)
        names = r.sample(sorted(both), 6)
        uri14, uri15 = S.roots['CIM14']['nsURI'], S.roots['CIM15']['nsURI']
        sp = any_spelling(r)
        def doc(root, names=names):
            return [obj(new_id(r, n), both[x][root], []) for n, x in enumerate(names)]
        def go(el, uri, args, sp, ctx, reject=False, extra=()):
            text = cimdoc.render(el, uri + '#', sp, S)
            src = r.choice(cimdoc.SOURCES)
            m, exc = cimdoc.read(text, sp, src, args, None, r, _G['tmp'])
            ids = [e['id'] for e in el if e['t'] != 'raw']
            obs = dict(objs=[], vals=[], l=[], r=[], other=[])
            if m is not None:
                obs = E.O.of(m, E.O.names(m), ids, set())
                if [k for k in m if k not in ids]: obs['other'] = obs['other'] + ['extra entries']
            R.add([e for e in el if e['t'] != 'raw'], obs, exc.split(':')[0] if reject else exc, E.assocs, (ctx, text[:1500], src), reject=reject)
        if what == 'version':
            for uri, root in ((uri14, 'CIM14'), (uri15, 'CIM15'), (NS16, 'CIM15'), ('http://iec.ch/TC57/%d/CIM-schema-cim%d' % (r.randrange(2011, 2030), r.choice([10, 12, 13, 17, 18, 100])), 'CIM15'),
                              ('http://example.org/my-cim', 'CIM15'), (r.choice([uri14 + '#ext', 'http://example.org/a#b', uri15 + '#', uri14 + '?x=1#a', 'urn:x:y']), 'CIM15'), (uri14 + '-ext', 'CIM15'), (uri15[:-1], 'CIM15'), (r.choice([uri14.upper(), uri14.lower().replace('cim-', 'Cim-'), uri14.replace('http:', 'https:'), uri14.replace('CIM-schema', 'cim-schema'), uri14 + '/', 'http://www.' + uri14[7:], uri14.replace('2009', '2010'), uri14[:-2] + '014', uri14 + '_', 'urn:' + uri14]), 'CIM15')):
                sp = any_spelling(r)
                if uri not in (uri14, uri15, NS16): sp.cim = 'cim'; sp.local = 0
                sp.extra_ns = r.choice([[], [('xmlns:md', 'http://iec.ch/TC57/61970-552/ModelDescription/1#')], [('xmlns:entsoe', 'http://entsoe.eu/Secretariat/ProfileExtension/2#')]])
                go(doc(root), uri, (None, None), sp, 'namespace %s' % uri); reads += 1
        elif what == 'explicit':
            root = list(S.roots)[i % len(S.roots)]
            ks = [k for k in _G['roots'][root] if not k.endswith('.Element')]; ks = r.sample(ks, min(8, len(ks)))
            uris = [S.roots[root]['nsURI'], uri14, uri15, NS16, 'http://example.org/my-cim']
            uri = r.choice(uris[:1] + uris)
            el = [obj(new_id(r, n), k, []) for n, k in enumerate(ks)]
            # elements of other CIM namespaces are not read
            ou = r.choice([u for u in uris if u != uri]); sp.extra_ns = [('xmlns:o', ou + '#')]
            for n in range(3):
                nm = S.cls[r.choice(ks)]['name']; same = el[0]['id'] if r.random() < .5 else 'x%d' % n
                el.insert(r.randrange(len(el) + 1), dict(t='raw', id='', c='', b=[], raw=lambda cp, rp, q, nm=nm, same=same: '<o:%s %sID=%s%s%s><o:IdentifiedObject.name>o</o:IdentifiedObject.name></o:%s>' % (nm, rp, q, same, q, nm)))
            if sp.cim == '' : sp.cim = r.choice(['cim', 'p'])
            if r.random() < .3: sp.cim, sp.extra_ns = 'p', [('xmlns:cim', ou + '#')]; el = [e for e in el if e['t'] != 'raw']
            m = E.maps[root]
            if r.random() < .5:      # a map of some classes only, or of classes of several versions
                some = {S.cls[k]['name'] for k in r.sample(ks, r.randrange(1, len(ks) + 1))}
                m = {c: p for c, p in m.items() if c in some or r.random() < .5 and c not in {S.cls[k]['name'] for k in ks}}
                for e in el:
                    if e['t'] != 'obj': continue
                    n = S.cls[e['c']]['name']
                    if n not in m:
                        e['t'] = 'unknown'; e['c'] = n
                    elif n in both and r.random() < .3 and all(x['t'] != 'obj' or x is e or S.cls[x['c']]['name'] != n for x in el):
                        e['c'] = both[n][r.choice(['CIM14', 'CIM15'])]; m[n] = E.maps[S.cls[e['c']]['root']][n]
            go(el, uri, (m, uri), sp, 'explicit %s' % root); reads += 1
            # a document that has nothing in the namespace asked for
            sp.extra_ns = []
            go([dict(e, t='unknown', c=S.cls[e['c']]['name'] if e['c'] in S.cls else e['c']) for e in el if e['t'] != 'raw'], uri,
               (m, r.choice([u for u in uris + ['http://example.org/other'] if u != uri])), sp, 'another namespace %s' % root); reads += 1
        else:
            root = r.choice(['CIM14', 'CIM15'] + list(S.roots)); uri = S.roots[root]['nsURI']
            el = [obj(new_id(r, n), k, []) for n, k in enumerate(r.sample(_G['roots'][root], 3))]
            go(el, uri, (E.maps[root], None), sp, 'map without namespace %s' % root, True)
            go(el, uri, (None, uri), sp, 'namespace without map %s' % root, True)
            reads += 2
    return R.d, R.n, reads

def run_c15(check, E):
    random_model(E, 'CIM15', rng('warm'))
    S = E.S; by = {}
    for root in ('CIM14', 'CIM15'):
        for k in _G['roots'][root]:
            if not k.endswith('.Element'): by.setdefault(S.cls[k]['name'], {})[root] = k
    _G['both'] = {n: d for n, d in by.items() if len(d) == 2}
    docs = model_docs(check, {(True, False, False, False), (True, True, False, False)}, 2, 3, True)
    n = 3000 if THOROUGH else 150
    items = [('version', i) for i in range(n // 3)] + [('explicit', i) for i in range(2 * n)] + [('one', i) for i in range(n // 3)]
    _G['docs'] = docs; _G['allcls'] = sorted(S.cls); _G['spell'] = any_spelling
    R = collect(check, _c15, items)
    R.merge(collect(check, _c11, plan_c11(E, docs, 10 if THOROUGH else 1, 'c15')))
    R.merge(collect(check, _big, bigs(E, check.pid)))
    judge(check, R)
    check.add(names_in_both_versions=len(_G['both']))

def run(pid):
    check = common.Check(pid)
    E = Env(); _G['E'] = E
    globals()['run_' + pid.lower()](check, E)
    check.assumptions.append('classes, attributes and associations as in spec/data/schema.json')
    return check.finish()
