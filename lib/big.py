"""Whole models of thousands of objects: the sample documents of the repository,
and random ones.  A big read is judged object by object: each record for
ReadStep.tla has one object with all its statements, a group of the objects it
is linked with, and their statements about it."""
import glob, os, xml.parsers.expat
import common, cimdoc
from cimdoc import obj, attr, ref, bad
SAMPLES = os.path.join(common.REPO, 'PyCIM', 'Test', 'Data', '*.xml')

def raw_elements(data):
    """[(namespace, name, attributes, [(namespace, name, attributes, text, has children)])], by expat"""
    out, stack = [], []
    p = xml.parsers.expat.ParserCreate(namespace_separator=' '); p.buffer_text = True
    def split(n): a = n.split(' '); return a if len(a) == 2 else ['', n]
    def start(n, a):
        stack.append([split(n), {tuple(split(k)): v for k, v in a.items()}, '', []])
    def end(n):
        x = stack.pop()
        if stack: stack[-1][3].append(x)
        else: out.append(x)
    def text(t):
        if not stack[-1][3]: stack[-1][2] += t      # the text before the first child
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    p.Parse(data, True)
    return out[0]

def convert(t, lex):
    """the value a lexical form stands for (the samples use plain ones)"""
    lex = lex.strip() if t != 'str' else lex
    if t == 'bool': return lex.lower() in ('true', '1', 'yes')
    return {'str': str, 'int': lambda x: int(float(x)) if not x.lstrip('+-').isdigit() else int(x), 'float': float}[t](lex)

def sample(E, path):
    """(root of the classes, namespace, elements) of a sample document"""
    S = E.S; top = raw_elements(open(path, 'rb').read())
    CIM = [n for n in {x[0][0] for x in top[3]} if n.startswith('http://iec.ch/TC57/')]
    if len(CIM) != 1: return None
    ns = CIM[0]; uri = ns.rstrip('#')
    root = 'CIM14' if uri == S.roots['CIM14']['nsURI'] else 'CIM15'
    pick = {S.cls[k]['name']: k for k in sorted(S.cls) if S.cls[k]['root'] == root and k not in E.hidden}
    elems = []
    for (u, name), at, _, kids in top[3]:
        i = at.get((cimdoc.RDF, 'ID')); about = i is None
        if i is None:
            i = at.get((cimdoc.RDF, 'about'))
            if i is None: continue
            if i[:1] == '#': i = i[1:]
        if u != ns or name not in pick: elems.append(obj(i, name, [], t='unknown' if u == ns else 'foreign')); continue
        cid = pick[name]; b = []
        feats = {n: (kd, f, dc) for n, kd, f, dc in S.features(cid)}
        for (v, st), sat, text, sub in kids:
            decl, _, f = st.partition('.')
            to = sat.get((cimdoc.RDF, 'resource'))
            if v != ns or sub or f not in feats or f == 'UUID': b.append(bad(_raw(st, to, text))); continue
            kd, d, dc = feats[f]
            if S.cls[dc]['name'] != decl: b.append(dict(bad(_raw(st, to, text)), doubt=True)); continue
            if kd == 'attr':
                if to is not None:
                    if not d.get('lits'): b.append(dict(bad(_raw(st, to, text)), doubt=True)); continue
                    lit = to.rsplit('.', 1)[-1]
                    if lit not in d['lits']: b.append(dict(bad(_raw(st, to, text)), doubt=True)); continue
                    b.append(attr(f, decl, None, (d['t'] and 'str', repr(lit)), res='%s.%s' % (to.split('#')[-1].rsplit('.', 1)[0], lit)))
                else:
                    try: x = convert(d['t'], text)
                    except ValueError: b.append(dict(bad(_raw(st, to, text)), doubt=True)); continue
                    b.append(attr(f, decl, cimdoc.esc(text), (type(x).__name__, repr(x))))
            else:
                a = E.O.assoc.get((dc, f))
                if a is None or to is None or to[:1] != '#': b.append(dict(bad(_raw(st, to, text)), doubt=True)); continue
                b.append(ref(a[0]['id'], a[1], to[1:], f, decl))
        elems.append(obj(i, cid, b, about=about))
    return root, uri, elems
def _raw(st, to, text):
    def f(cp, rp, q):
        n = cp + st
        return '<%s%s>%s</%s>' % (n, ' %sresource=%s%s%s' % (rp, q, cimdoc.esc(to, q), q) if to is not None else '', cimdoc.esc(text), n)
    return f
def samples(E):
    for p in sorted(glob.glob(SAMPLES)):
        s = sample(E, p)
        if s: yield (os.path.basename(p), p) + s

def end_of(e, s): return (s['a'], e['id'], s['to']) if s['s'] == 'l' else (s['a'], s['to'], e['id'])

def judge_whole(E, R, elems, m, exc, ctx, group=60, want=None):
    """local records of the read of elems that gave m; want: only these ids"""
    if m is None:
        R.add([], dict(objs=[], vals=[], l=[], r=[], other=[]), exc, E.assocs, (ctx, 'the whole document')); return
    names = E.O.names(m)
    first, twice = {}, set()
    for e in elems:
        if e['t'] != 'obj': continue
        if e['id'] in first: twice.add(e['id'])
        first[e['id']] = e
    extra = [i for i in m if i not in first]
    R.add([], dict(objs=[(i, '?') for i in extra[:5]], vals=[], l=[], r=[], other=[]), '', E.assocs, (ctx, 'extra entries'))
    # ends with more partners than they can have: what is linked there is not settled
    links, full, l1, r1 = {}, set(), {}, {}
    about = {}         # id -> [(subject, statement)] in document order
    for e in elems:
        if e['t'] != 'obj': continue
        for s in e['b']:
            if s.get('doubt'): twice.add(e['id'])
            if s['k'] != 'ref' or s['to'] not in first: continue
            k = end_of(e, s)
            about.setdefault(s['to'], []).append((e, s))
            if k in links: continue
            a = links[k] = E.assocs[s['a']]
            if not a['lm']: l1.setdefault((k[0], k[1]), []).append(k)
            if not a['rm'] and not a['uni']: r1.setdefault((k[0], k[2]), []).append(k)
            if k[1] == k[2] and not a['uni']: full.add(k)
    for d in (l1, r1):
        for l in d.values():
            if len(l) > 1: full.update(l)
    touched = {x for k in full for x in k[1:]} | twice
    for i, e in first.items():
        if i in touched or want is not None and i not in want: continue
        near = {}
        for s in e['b']:
            if s['k'] == 'ref' and s['to'] in first and s['to'] != i: near.setdefault(s['to'], [])
        for x, s in about.get(i, []):
            if x['id'] != i: near.setdefault(x['id'], []).append(s)
        near = {n: b for n, b in near.items() if n not in touched}
        ns = list(near)
        obs = E.O.of(m, names, [i], cimdoc_stated(e))
        for j in range(0, max(1, len(ns)), group):
            g = ns[j:j + group]; gs = set(g); others = (set(ns) | touched) - gs - {i}
            own = dict(e, b=[s for s in e['b'] if s['k'] != 'ref' or s['to'] not in others])
            doc = [own] + [dict(first[n], b=near[n]) for n in g]
            o = dict(objs=list(obs['objs']), vals=list(obs['vals']), other=list(obs['other']), l=[x for x in obs['l'] if x[2] not in others], r=[x for x in obs['r'] if x[1] not in others])
            for n in g:
                y = m.get(n)
                if y is None: continue
                q = _seen(E, m, names, n)
                o['objs'] += q['objs']
                o['l'] += [x for x in q['l'] if x[2] == i]; o['r'] += [x for x in q['r'] if x[1] == i]
            R.add(doc, o, '', E.assocs, (ctx, 'object %s' % i))
def cimdoc_stated(e): return {(e['id'], s['f']) for s in e['b'] if s['k'] == 'attr'}
_cache = {}
def _seen(E, m, names, n):
    if _cache.get('m') is not m: _cache.clear(); _cache['m'] = m
    if n not in _cache: _cache[n] = E.O.of(m, names, [n], set())
    return _cache[n]
