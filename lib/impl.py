"""Access to the implementation under test through its public surface, driven by
the schema oracle (spec/data/schema.json)."""
import importlib, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

class Schema:
    def __init__(self):
        d = json.load(open(os.path.join(VERIF, 'spec', 'data', 'schema.json')))
        self.roots = d['roots']
        self.cls = {c['id']: c for c in d['classes']}
        self.subs = {}
        for k, c in self.cls.items():
            if c['sup']: self.subs.setdefault(c['sup'], []).append(k)
        self._anc = {}
    def ancestors(self, k):
        """k and its superclasses, most derived first"""
        if k not in self._anc:
            o, r = k, []
            while o: r.append(o); o = self.cls[o]['sup']
            self._anc[k] = r
        return self._anc[k]
    def descendants(self, k):
        r = [k]
        for s in self.subs.get(k, []): r += self.descendants(s)
        return r
    def features(self, k):
        """[(name, 'attr'|'ref', declaration, declaring class)] incl. inherited;
        a redeclared name appears once, with the most derived declaration"""
        seen, out = set(), []
        for a in self.ancestors(k):
            c = self.cls[a]
            for f in c['attrs']:
                if f['n'] not in seen: seen.add(f['n']); out.append((f['n'], 'attr', f, a))
            for f in c['refs']:
                if f['n'] not in seen: seen.add(f['n']); out.append((f['n'], 'ref', f, a))
        return out
    def shadowed(self, k):
        """names declared more than once along k's ancestry"""
        n, d = set(), set()
        for a in self.ancestors(k):
            for f in self.cls[a]['attrs'] + self.cls[a]['refs']:
                (d if f['n'] in n else n).add(f['n'])
        return d
    def associations(self):
        """One dict per association: left/right class and reference, lm/rm, uni.
        Oriented so that the left end is the multi-valued one if only one is."""
        out, done = [], set()
        for k in sorted(self.cls):
            for f in self.cls[k]['refs']:
                if f.get('view'): continue
                if not f['opp']:
                    out.append(dict(id='%s.%s' % (k, f['n']), lc=k, lr=f['n'], rc=f['tgt'], rr=None, lm=f['many'], rm=False, uni=True))
                    continue
                g = [x for x in self.cls[f['tgt']]['refs'] if x['n'] == f['opp']][0]
                a, b = (k, f['n'], f['many']), (f['tgt'], g['n'], g['many'])
                if (a[:2], b[:2]) in done: continue
                done |= {(a[:2], b[:2]), (b[:2], a[:2])}
                if b[2] and not a[2]: a, b = b, a
                out.append(dict(id='%s.%s' % a[:2], lc=a[0], lr=a[1], rc=b[0], rr=b[1], lm=a[2], rm=b[2], uni=False))
        return out

class Missing(Exception): pass
_cache = {}
def get_class(cid):
    if cid in _cache:
        c = _cache[cid]
        if isinstance(c, Exception): raise c
        return c
    pkg, name = cid.rsplit('.', 1)
    c = None
    try:
        try: c = getattr(importlib.import_module(pkg + '.' + name), name)
        except ImportError: pass
        if not isinstance(c, type): c = getattr(importlib.import_module(pkg), name)
        if not isinstance(c, type): raise Missing('%s is not a class' % cid)
    except Exception as e:
        e2 = Missing('%s: %s' % (cid, e)); _cache[cid] = e2; raise e2
    _cache[cid] = c
    return c

def import_all(schema):
    """Imports everything so that forked workers share it; returns failures."""
    bad = {}
    for r in sorted(schema.cls):
        try: get_class(r)
        except Missing as e: bad[r] = str(e)
    return bad
