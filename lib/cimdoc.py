"""CIM RDF/XML documents: built from the specification's vocabulary
(CimReadOps.tla), spelled out as XML in many ways, read by the real reader,
and the result described in the same vocabulary."""
import collections, importlib, io, os, pathlib, re, tempfile
import impl

RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'

# --- elements and statements -----------------------------------------------
def obj(id, cid, b=(), t='obj', **kw): return dict(t=t, id=id, c=cid, b=list(b), **kw)
def attr(f, decl, lex, v, res=None): return dict(k='attr', f=f, decl=decl, lex=lex, v=v, res=res)
def ref(a, s, to, name, decl, res=None): return dict(k='ref', a=a, s=s, to=to, name=name, decl=decl, res=res)
def bad(raw): return dict(k='bad', raw=raw)

def esc(t, q=None):
    t = t.replace('&', '&amp;').replace('<', '&lt;').replace(']]>', ']]&gt;').replace('\r', '&#13;')
    if q: t = t.replace('\t', '&#9;').replace('\n', '&#10;').replace(q, '&quot;' if q == '"' else '&apos;')
    return t

class Spelling:
    """How a document is written; every choice is made by r when not fixed."""
    def __init__(self, r=None, **kw):
        self.r = r
        self.cim, self.rdf, self.q, self.enc, self.bom, self.decl = 'cim', 'rdf', '"', 'utf-8', False, True
        self.ws, self.noise, self.selfclose, self.about, self.order, self.doctype = '\n  ', 0, .5, 0, False, False
        self.attrs_first = None; self.xattr = 0; self.nsorder = False; self.standalone = ''; self.extra_ns = []
        self.entities, self.datatype = False, 0
        self.nest = 0
        self.local, self.swap = 0, False       # namespaces declared where they are used; the usual prefixes stand for other ones
        self.__dict__.update(kw)
    def p(self, x): return self.r is not None and x and self.r.random() < x

def any_spelling(r):
    enc = r.choice(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii'])
    if r.random() < .15: enc = r.choice(['UTF-8', 'ISO-8859-1', 'US-ASCII', 'UTF-16', 'windows-1252', 'iso-8859-15', 'koi8-r', 'utf-16-be'])
    return Spelling(r, cim=r.choice(['cim', 'cim', 'c', 'CIM-16', '', 'ns0']), rdf=r.choice(['rdf', 'rdf', 'r', 'RDF']), q=r.choice('"\''),
                    enc=enc, bom=enc.lower() == 'utf-16' or enc.lower() == 'utf-8' and r.random() < .2, decl=enc.lower() not in ('utf-8', 'utf-16', 'utf-16-be') or r.random() < .8,
                    ws=r.choice(['', '\n', '\r\n\t', ' \n  ', '\n\n\n']), noise=r.choice([0, 0, .2, .6]), selfclose=r.choice([0, .5, 1]),
                    about=r.choice([0, .5, 1]), doctype=r.random() < .15, nsorder=r.random() < .5, xattr=r.choice([0, 0, .3]),
                    standalone=r.choice(['', '', ' standalone="yes"']), entities=r.random() < .12, datatype=r.choice([0, 0, 0, .3]),
                    local=r.choice([0, 0, 0, .3, 1]), swap=r.random() < .3, nest=r.choice([0, 0, 0, .15, .7]))

NOISE = ['<!-- note -->', '<!---->', '<?app do it?>', '<!-- <cim:Terminal rdf:ID="no"/> & -->', '<?cim <x> ?>'] * 8 + ['<!--%s-->' % (' padding' * 2500)]

def is_uri(i): return i.startswith(('urn:', 'http:', 'https:'))
def uriref(i):
    """objects of the document are referred to as #id; those with a URI of their own by it"""
    return i if is_uri(i) else '#' + i

def render(elems, ns, sp, S):
    """elements -> document text"""
    r, q = sp.r, sp.q
    cp = sp.cim + ':' if sp.cim else ''
    rp = sp.rdf + ':'
    out = []
    w = out.append
    def noise():
        w(sp.ws)
        while sp.p(sp.noise): w(r.choice(NOISE) + sp.ws)
    def val(k, v):
        if sp.entities and v.startswith(ns): return '&cimns;' + esc(v[len(ns):], q)
        if sp.entities and v == RDF: return '&rdf;'
        return esc(v, q)
    def att(*kv): return ''.join(' %s=%s%s%s' % (k, q, val(k, v), q) for k, v in kv)
    def extra(x, typ=None):
        """attributes that carry no meaning here, before or after the others"""
        x = list(x)
        if sp.p(sp.xattr): x.insert(r.randrange(len(x) + 1), r.choice([('ext:n', '1'), ('xml:lang', 'en'), ('resource', '#x'), ('ext:ID', 'no'), ('ID', 'bare'), ('about', '#bare'), ('id', 'x'), ('ext:about', '#no'), ('ext:resource', '#no')]))
        if typ and sp.p(sp.datatype): x.insert(r.randrange(len(x) + 1), (rp + 'datatype', 'http://www.w3.org/2001/XMLSchema#' + typ))
        return x
    def empty(name, atts):
        if sp.p(1 - sp.selfclose): w('<%s%s></%s>' % (name, atts, name + (' ' if sp.p(.1) else '')))
        else: w('<%s%s%s/>' % (name, atts, ' ' if sp.p(.5) else ''))
    if sp.decl: w('<?xml version="1.0"%s%s?>' % (' encoding="%s"' % (sp.enc if sp.enc != 'utf-16-be' else 'UTF-16') if sp.enc else '', sp.standalone))
    if sp.entities: w('\n<!DOCTYPE %sRDF [\n <!ENTITY rdf "%s">\n <!ENTITY cimns "%s"> ]>' % (rp, RDF, ns))
    elif sp.doctype: w('\n<!DOCTYPE %sRDF [ <!ENTITY who "me"> ]>' % rp)
    if sp.p(sp.noise): w('\n<!-- before -->' if r.random() < .7 else '\n<!--%s-->' % (' licence terms <x> ' * r.choice([60, 300, 4000])))
    nss = [('xmlns:' + sp.rdf, RDF), ('xmlns:' + sp.cim if sp.cim else 'xmlns', ns), ('xmlns:ext', 'http://example.org/ext#')] + sp.extra_ns
    if sp.swap: nss += [(p, 'http://example.org/%s#' % p[6:]) for p in ('xmlns:cim', 'xmlns:rdf') if p[6:] not in (sp.cim, sp.rdf) and p not in dict(sp.extra_ns)]
    if sp.nsorder: nss.reverse()
    if sp.local == 1 and not any(e['t'] == 'raw' for e in elems): nss = [x for x in nss if x[1] != ns]
    root_cp = cp
    if sp.p(sp.xattr): nss.insert(r.randrange(len(nss) + 1), ('xml:base', 'http://example.org/model'))
    w(('\n' if sp.decl else '') + '<%sRDF%s>' % (rp, att(*nss)))
    kids, once = {}, collections.Counter(map(id, elems))         # elements inside of others
    for k, e in enumerate(elems):
        if sp.p(sp.nest) and k and e['t'] != 'raw' and not e.get('silent') and once[id(e)] == 1:
            o = elems[r.randrange(max(0, k - 6), k)]
            if o['t'] != 'raw' and not o.get('silent') and once[id(o)] == 1: kids.setdefault(id(o), []).append(e)
    inner = {id(e) for v in kids.values() for e in v}
    def element(e):
        noise(); cp = root_cp; decl = []
        if e['t'] != 'raw' and sp.p(sp.local):
            c = r.choice([sp.cim, 'cim', '', 'k'])
            if c != sp.rdf: cp = c + ':' if c else ''; decl = [('xmlns:' + c if c else 'xmlns', ns)]
            else: decl = [('xmlns:' + sp.cim if sp.cim else 'xmlns', ns)]
        if e['t'] == 'raw': w(e['raw'](cp, rp, q)); return
        name = cp + (S.cls[e['c']]['name'] if e['c'] in S.cls else e['c']) if e['t'] != 'foreign' else 'ext:' + e['c']
        about = e.get('about', sp.p(sp.about))
        a = [(rp + "about", uriref(e['id'])) if about or is_uri(e['id']) else (rp + 'ID', e['id'])]
        a = extra(a)
        for x in decl: a.insert(r.randrange(len(a) + 1), x)
        a = att(*a)
        if not e['b'] and not e.get('filler') and not e.get('nest') and id(e) not in kids: empty(name, a); return
        w('<%s%s>' % (name, a))
        if e.get('filler'): w(e['filler'])
        if e.get('nest'): w(e['nest'](cp, rp, q))
        below = {}
        for x in kids.get(id(e), ()): below.setdefault(r.randrange(len(e['b']) + 1), []).append(x)
        def put(n):
            for x in below.get(n, ()):
                c = r.choice(['ext:has', 'ext:has', cp + 'Unknown.has', None])
                if c: w('<%s>' % c)
                element(x)
                if c: w('</%s>' % c)
        for at, st in enumerate(e['b']):
            put(at)
            noise()
            if st['k'] == 'bad': w(st['raw'](cp, rp, q)); continue
            n = '%s%s.%s' % (cp, st['decl'], st['f'] if st['k'] == 'attr' else st['name'])
            if st['k'] == 'attr' and st['res'] is None:
                lex = st['lex']
                if callable(lex): lex = lex(r)
                x = att(*extra([], 'string'))
                if lex == '': empty(n, x)
                else: w('<%s%s>%s</%s>' % (n, x, lex, n))
            elif st['k'] == 'ref' and sp.p(sp.noise / 4):      # a reference element may hold what carries no meaning
                res = st['res'] if st['res'] is not None else uriref(st['to'])
                w('<%s%s>%s</%s>' % (n, att(*extra([(rp + 'resource', res)])), r.choice([' ', '\n    ', '<!-- c -->', ' <!-- c -->\n', '<?p i?>']), n))
            else:
                res = ns + st['res'] if st['k'] == 'attr' else (st['res'] if st['res'] is not None else uriref(st['to']))
                empty(n, att(*extra([(rp + 'resource', res)])))
        put(len(e['b'])); noise(); w('</%s>' % name)
    for e in elems:
        if not e.get('silent') and id(e) not in inner: element(e)
    noise(); w('</%sRDF>' % rp)
    if sp.p(sp.noise): w('\n<!-- after -->\n')
    return ''.join(out)

def encode(text, sp):
    if sp.enc.lower() == 'utf-16': return text.encode('utf-16')
    if sp.enc == 'utf-16-be': return b'\xfe\xff' + text.encode('utf-16-be')
    if sp.enc.lower() != 'utf-8': return text.encode(sp.enc, 'xmlcharrefreplace')
    return (b'\xef\xbb\xbf' if sp.bom else b'') + text.encode('utf-8')

# --- sources ----------------------------------------------------------------
class Drip(io.RawIOBase):
    """A byte stream that hands out few bytes per read."""
    def __init__(self, data, r): self.b, self.r = io.BytesIO(data), r
    def readable(self): return True
    def seekable(self): return True
    def read(self, n=-1): return self.b.read(min(n, self.r.choice([1, 1, 2, 3, 7, 40])) if n and n > 0 else n)
    def seek(self, *a): return self.b.seek(*a)
    def tell(self): return self.b.tell()
class Plain:
    """A minimal file-like object."""
    def __init__(self, data): self.b = io.BytesIO(data)
    def read(self, n=-1): return self.b.read(n)
    def seek(self, n): return self.b.seek(n)
SOURCES = ['bytes', 'text', 'path', 'openb', 'opent', 'drip', 'plain', 'pathlike']
def reread(src, args):
    """the same stream once more"""
    from PyCIM import cimread
    try:
        src.seek(0)
        return cimread(src, args[0], args[1]), ''
    except Exception as e: return None, type(e).__name__ + ': ' + str(e)[:120]
def read(text, sp, kind, args=(None, None), start=None, r=None, scratch=None, fixed=None, again=None):
    """cimread of the document; returns (map or None, exception name)"""
    from PyCIM import cimread
    data = encode(text, sp)
    f = None; path = None
    try:
        if kind == 'text': src = io.StringIO(text)
        elif kind == 'bytes': src = io.BytesIO(data)
        elif kind == 'plain': src = Plain(data)
        elif kind == 'drip': src = Drip(data, r)
        else:
            fd, path = tempfile.mkstemp(dir=scratch, suffix='.xml') if not fixed else (os.open(fixed, os.O_RDWR | os.O_CREAT | os.O_TRUNC), fixed)
            if fixed and sp.enc.lower() in ('utf-8', 'us-ascii', 'iso-8859-1', 'windows-1252'): data += b'\n' * (-len(data) % 8192)     # sizes and times do not tell the files apart
            with os.fdopen(fd, 'wb') as g: g.write(data)
            if fixed: os.utime(fixed, (10 ** 9, 10 ** 9))
            if kind == 'path': src = path
            elif kind == 'pathlike': src = pathlib.Path(path)
            elif kind == 'openb': src = f = open(path, 'rb')
            else: src = f = open(path, encoding='utf-8-sig' if sp.enc.lower() == 'utf-8' else 'utf-16' if sp.enc == 'utf-16-be' else sp.enc, newline='')
        if kind in ('bytes', 'openb', 'text') and again is not None: again.append(src); f = path = None
        try: return cimread(src, args[0], args[1], start), ''
        except Exception as e: return None, type(e).__name__ + ': ' + str(e)[:120]
    finally:
        if f: f.close()
        if path: os.unlink(path)

# --- observation --------------------------------------------------------------
class Observer:
    def __init__(self, S):
        self.S = S; self.cid = {}; self.plan = {}
        for k in S.cls:
            try: self.cid[impl.get_class(k)] = k
            except impl.Missing: pass
        self.assoc = {}
        for a in S.associations():
            self.assoc[(a['lc'], a['lr'])] = (a, 'l')
            if a['rr']: self.assoc[(a['rc'], a['rr'])] = (a, 'r')
    def feats(self, k):
        if k not in self.plan:
            self.plan[k] = [(n, kd, (None if kd == 'ref' else (type(f['d']).__name__, repr(f['d']))), self.assoc.get((dc, n)))
                            for n, kd, f, dc in self.S.features(k) if n != 'UUID']
        return self.plan[k]
    def class_of(self, o): return self.cid.get(type(o), '!' + type(o).__module__ + '.' + type(o).__name__)
    def names(self, m): return {id(o): k for k, o in m.items()}
    def of(self, m, names, ids, stated):
        """what the map m says about the entries ids; stated: {(id, attribute)}"""
        objs, vals, l, r, other = [], [], [], [], []
        for i in ids:
            if i not in m: continue
            o = m[i]; c = self.class_of(o)
            if getattr(o, 'UUID', None) != i: c += '!UUID'
            objs.append((i, c))
            if type(o) not in self.cid: continue
            for n, kd, d, a in self.feats(self.cid[type(o)]):
                try: v = getattr(o, n)
                except Exception as e: other.append('%s.%s raises %s' % (i, n, type(e).__name__)); continue
                if kd == 'attr':
                    t = (type(v).__name__, repr(v))
                    if t != d or (i, n) in stated: vals.append((i, n, t))
                    continue
                if v is None or v == []: continue
                if a is None:   # the impedance views (C21)
                    continue
                a, side = a
                for y in (v if isinstance(v, list) else [v]):
                    y = names.get(id(y)) or '!' + (self.class_of(y) if hasattr(y, 'UUID') else repr(y)[:40])
                    (l if side == 'l' else r).append((a['id'], i, y) if side == 'l' else (a['id'], y, i))
        return dict(objs=objs, vals=vals, l=l, r=r, other=other)

# --- records for ReadStep.tla -------------------------------------------------
EMPTY = dict(objs=[], vals=[], links=[])
class Records:
    """Reads to be judged, brought to a canonical form so that each distinct one
    is judged once."""
    def __init__(self): self.d = {}; self.n = 0
    def add(self, elems, obs, exc, assocs, ctx, start=EMPTY, reject=False):
        self.n += 1
        ren = {}
        def nm(kind, x):
            t = ren.setdefault(kind, {})
            if x not in t: t[x] = '%s%d' % (kind, len(t) + 1)
            return t[x]
        def st(s):
            if s['k'] == 'attr': return dict(k='attr', f=nm('f', s['f']), v=nm('v', s['v']))
            if s['k'] == 'ref': return dict(k='ref', a=nm('A', s['a']), s=s['s'], to=nm('o', s['to']))
            return dict(k='bad')
        doc = [dict(t=e['t'], id=nm('o', e['id']), c=nm('c', e['c']), b=[st(s) for s in e['b']]) for e in elems if e['t'] != 'raw']
        def model(m, links): return dict(objs=[[nm('o', a), nm('c', b)] for a, b in m['objs']], vals=[[nm('o', a), nm('f', b), nm('v', c)] for a, b, c in m['vals']],
                                         **{k: sorted([nm('A', a), nm('o', b), nm('o', c)] for a, b, c in m[k]) for k in links})
        s0 = model(start, ['links'])
        o = model(obs, ['l', 'r']); o['other'] = obs['other']; o['exc'] = exc
        o['objs'].sort(); o['vals'].sort()
        A = {}
        for a, t in ren.get('A', {}).items():
            a = assocs.get(a); A[t] = [a['lm'], a['rm'], a['uni']] if a else [True, True, False]
        A['A0'] = [True, True, True]
        key = impl.json.dumps(dict(start=s0, doc=doc, obs=o, A=A, reject=reject), sort_keys=True)
        l = self.d.setdefault(key, [])
        if len(l) < 20: l.append(ctx)
    def merge(self, other):
        self.n += other.n
        for k, l in other.d.items():
            x = self.d.setdefault(k, [])
            x += l[:20 - len(x)]
