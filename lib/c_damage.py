"""C22: documents of any form, against DamagedOps.tla."""
import concurrent.futures as cf, io, json, os, shutil, tempfile
import common, impl, tlc, cimdoc
import c_read
from cimdoc import Spelling
from common import TIER, rng
THOROUGH = TIER == 'thorough'
_G = {}
RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'

# --- concrete damage ----------------------------------------------------------
# no XML wherever it stands in the content of an element
INSIDE = ['\x00', '\x01', '\x08', '\x0b', '\x1f', '\ufffe', '&nothing;', '&', '& amp;', '&#0;', '&#xD800;', '&#x110000;', '&#;', '&#x;', '<', '< x/>', '<1/>', ']]>',
          '<!-- a -- b -->', '<!-- a --->', '<![CDATA[', '<!--', '<?', '<?xml version="1.0"?>', '<x', '<x a=b/>', '<x a="1" a="2"/>', '<u:x/>', '<x a="<"/>', '<x/ >', '<x a/>', '<x a="1"b="2"/>',
          '<x a="&nothing;"/>', '<x a="\x02"/>', '<x u:a="1"/>', '<!x>', '<![INCLUDE[x]]>', '<!DOCTYPE x>', '<x></y>', '</x>', '<x>', '<x a="1', '&lt', '<a:b:c/>', '<x xmlns:p=""/>', '<?xml?>', '&#xFFFE;']
RAW = [b'\xff', b'\xc3(', b'\xed\xa0\x80', b'\xc0\x80', b'\xf8\x88\x80\x80\x80', b'\x80', b'\xe9']       # in UTF-8
AFTER = ['text', '<x/>', '</x>', '&amp;', '<!--', '\x00', '<?', '<x', '&#32;', '<![CDATA[]]>', '<!DOCTYPE x>', '<?xml version="1.0"?>', '<rdf:RDF/>']
BEFORE = ['text', '&amp;', '</x>', '<x/>', '<!--', '\x00', '<!DOCTYPE', '<?x', '-', '<', '<![CDATA[ ]]>']

# what XML allows nowhere, within other things
HIDDEN = [w[0] + p + w[1] for p in [b'\0', b'\x1b', b'\xff', b'\xe9', b'\xed\xa0\x80', b'\xef\xbf\xbe'] for w in [(b'<!--', b'-->'), (b'<cim:x a="', b'"/>'), (b'<![CDATA[', b']]>'), (b'<?x ', b'?>'), (b'<x', b'/>')]]

# in documents of tokens: nothing that what follows could complete, before the root nothing that may stand there
TOK = [{'<![CDATA[': '<![CDATA', '<?': '<?1', '<x>': '<zz>'}.get(p, p) for p in INSIDE]
TOK_BEFORE = [p for p in TOK if p not in ('<!DOCTYPE x>', '<?xml version="1.0"?>')] + ['text', '&amp;', '-', '<!DOCTYPE', '<![CDATA[ ]]>']

def concrete(toks, r, uri):
    """a document of Damaged.tla as text"""
    st, out, root = [], [], False
    ident = lambda: r.choice(['rdf:ID="s"', 'rdf:about="#s"', 'rdf:ID="n1"', 'rdf:ID="n2"'])
    def name(t):
        n = len(st)
        if n == 0: return 'rdf:RDF', ''
        if n == 1: return ('cim:Terminal', ' ' + ident()) if t == 'a' else ('cim:ConnectivityNode' if r.random() < .5 else 'cim:Thing', ' ' + ident())
        if n == 2: return ('cim:IdentifiedObject.name', '') if t == 'a' else r.choice([('cim:Terminal.ConnectivityNode', ' rdf:resource="#t"'), ('ext:x', '')])
        return 'ext:x', ''
    for x in toks:
        k, t = x[0], x[1:]
        if k in 'SX':
            nm, at = name(t)
            if not root: at += ' xmlns:rdf="%s" xmlns:cim="%s#" xmlns:ext="urn:ext"' % (RDF, uri)
            elif not st: at = ''; nm = 'x'
            root = True
            if k == 'X': out.append('<%s%s/>' % (nm, at))
            else: out.append('<%s%s>' % (nm, at)); st.append((t, nm))
        elif k == 'E':
            if st and st[-1][0] == t: out.append('</%s>' % st.pop()[1])
            else: out.append('</%s>' % r.choice(['cim:Other', 'rdf:RDF' if not st or st[-1][1] != 'rdf:RDF' else 'RDF', 'x' if not st or st[-1][1] != 'x' else 'y']))
        elif k == 'T': out.append(r.choice(['text', '&amp;', '0', ' t ', '\u00e9', '&#65;', '<![CDATA[t]]>']))
        elif k == 'W': out.append(r.choice([' ', '\n', '\t\n']))
        elif k == 'C': out.append(r.choice(['<!-- c -->', '<!-- <a> & -->', '<?p i?>', '<!---->']))
        else: out.append(r.choice(TOK if root else TOK_BEFORE))
    return ''.join(out)

# --- running ------------------------------------------------------------------
class Stopping:
    """a source that fails at a byte (or at the end), at once or when it is read again; step: most bytes per read"""
    def __init__(self, data, at, again, step): self.d, self.at, self.again, self.step, self.p, self.failed = data, at, again, step, 0, False
    def seek(self, n, *_): self.p = n; self.again -= 1
    def tell(self): return self.p
    def read(self, n=-1):
        end = len(self.d) if n is None or n < 0 else min(len(self.d), self.p + min(n, self.step))
        if self.again <= 0 and (end >= self.at or end == self.p): self.failed = True; raise IOError('the device is gone')
        b = self.d[self.p:end]; self.p = end; return b

def population():
    T, N = impl.get_class('CIM15.IEC61970.Core.Terminal'), impl.get_class('CIM15.IEC61970.Core.ConnectivityNode')
    s, t = T(UUID='s', name='old'), N(UUID='t', name='node')
    s.ConnectivityNode = t
    return s, t
def seen(s, t):
    try: return s.UUID, s.name, s.sequenceNumber, s.ConnectivityNode is t, t.UUID, t.name, len(t.Terminals), [x is s for x in t.Terminals]
    except Exception as e: return type(e).__name__

def source(data, kind, r, path):
    if kind == 'bytes': return io.BytesIO(data)
    if kind == 'text': return io.StringIO(data.decode('utf-8'))
    if kind == 'drip': return cimdoc.Drip(data, r)
    if kind == 'plain': return cimdoc.Plain(data)
    with open(path, 'wb') as f: f.write(data)
    return path

def observe(data, kind, r, args, also=True, src=None):
    """-> (cimread returned, xmlpp returned, start objects kept)"""
    from PyCIM import cimread
    from PyCIM.PrettyPrintXML import xmlpp
    path = os.path.join(_G['tmp'], 'd%d.xml' % os.getpid())
    s, t = population(); start = {'s': s, 't': t} if r.random() < .7 else None
    before = seen(s, t)
    try: cimread(src if src is not None else source(data, kind, r, path), args[0], args[1], start); read = True
    except Exception: read = False
    kept = seen(s, t) == before or start is None
    if not also: return read, read, kept
    try: xmlpp(source(data, kind, r, path)); prt = True
    except Exception: prt = False
    return read, prt, kept

ARGS = lambda r, E: r.choice([(None, None), (None, None), (E.maps['CIM15'], E.S.roots['CIM15']['nsURI'])])
def kinds(data, r):
    try: data.decode('utf-8'); return r.choice(['bytes', 'bytes', 'path', 'drip', 'plain', 'text'])
    except UnicodeDecodeError: return r.choice(['bytes', 'path', 'drip'])

def work(chunk):
    E = _G['E']; recs, n = {}, 0
    uri = E.S.roots['CIM15']['nsURI']
    def rec(read, prt, kept, ctx, **k):
        nonlocal n; n += 1
        recs.setdefault(json.dumps(dict(k, read=read, print=prt, kept=kept), sort_keys=True), ctx)
    for what, i, arg in chunk:
        r = rng('c22', what, i)
        if what == 'tok':
            for toks in arg:
                text = concrete(toks, r, uri)
                data = text.encode('utf-8', 'surrogatepass')
                if r.random() < .3: data = b'<?xml version="1.0" encoding="UTF-8"?>' + data
                rec(*observe(data, kinds(data, r), r, ARGS(r, E)), text[-300:], k='tok', d=[dict(k=x[0], t=x[1:]) for x in toks])
            continue
        sp = cimdoc.any_spelling(r) if what not in ('dmg', 'long') and r.random() < .6 else Spelling()
        el = c_read.random_model(E, 'CIM15', r, *((700, 700) if what == 'long' else (r.choice([2, 5, 12]), 8)))
        if what in ('dmg', 'long'): sp.decl = r.random() < .3
        text = cimdoc.render(el, uri + '#', sp, E.S)
        data = cimdoc.encode(text, sp)
        wide = sp.enc.lower().startswith('utf-16')
        gt = '>'.encode('utf-16-le' if sp.enc == 'utf-16' else sp.enc)[-2 if wide else -1:] if wide else b'>'
        if what == 'cut':
            # the root ends at the last '</...RDF>'; comments may follow
            at = text.rfind('RDF>') + 4 if text.rfind('RDF>') > 0 else None
            if at is None: continue
            end = len(cimdoc.encode(text[:at], sp))
            if cimdoc.encode(text[:at], sp) != data[:end]: continue
            tail = 0 if wide else len(data) - end
            for c in sorted({r.randrange(end) for _ in range(60 if not THOROUGH else 400)} | {0, 1, end - 1, end} | {end - k for k in range(2, 12)}):
                if wide and c == end: continue
                d = data[:c]
                rec(*observe(d, kinds(d, r), r, ARGS(r, E)), 'cut at %d of %d' % (c, end), k='cut', n=0 if c < end else 1, end=1)
        elif what in ('dmg', 'long'):
            decls, bare = ['', '', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n", '<?xml version="1.0" encoding="us-ascii"?>', '<!DOCTYPE rdf:RDF [<!ENTITY x "y">]>'], text
            # plain spelling: '<cim:' stands in no comment or CDATA section, where damage would be none
            lt = [j for j in range(len(text)) if text.startswith('<cim:', j) or text.startswith('</cim:', j)]
            ends = [j for j in lt if text.startswith('</', j)]
            for bad in (INSIDE + RAW + HIDDEN + ['end', 'swap', 'AFTER', 'BEFORE'] * 4 if what == 'dmg' else r.sample(INSIDE, 4) + ['end', 'AFTER']):
                pre = '' if bare.startswith('<?xml') else r.choice(decls if bare.isascii() else decls[:5])
                text = pre + bare
                j = len(pre) + r.choice(lt if what == 'dmg' else lt[-20:])
                enc = lambda s: s.encode('utf-8', 'surrogatepass')
                if isinstance(bad, bytes): d = enc(text[:j]) + bad + enc(text[j:])
                elif bad == 'end' and ends:
                    j = len(pre) + r.choice(ends[-20:]); d = enc(text[:j] + text[text.index('>', j) + 1:])
                elif bad == 'swap' and ends: j = len(pre) + r.choice(ends); k = text.index('>', j); d = enc(text[:k] + 'x' + text[k:])
                elif bad == 'AFTER': d = enc(text.rstrip() + r.choice(['', '\n']) + r.choice(AFTER))
                elif bad == 'BEFORE': d = enc(r.choice(BEFORE) + text)
                elif bad in ('end', 'swap'): continue
                else: d = enc(text[:j] + bad + text[j:])
                rec(*observe(d, kinds(d, r), r, ARGS(r, E)), 'damage %r at %d' % (bad, j), k='dmg')
        else:
            for _ in range(12):
                again = r.choice([0, 0, 1, 2, 2])
                at = r.choice([0, 1, len(data) // 2, r.randrange(len(data)), len(data), len(data) + 1])
                src = Stopping(data, at, again, r.choice([7, 64, 500, 10 ** 6]))
                read, prt, kept = observe(data, '', r, ARGS(r, E), False, src)
                # what was never asked in vain did not fail
                rec(read and src.failed, False, kept, 'fails at %d, after %d' % (at, again), k='io')
            for p in (os.path.join(_G['tmp'], 'no such file'), _G['tmp']):
                read, prt, kept = observe(b'', '', r, ARGS(r, E), False, p); rec(read, False, kept, 'unreadable path', k='io')
    return recs, n

def run(pid):
    check = common.Check(pid)
    E = c_read.Env(); c_read._G['E'] = E; c_read._G['allcls'] = sorted(E.S.cls)
    c_read.random_model(E, 'CIM15', rng('warm'))
    t = tlc.run('Damaged', dict(MaxLen=5 if THOROUGH else 4, MaxDamage=1), invariants=['Refuses', 'NoEffect', 'Cut', 'Emit'], workers=8, timeout=800)
    if not t['ok']: raise tlc.TLCError('Damaged violated:\n' + t['out'][-1500:])
    check.tlc(t)
    docs = sorted({tuple(d['d']) for d in tlc.printed(t['out'], 'DOC')})
    q = rng('c22')
    # longer ones: right documents with one token put in, taken out or changed
    for _ in range(20000 if THOROUGH else 3000):
        st, d = [], []
        for _ in range(q.randrange(2, 14)):
            k = q.random()
            if not st: d.append('Sa'); st.append('a')
            elif k < .35: t = q.choice('ab'); d.append('S' + t); st.append(t)
            elif k < .6 and len(st) > 1: d.append('E' + st.pop())
            else: d.append(q.choice(['Xa', 'T', 'W', 'C']))
        while st: d.append('E' + st.pop())
        k = q.randrange(5); j = q.randrange(len(d))
        if k == 0: d.insert(q.randrange(len(d) + 1), q.choice(['D', 'D', 'Ea', 'Eb', 'Sb', 'T']))
        elif k == 1: del d[j]
        elif k == 2: d[j] = q.choice(['D', 'Ea', 'Eb', 'Sa'])
        elif k == 3: d = d[:j]
        docs.append(tuple(d))
    _G.update(E=E, tmp=tempfile.mkdtemp(prefix='c22-'))
    try:
        items = [('tok', i, docs[i:i + 100]) for i in range(0, len(docs), 100)]
        m = 300 if THOROUGH else 40
        items += [('cut', i, 0) for i in range(m)] + [('dmg', i, 0) for i in range(m)] + [('long', i, 0) for i in range(m // 5)] + [('io', i, 0) for i in range(m)]
        q.shuffle(items)
        recs, n = {}, 0
        for o, k in common.parallel(work, items):
            n += k
            for a, b in o.items(): recs.setdefault(a, b)
    finally: shutil.rmtree(_G['tmp'], True)
    keys = sorted(recs)
    parts = [p for p in (keys[i::4] for i in range(4)) if p]
    def one(p):
        res = tlc.run('DamagedStep', files={'steps.json': [json.loads(k) for k in p]}, invariants=['Report'])
        if res['distinct'] != len(p): raise tlc.TLCError('not all records were judged')
        return [p[f['i'] - 1] for f in tlc.printed(res['out'], 'FAIL')]
    with cf.ThreadPoolExecutor(4) as ex: fails = [f for l in ex.map(one, parts) for f in l]
    for k in fails:
        v = json.loads(k)
        check.violation(str(recs[k])[:80], '%s: cimread %s, xmlpp %s, start objects %s: %s' % (v['k'], 'returns' if v['read'] else 'raises', 'returns' if v['print'] else 'raises', 'kept' if v['kept'] else 'changed', recs[k][-200:]), dict(record=v, context=recs[k]))
    check.add(traces_validated_against_impl=n, distinct_records_judged=len(keys), token_documents=len(docs))
    check.cov['samples'] = [json.loads(k) for k in keys[:3]]
    check.assumptions = ['the pieces of damage (lists at the top of lib/c_damage.py) are no XML 1.0 with namespaces where they are put', 'documents up to some tens of kilobytes; a source fails with IOError']
    return check.finish()
