"""C18-C20: the XML writer and the pretty printer."""
import concurrent.futures as cf, glob, io, os, shutil, tempfile
from xml.parsers import expat
import common, impl, tlc, cimdoc, c_read, big
from common import TIER, rng
from c_read import FRAG, xml_char
THOROUGH = TIER == 'thorough'
ENC = ['utf-8', 'us-ascii', 'iso-8859-1', 'utf-16']
CHAR = dict(c_read.CHAR, RB=']', LSEP='\u2028')
_G = c_read._G

def events(data, ns=False):
    """what a conforming parser reports: S/E/C events"""
    p = expat.ParserCreate(namespace_separator='}') if ns else expat.ParserCreate()
    p.ordered_attributes = False; p.buffer_text = True
    out = []
    p.StartElementHandler = lambda t, a: out.append(('S', t, tuple(sorted(a.items()))))
    p.EndElementHandler = lambda t: out.append(('E', t))
    p.CharacterDataHandler = lambda s: out.append(('C', s))
    p.Parse(data, True)
    return out

class Plain:
    """a target that can only be written to"""
    __slots__ = ('all',)
    def __init__(self): self.all = []
    def write(self, s): self.all.append(s)

def sink(kind, enc):
    if kind == 'string': return io.StringIO(), None
    if kind == 'plain': return Plain(), None
    fd, path = tempfile.mkstemp(dir=_G['tmp']); os.close(fd)
    if kind == 'path': return path, path
    return open(path, 'w', encoding=enc, newline=''), path

def written(f, path, enc):
    if path is None: return (''.join(f.all) if isinstance(f, Plain) else f.getvalue()).encode(enc)
    if not isinstance(f, str): f.close()
    with open(path, 'rb') as g: data = g.read()
    os.unlink(path); return data

def produce(kind, enc, fn, declare=True):
    """fn(writer) on a fresh writer; the bytes written"""
    from PyCIM.SimpleXMLWriter import XMLWriter
    f, path = sink(kind, enc)
    try:
        w = XMLWriter(f, enc)
        if declare: w.declaration()
        fn(w); w.flush()
        del w
    except BaseException:
        if path is not None:
            if not isinstance(f, str): f.close()
            os.unlink(path)
        raise
    return written(f, path, enc)

def cps(s): return [ord(c) for c in s]

# --- C18 ------------------------------------------------------------------------
def text_once(pos, s, enc, kind, r):
    """returns (obs, around, exc)"""
    around = ['x', 'y'] if r.random() < .7 else ['', '']
    if pos == 'data':
        how = r.randrange(3)
        def fn(w):
            if how == 0: w.element('r', s); return
            w.start('r')
            if how == 1: w.data(s)
            else:
                k = r.randrange(len(s) + 1); w.data(s[:k]); w.data(s[k:])
            w.end()
    elif pos == 'attr':
        how = r.randrange(3)
        def fn(w):
            if how == 0: w.start('r', {'k': s}); w.end()
            elif how == 1: w.element('r', None, {'k': s})
            else: w.start('r', k=s); w.end()
    else:
        def fn(w):
            w.start('r')
            if around[0]: w.data(around[0])
            w.comment(s)
            if around[1]: w.data(around[1])
            w.end()
    try:
        data = produce(kind, enc, fn)
        ev = events(data)
    except expat.ExpatError as e: return [], around, 'not well formed: %s' % e
    except Exception as e: return [], around, type(e).__name__ + ': ' + str(e)[:80]
    if [e[:2] for e in ev if e[0] != 'C'] != [('S', 'r'), ('E', 'r')]: return [], around, 'other elements'
    at = dict(ev[0][2])
    if pos == 'attr':
        if list(at) != ['k'] or len(ev) > 2: return [], around, 'other content'
        return cps(at['k']), around, ''
    if at: return [], around, 'attributes'
    return cps(''.join(e[1] for e in ev if e[0] == 'C')), around, ''

# further encodings, which have no say in whether the text survives
MORE = ['UTF-8', 'US-ASCII', 'ISO-8859-1', 'UTF-16', 'windows-1252', 'iso-8859-15', 'koi8-r', 'iso-8859-2']
def blocks(x, table):
    """a long text as a sequence of names of its blocks: equal iff the texts are"""
    return [table.setdefault(tuple(x[i:i + 64]), 0x200000 + len(table)) for i in range(0, len(x), 64)]

def _c18(chunk):
    out, n = {}, 0
    for what, part, l in chunk:
        r = rng('c18', what, part)
        for s in l:
            for pos in ('data', 'attr', 'comment'):
                for enc in ENC if what == 'model' else ENC + [r.choice(MORE)]:
                    kinds = ['string'] if what == 'model' and r.random() < .9 else [r.choice(['string', 'path', 'file', 'plain'])]
                    for kind in kinds:
                        n += 1
                        obs, around, exc = text_once(pos, s, enc, kind, r)
                        cs = cps(s)
                        if what == 'long' and pos != 'comment': t = {}; cs, obs = blocks(cs, t), blocks(obs, t)
                        elif what == 'long': cs = []
                        key = impl.json.dumps(dict(pos=pos, s=cs, obs=obs, around=[cps(a) for a in around], exc=exc), sort_keys=True)
                        out.setdefault(key, (s, pos, enc, kind))
    return out, n

def judge(check, module, recs, label):
    keys = sorted(recs); n = common.NPROC
    parts = [p for p in (keys[i::n] for i in range(n)) if p]
    def one(p):
        res = tlc.run(module, files={'steps.json': '[%s]' % ','.join(p)}, invariants=['Report'], timeout=800)
        if res['distinct'] != len(p): raise tlc.TLCError('not all records were judged:\n' + res['out'][-2000:])
        return [(p[f['i'] - 1], f.get('bad')) for f in tlc.printed(res['out'], 'FAIL')]
    with cf.ThreadPoolExecutor(n) as ex: fails = [f for l in ex.map(one, parts) for f in l]
    for k, b in fails:
        rec = impl.json.loads(k)
        check.violation(label(recs[k]), 'differs in %s: %s %s' % (b, rec.get('exc', ''), str(recs[k])[:200]), dict(record=rec, context=recs[k], bad=b))
    check.add(distinct_records_judged=len(keys))
    check.cov['samples'] = [impl.json.loads(k) for k in keys[:3]]

def run_c18(check):
    letters = set(CHAR) - {'SP'} | {'a', '-', 'SP'}
    r = tlc.run('XmlText', dict(MaxLen=4 if THOROUGH else 3, Letters=letters if not THOROUGH else letters - {'NBSP', 'LSEP', 'TAB'}), invariants=['Survives', 'Harmless', 'Emit'], workers=8, timeout=800)
    if not r['ok']: raise tlc.TLCError('XmlText violated:\n' + r['out'][-2000:])
    check.tlc(r)
    texts = [''.join(CHAR.get(c, c) for c in t['s']) for t in tlc.printed(r['out'], 'TXT')]
    texts.sort()
    items = [('model', i, texts[i:i + 100]) for i in range(0, len(texts), 100)]
    q = rng('c18')
    rnd = [''.join(xml_char(q) for _ in range(q.choice([1, 5, 30, 200]))) for _ in range(4000 if THOROUGH else 400)]
    rnd += [a * k + b for a in ('-', ']', '&', '\r', '\n', '--', '>', '\u00e9') for k in (1, 2, 3, 17, 5000) for b in ('', '>', '-', '\n')]
    rnd += FRAG + ['x%s y' % f for f in FRAG]
    rnd += [''.join(q.choice(FRAG) for _ in range(q.choice([2, 2, 4, 12]))) for _ in range(4000 if THOROUGH else 600)]
    items += [('random', i, rnd[i:i + 20]) for i in range(0, len(rnd), 20)]
    long = [''.join(q.choice(FRAG) if q.random() < .6 else xml_char(q) for _ in range(k)) for k in (9000, 16384, 30000, 70000)] + ['x' * k + '&' for k in (8190, 65535, 65536, 200000)] + ['\u4e2d' * 70001] + ['x' * (2 ** k + d) for k in range(9, 18) for d in (-1, 0, 1, 2)]
    items += [('long', i, [t]) for i, t in enumerate(long)]
    allc = [chr(c) for c in range(0x20, 0x110000 if THOROUGH else 0x3100) if not 0xd800 <= c < 0xe000 and c not in (0xfffe, 0xffff)] + ['\t', '\n', '\r']
    step = 1500
    items += [('sweep', i, [''.join(allc[i:i + step])]) for i in range(0, len(allc), step)]
    recs, n = {}, 0
    for o, k in common.parallel(_c18, items): recs.update(o); n += k
    judge(check, 'TextStep', recs, lambda c: '%s in %s (%s)' % (ascii(c[0])[:40], c[1], c[2]))
    check.add(traces_validated_against_impl=n, texts=len(texts) + len(rnd), characters=len(allc))
    for s in check.cov['samples']:
        s['s'], s['obs'] = s['s'][:50], s['obs'][:50]

# --- C19 ------------------------------------------------------------------------
NAME = {'a': 'cim:A', 'b': 'b'}
DATA = ['t', '', ' \n', '<&>"', '\u00e9\u4e2d', 'a]]>b', '-->', '\n', 'line\r\nend']
def history(calls, enc, kind, r):
    """makes the calls; returns the record"""
    rec = []; given = []; refused = []
    def fn(w):
        ids = []; decoy = None
        for j, c in enumerate(calls, 1):
            if r.random() < .02:      # another writer at work at the same time
                from PyCIM.SimpleXMLWriter import XMLWriter
                if decoy is None: decoy = XMLWriter(io.StringIO(), r.choice(ENC)); decoy.start('decoy', {'decoy': 'x'}, other='y')
                r.choice([lambda: decoy.start('decoy'), lambda: decoy.data('decoy'), lambda: decoy.element('decoy', 'x', k='decoy'), lambda: decoy.comment('decoy')])()
            q = dict(op=c['op'], t=c.get('t', ''), a=c.get('a', ''), n=c.get('n', 0), d=[])
            rec.append(q)
            if c['op'] in ('start', 'element'):
                at = {'m': r.choice(DATA), r.choice(['x:y', 'x:y', 'xml:lang', 'xmlns:q', '_', 'a.b-c']): r.choice(DATA)} if c['a'] else {}
                kw = {r.choice(['k', 'k', 'k', 'x:k', 'text_', 'class']): r.choice(DATA)} if c['a'] and r.random() < .7 else {}
                if c['a'] and kw and r.random() < .3: at = {}
                if c['a'] and r.random() < .1: at.update({'a%d' % n: r.choice(DATA) for n in range(r.choice([2, 5, 9, 40]))}); kw.update({'z%d' % n: r.choice(DATA) for n in range(r.randrange(9))})
                if at and kw and r.random() < .15: at[list(kw)[0]] = r.choice(DATA)       # given both ways: the keyword counts
                given.append(tuple(sorted({**at, **kw}.items())))
                keep = dict(at)
                if c['op'] == 'start':
                    ids.append(w.start(NAME[c['t']], at, **kw) if at or r.random() < .5 else w.start(NAME[c['t']], **kw))
                else:
                    tx = ''
                    if c['n']: tx = r.choice(DATA); q['d'] = cps(tx)
                    how = r.randrange(2)
                    if c['n']: w.element(NAME[c['t']], tx, at, **kw)
                    else: w.element(NAME[c['t']], attrib=at, **kw)
                if at != keep: raise ValueError('the attribute mapping was changed')
            elif c['op'] == 'data': tx = r.choice(DATA); q['d'] = cps(tx); w.data(tx)
            elif c['op'] == 'comment': w.comment(r.choice(['note', '', 'a -- b', '<a>&', '\u4e2d', '-']))
            elif c['op'] == 'close': w.close(ids[c['n']]); del ids[c['n']:]
            else:
                t = c['t']; bad = not ids
                try: w.end(NAME[t]) if t else w.end()
                except Exception: refused.append(j); continue
                if ids: ids.pop()
    exc, obs = '', []
    try:
        data = produce(kind, enc, fn, r.random() < .9 or enc in ('iso-8859-1',))
        n = 0
        for e in events(data):
            if e[0] == 'S':
                back = {v: k for k, v in NAME.items()}
                # the attributes are those given: present and equal, or none
                w = given[n] if n < len(given) else None; n += 1
                a = ('a' if w else '') if e[2] == w else '!'
                obs.append(dict(k='S', t=back.get(e[1], '!' + e[1]), a=a, c=0))
            elif e[0] == 'E': obs.append(dict(k='E', t={v: k for k, v in NAME.items()}.get(e[1], '!'), a='', c=0))
            else: obs += [dict(k='C', t='', a='', c=ord(x)) for x in e[1]]
    except expat.ExpatError as e: exc = 'not well formed: %s' % e
    except Exception as e: exc = type(e).__name__ + ': ' + str(e)[:100]
    # calls with an attribute list that turned out empty are calls without one
    k = 0
    for q in rec:
        if q['op'] in ('start', 'element'):
            if k < len(given): q['a'] = 'a' if given[k] else ''
            k += 1
    return dict(calls=rec, obs=obs, ref=refused, exc=exc)

def _c19(chunk):
    out, n = {}, 0
    for part, l in chunk:
        r = rng('c19', part)
        for h in l:
            for _ in range(2 if THOROUGH else 1):
                enc = r.choice(ENC); kind = r.choice(['string'] * 7 + ['path', 'file', 'plain'])
                n += 1
                out.setdefault(impl.json.dumps(history(h, enc, kind, r), sort_keys=True), (str(h)[:200], enc, kind))
    return out, n

def deep_history(r, n, rate=.03):
    """n elements inside each other, closed one by one or from somewhere in between"""
    calls, st = [], []
    for _ in range(n):
        t = r.choice('ab'); calls.append(dict(op='start', t=t, a=r.choice(['', '', 'a']))); st.append(t)
        if r.random() < .2: calls.append(dict(op='data'))
    while st:
        k = r.random()
        if k < rate: d = r.randrange(len(st)) if rate < .1 or len(st) < 9 else r.randrange(len(st) - 8, len(st)); calls.append(dict(op='close', n=d)); del st[d:]
        else: calls.append(dict(op='end', t=r.choice(['', st[-1]]))); st.pop()
        if st and r.random() < .2: calls.append(dict(op='data'))
    return calls

def random_history(r, n):
    """a long history that ends with everything closed"""
    calls, st = [dict(op='start', t=r.choice('ab'), a=r.choice(['', 'a']))], []
    st.append(calls[0]['t'])
    for _ in range(n):
        k = r.random()
        if not st: break
        if k < .3: t = r.choice('ab'); calls.append(dict(op='start', t=t, a=r.choice(['', 'a']))); st.append(t)
        elif k < .5: calls.append(dict(op='data'))
        elif k < .6: calls.append(dict(op='comment'))
        elif k < .72: calls.append(dict(op='element', t=r.choice('ab'), a='a', n=r.randrange(2)))
        elif k < .8:
            t = r.choice('ab')
            if t != st[-1]: calls.append(dict(op='end', t=t))
        elif k < .95:
            if len(st) > 1: calls.append(dict(op='end', t=r.choice(['', st[-1]]))); st.pop()
        elif len(st) > 1: d = r.randrange(1, len(st)); calls.append(dict(op='close', n=d)); del st[d:]
    if st: calls.append(dict(op='close', n=0))
    return calls

def run_c19(check):
    r = tlc.run('XmlWriter', dict(MaxCalls=6 if THOROUGH else 5, Tags={'a', 'b'}), invariants=['Faithful', 'Prefix', 'Refusals', 'Emit'], workers=8, timeout=1500, heap='12g')
    if not r['ok']: raise tlc.TLCError('XmlWriter violated:\n' + r['out'][-2000:])
    check.tlc(r)
    hs = [h['c'] for h in tlc.printed(r['out'], 'HIST')]
    hs.sort(key=str)
    # a refused call after the end of the document
    q = rng('c19')
    hs += [h + [dict(op='end', t=q.choice(['', 'a']))] for h in q.sample(hs, min(len(hs), 500))]
    hs += [random_history(q, q.choice([8, 20, 60])) for _ in range(20000 if THOROUGH else 1500)]
    hs += [deep_history(q, d) for d in (30, 60, 100, 101, 130, 200, 300) for _ in range(10 if THOROUGH else 3)]
    hs += [deep_history(q, d, .3) for d in (150, 300, 300, 520)]
    hs += [random_history(q, 400) for _ in range(200 if THOROUGH else 20)]
    q.shuffle(hs)
    recs, n = {}, 0
    for o, k in common.parallel(_c19, [(i, hs[i:i + 200]) for i in range(0, len(hs), 200)]): recs.update(o); n += k
    judge(check, 'XmlStep', recs, lambda c: c[0])
    check.add(traces_validated_against_impl=n, histories=len(hs))

# --- C20 ------------------------------------------------------------------------
SLOT = {'': [''], 'w': [' ', '\n  ', '\t\n', '\r\n ', '&#13;', '<!-- c -->', ' <!-- c --> ', '<?p i?>'],
        'long': ['&amp;\u00e9 text ' * 3000, 'x' * 9000 + '\n', ' ' * 5000 + 'y'],
        'x': ['x', '&amp;&lt;', '\u00e9', 'a&#13;b', '\u00a0', '\u2003', '&#133;', '<![CDATA[<>]]>', '0'], 'wx': [' x ', '\nx', '\u00a0\n', 'x \n', ' x<!-- c --> y', '\t&#160;\t']}
def concrete_tree(d, r):
    names = []; out = []; n = 0
    for k, t in enumerate(d['t']):
        if t == 'S':
            nm = r.choice(['a', 'b', 'p:c', 'q:d']) if k else r.choice(['a', 'p:c'])
            at = r.choice(['', '', ' x="1"', " x='a &#10; &quot;&lt;' y='\u00e9'", ' p:z="&#13;"', ' xml:lang="en"', ' xml:space="preserve"', ' x="" y=" " z="&#9;&#10; t"', ' xmlns:n="urn:n" n:k="v"', ''.join(' %s%s%d="%s"' % (r.choice(['', '', 'p:', 'q:']), r.choice('kK'), i, r.choice(['', '1', ' v ', '&lt;&#10;'])) for i in range(r.choice([3, 9, 20]))) if r.random() < .3 else ' p:x="1" x="2" q:x="3"'] + ([' xmlns="urn:d"'] if k else [])) + (' xmlns:p="http://example.org/p#" xmlns:q="urn:q"' if not k else '')
            out.append('<%s%s>' % (nm, at)); names.append(nm)
        else: out.append('</%s>' % names.pop())
        if k < len(d['s']): out.append(r.choice(SLOT[d['s'][k]]))
    return ''.join(out)

def shape(data):
    tags, slots = [], []
    cur = ''
    for e in events(data, True):
        if e[0] == 'C': cur += e[1]; continue
        if tags: slots.append(cps(cur))
        cur = ''
        tags.append([e[0], e[1], [list(a) for a in e[2]]] if e[0] == 'S' else [e[0], e[1]])
    return dict(tags=tags, slots=slots)

def pretty(data, how, r):
    from PyCIM.PrettyPrintXML import xmlpp
    if how == 'bytes': return xmlpp(io.BytesIO(data))
    if how == 'same':      # the path of earlier documents, and nothing but the content to tell them apart
        path = os.path.join(_G['tmp'], 'same%d.xml' % os.getpid()); fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    else: fd, path = tempfile.mkstemp(dir=_G['tmp'])
    with os.fdopen(fd, 'wb') as f: f.write(data)
    if how == 'same': os.utime(path, (10 ** 9, 10 ** 9)); return xmlpp(path)
    try:
        if how == 'path': return xmlpp(path)
        with open(path, 'rb') as f: return xmlpp(f)
    finally: os.unlink(path)

def _c20(chunk):
    out, n = {}, 0
    for part, l in chunk:
        r = rng('c20', part)
        for d in l:
            text = concrete_tree(d, r)
            enc = r.choice(ENC + ['windows-1252'])
            if r.random() < .1: text = '<!DOCTYPE a [<!ENTITY who "me &#38;amp; you"><!ATTLIST b z CDATA "given">]>' + text.replace('>x<', '>&who;<')
            data = ('<?xml version="1.0" encoding="%s"?>' % enc + ('<!-- c -->\n' if r.random() < .2 else '') + text).encode(enc, 'xmlcharrefreplace')
            rec = dict(a=shape(data), b=dict(tags=[], slots=[]), exc='', again=True); n += 1
            try:
                o = pretty(data + b'\n' * (-len(data) % 1024 if enc.lower() in ('utf-8', 'us-ascii', 'iso-8859-1', 'windows-1252') else 0), r.choice(['bytes', 'bytes', 'path', 'file', 'same']), r)
                o = o if isinstance(o, bytes) else o.encode('utf-8')
                rec['b'] = shape(o)
                rec['again'] = pretty(o, 'bytes', r) == o
            except expat.ExpatError as e: rec['exc'] = 'not well formed: %s' % e
            except Exception as e: rec['exc'] = type(e).__name__ + ': ' + str(e)[:100]
            out.setdefault(impl.json.dumps(rec, sort_keys=True), (text,))
    return out, n

def _c20cim(chunk):
    E = _G['E']; R = cimdoc.Records(); reads = 0
    for root, i, _ in chunk:
        r = rng('c20cim', root, i)
        if root.startswith('/'): root, u0, el = big.sample(E, root)
        elif _: el = c_read.random_model(E, root, r, 2500, 4000, 3, hubs=8)
        else: el = c_read.random_model(E, root, r, r.choice([2, 8, 25]), r.choice([2, 8, 30]), 3)
        for e in el if not _ else ():
            for s in e['b']:
                if s['k'] == 'attr' and s['lex'] is not None and s['v'][0] == 'str' and r.random() < .7:
                    lex, v = c_read.realise(c_read.pick(_G['forms'], 'str', r), r); s['lex'], s['v'] = lex, c_read.tok(v)
        sp = cimdoc.any_spelling(r); uri = E.uri(root, r)
        if _: sp.noise = min(sp.noise, .05)
        data = cimdoc.encode(cimdoc.render(el, uri + '#', sp, E.S), sp)
        ids = [e['id'] for e in el]; reads += 1
        from PyCIM import cimread
        try:
            for again in range(r.choice([1, 1, 2])): data = pretty(data, r.choice(['bytes', 'path']), r)
            m = cimread(io.BytesIO(data), *E.args(root, uri, r))
            if _: big.judge_whole(E, R, el, m, '', 'pretty printed %s %s' % (root, i)); continue
            obs, exc = E.O.of(m, E.O.names(m), ids, cimdoc.__dict__.get('stated', c_read.stated)(el)), ''
            if len(m) != len(ids): obs['other'] = obs['other'] + ['number of entries']
        except Exception as e: obs, exc = dict(objs=[], vals=[], l=[], r=[], other=[]), type(e).__name__ + ': ' + str(e)[:100]
        R.add(el, obs, exc, E.assocs, ('pretty printed model %s %d' % (root, i), data[:2000]))
    return R.d, R.n, reads

def run_c20(check):
    r = tlc.run('PrettyPrint', dict(MaxTags=8 if THOROUGH else 6), invariants=['Same', 'Idempotent', 'Emit'], workers=8, timeout=1500)
    if not r['ok']: raise tlc.TLCError('PrettyPrint violated:\n' + r['out'][-2000:])
    check.tlc(r)
    ts = sorted(tlc.printed(r['out'], 'TREE'), key=str)
    q = rng('c20'); extra = []
    if not THOROUGH: ts = ts * 2
    for _ in range(4000 if THOROUGH else 400):      # larger trees
        t, s, d = ['S'], [], 1
        while d and len(t) < 60:
            x = 'S' if q.random() < .5 and d < 12 else 'E'
            t.append(x); s.append(q.choice(['', 'w', 'x', 'wx'])); d += 1 if x == 'S' else -1
        while d: t.append('E'); s.append(''); d -= 1
        extra.append(dict(t=t, s=s))
    S = lambda: q.choice(['', '', 'w', 'x', 'wx'])
    for _ in range(10 if THOROUGH else 2):
        for d in (30, 100, 150, 200):        # deep
            extra.append(dict(t=['S'] * d + ['E'] * d, s=[S() for _ in range(2 * d - 1)]))
        for w in (50, 300, 1000):            # wide
            extra.append(dict(t=['S'] + ['S', 'E'] * w + ['E'], s=[S() for _ in range(2 * w + 1)]))
        for k in range(6): extra.append(dict(t=['S', 'S', 'E', 'S', 'E', 'E'], s=['long' if j == k else S() for j in range(5)]))
    q.shuffle(extra)
    ts += extra
    recs, n = {}, 0
    for o, k in common.parallel(_c20, [(i, ts[i:i + 200]) for i in range(0, len(ts), 200)]): recs.update(o); n += k
    judge(check, 'PrettyStep', recs, lambda c: c[0][:60])
    E = c_read.Env(); _G['E'] = E
    _G['forms'] = c_read.model_values(check, 2)
    c_read.random_model(E, 'CIM15', rng('warm'))
    m = 15 if THOROUGH else 1
    R = cimdoc.Records(); tmp = _G['tmp']
    for d, k, _ in common.parallel(_c20cim, [(root, i, 0) for root in E.S.roots for i in range(m * (30 if root in ('CIM14', 'CIM15') else 4))]
                                         + [(x, i, 1) for x in sorted(glob.glob(big.SAMPLES)) + ['CIM14', 'CIM15'] for i in range(6 if THOROUGH else 1)]):
        o = cimdoc.Records(); o.d, o.n = d, k; R.merge(o)
    c_read.judge(check, R)
    check.add(traces_validated_against_impl=n, documents_printed=n + R.n)

def run(pid):
    check = common.Check(pid)
    tmp = tempfile.mkdtemp(prefix='xml-'); _G['tmp'] = tmp
    try: globals()['run_' + pid.lower()](check)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    check.assumptions.append('expat is a conforming XML parser')
    return check.finish()
