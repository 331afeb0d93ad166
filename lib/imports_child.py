"""Runs import orders, each in a fresh forked interpreter.  stdin: JSON lines
{"order": [modules], "docs": [[names], root] or null, "all": bool}; stdout: JSON lines."""
import hashlib, io, json, os, sys
REF = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}

def shape(c):
    d = c.__dict__
    t = {n: repr(sorted(map(str, d[n].items()) if isinstance(d[n], dict) else d[n])) for n in ('_attrs', '_attr_types', '_defaults', '_enums', '_refs', '_many_refs') if n in d}
    keys = sorted(k for k in d if not k.startswith('_') or k == '__init__')
    return hashlib.md5(repr((c.__module__, c.__name__, [b.__module__ + '.' + b.__name__ for b in c.__mro__], keys, sorted(t.items()))).encode()).hexdigest()[:12]

def classes():
    out, stray = {}, []
    for n, m in sorted(sys.modules.items()):
        if m is None or not n.split('.')[0] in ('CIM14', 'CIM15'): continue
        for a, v in sorted(vars(m).items()):
            if not isinstance(v, type) or v.__module__.split('.')[0] not in ('CIM14', 'CIM15'): continue
            home = sys.modules.get(v.__module__)
            if home is not None and getattr(home, v.__name__, None) is not v: stray.append('%s.%s' % (n, a))
            if v.__module__ == n: out['%s.%s' % (n, a)] = shape(v)
    # a package shows the class, not the module, once both are loaded
    return out, stray

def run(job):
    r = dict(exc='', failed='', differ=[], strays=[], unread=[], classes='', all=bool(job.get('all')))
    try:
        for m in job['order']:
            try: __import__(m)
            except BaseException as e:
                r['exc'] = type(e).__name__ + ': ' + str(e)[:200]; r['failed'] = m; break
        if job.get('docs') and not r['exc']:
            import importlib, xml.etree.ElementTree, PyCIM
            names, root, uri = job['docs']
            import logging; logging.disable(50)
            pm = None
            body = ''.join('<cim:%s rdf:ID="_%d"></cim:%s>' % (c, i, c) for i, c in enumerate(names))
            doc = '<?xml version="1.0"?><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cim="%s#">%s</rdf:RDF>' % (uri, body)
            try:
                if root in ('CIM14', 'CIM15'): d = PyCIM.cimread(io.StringIO(doc))
                else:
                    m = importlib.import_module(root); d = PyCIM.cimread(io.StringIO(doc), m.packageMap, m.nsURI)
                for i, c in enumerate(names):
                    o = d.get('_%d' % i)
                    if type(o).__name__ != c or not type(o).__module__.startswith(root): r['unread'].append(c)
            except BaseException as e: r['exc'] = type(e).__name__ + ': ' + str(e)[:200]; r['failed'] = 'document'
        if not r['exc']:
            cl, r['strays'] = classes()
            r['n'] = len(cl)
            r['strays'] = r['strays'][:5]
            if REF: r['differ'] = [k for k in cl if REF.get(k) != cl[k]][:5]
            if r['all']: r['classes'] = hashlib.md5(repr(sorted(cl.items())).encode()).hexdigest()
            if job.get('ref'): r['ref'] = cl
    except BaseException as e: r['exc'] = r['exc'] or type(e).__name__ + ': ' + str(e)[:200]
    return r

for line in sys.stdin:
    job = json.loads(line)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            import signal; signal.alarm(60)
            with os.fdopen(wr, 'w') as f: json.dump(run(job), f)
        finally: os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f: t = f.read()
    os.waitpid(pid, 0)
    print(t or json.dumps(dict(exc='killed', failed='', differ=[], strays=[], unread=[], classes='', all=bool(job.get('all')))), flush=True)
