"""C07: package maps (PackageMap.tla)."""
import importlib, io
import common, impl, tlc

def doc(name, uri, uuid='_1'):
    return ('<?xml version="1.0"?><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cim="%s#">'
            '<cim:%s rdf:ID="%s"></cim:%s></rdf:RDF>' % (uri, name, uuid, name))

def run(pid):
    from PyCIM import cimread
    check = common.Check(pid)
    S = impl.Schema()
    recs, n = [], 0
    byroot = {}
    for k, c in S.cls.items(): byroot.setdefault(c['root'], {}).setdefault(c['name'], []).append(k)
    byobj = {}
    def cid(c):
        """the model's id of a class object"""
        if not isinstance(c, type): return '?' + type(c).__name__
        if not byobj:
            for k in S.cls:
                try: byobj[impl.get_class(k)] = k
                except impl.Missing: pass
        return byobj.get(c, '?%s.%s' % (c.__module__, c.__name__))
    allnames = {c['name'] for c in S.cls.values()} | {'', '#', 'None', '*', 'default', 'Element', 'object', '__default__'}
    for root in sorted(S.roots):
        try:
            m = importlib.import_module(root)
            pm, uri, pre = dict(m.packageMap), str(m.nsURI), str(m.nsPrefix)
        except Exception as e:
            recs.append(dict(root=root, names=sorted(byroot[root]), keys=[], entries=[], uri='!' + type(e).__name__, uri2=S.roots[root]['nsURI'], prefix='', prefix2='')); continue
        es = []
        # the map as users look things up in it: by key, get and in
        def finds(name):
            try: m.packageMap[name]; return True
            except KeyError: pass
            return name in m.packageMap or m.packageMap.get(name) is not None
        others = set(allnames)
        for name in byroot[root]:
            others |= {name + 's', name + 'Info', name[:-1], name[1:], name.lower(), name.upper(), ' ' + name, name + ' ', root + '.' + name, name + '.' + name, 'cim:' + name}
        keys = sorted(set(map(str, pm)) | {k for k in others | set(byroot[root]) if finds(k)})
        for name in sorted(pm):
            n += 1
            try: mod = __import__(pm[name], {}, {}, [name], 0); got = cid(getattr(mod, name))
            except Exception as e: got = '!' + type(e).__name__
            reads = []
            for start in ({}, None):
                try:
                    d = cimread(io.StringIO(doc(name, uri)), packageMap=pm, nsURI=uri, start_dict=start)
                    reads.append(cid(type(d['_1'])) if set(d) == {'_1'} else '?%d objects' % len(d))
                except Exception as e: reads.append('!' + type(e).__name__)
            if root in ('CIM14', 'CIM15'):
                try: reads.append(cid(type(cimread(io.StringIO(doc(name, uri)))['_1'])))
                except Exception as e: reads.append('!' + type(e).__name__)
            rd = reads[0] if len(set(reads)) == 1 else '?' + '/'.join(reads)
            es.append(dict(name=name, ids=byroot[root].get(name, []), imported=got, read=rd))
        recs.append(dict(root=root, names=sorted(byroot[root]), keys=keys, entries=es, uri=uri, uri2=S.roots[root]['nsURI'], prefix=pre, prefix2=S.roots[root]['nsPrefix']))
    res = tlc.run('PackageMap', files={'steps.json': recs}, invariants=['Report'])
    if res['distinct'] != len(recs): raise tlc.TLCError('not all maps were judged')
    for f in tlc.printed(res['out'], 'FAIL'):
        r = recs[f['i'] - 1]
        what = {k: f[k] for k in ('missing', 'extra', 'badimport', 'badread') if f[k]}
        e = {x['name']: x for x in r['entries']}
        check.violation(r['root'], '%s: %s%s' % (r['root'], {k: v[:4] for k, v in what.items()}, '' if f['uri'] else ' namespace %s, not %s' % (r['uri'], r['uri2'])),
                        dict(root=r['root'], **{k: [e.get(x, x) for x in v] for k, v in what.items()}))
    check.add(traces_validated_against_impl=n, maps=len(recs), entries=n)
    check.tlc(res)
    check.cov['samples'] = [recs[-1]['entries'][:3]]
    check.assumptions = ['classes per version and profile as in spec/data/schema.json']
    return check.finish()
