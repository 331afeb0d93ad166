#!/usr/bin/env python3
"""Derives spec/data/schema.json, the UML oracle, from /repo/Model/**/*.ecore.

Run by hand when the oracle is revised (the result is committed; checks never
regenerate it, so that a change to the code cannot move its own oracle).
EXTENSIONS are the hand-made deviations of the CIM15 classes from the ecore
files; each was reconciled by reading the class and its tests."""
import xml.etree.ElementTree as ET, glob, os, json, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
XSI = '{http://www.w3.org/2001/XMLSchema-instance}'
ECO = 'http://www.eclipse.org/emf/2002/Ecore#//'
PRIM = {'EFloat': 'float', 'EString': 'str', 'EBoolean': 'bool', 'EInt': 'int', 'EShort': 'int', 'EDate': 'str'}
INST = {'float': 'float', 'int': 'int', 'java.util.Date': 'str', 'java.lang.String': 'str', 'java.math.BigInteger': 'str'}
DEF = {'str': '', 'int': 0, 'float': 0.0, 'bool': False}
classes, roots = {}, {}
for path in sorted(glob.glob(REPO + '/Model/**/*.ecore', recursive=True)):
    r = os.path.relpath(path, REPO + '/Model')[:-6].split('/')
    if r[-1] == r[0]: r = r[:-1]
    root = '.'.join(r)
    top = ET.parse(path).getroot()
    C, E, D = {}, {}, {}
    def walk(pk, fp, py):
        for c in pk.findall('eClassifiers'):
            ty = c.get(XSI + 'type'); key = '#//' + '/'.join(fp + [c.get('name')])
            if ty == 'ecore:EClass': C[key] = (py, c)
            elif ty == 'ecore:EEnum': E[key] = (c.get('name'), [l.get('name') for l in c.findall('eLiterals')])
            else: D[key] = c.get('instanceClassName')
        for s in pk.findall('eSubpackages'): walk(s, fp + [s.get('name')], py + '.' + s.get('name'))
    walk(top, [], root.split('.')[0])   # the ecore root package is the version itself
    pk = top
    for part in root.split('.')[1:]:
        pk = [x for x in pk.findall('eSubpackages') if x.get('name') == part][0]
    roots[root] = dict(nsURI=pk.get('nsURI'), nsPrefix=pk.get('nsPrefix'))
    q = lambda k: C[k][0] + '.' + C[k][1].get('name')
    for k, (py, c) in C.items():
        sup = (c.get('eSuperTypes') or '').split()
        assert len(sup) <= 1
        o = dict(pkg=py, name=c.get('name'), root=root, sup=q(sup[0]) if sup else None, attrs=[], refs=[])
        for f in c.findall('eStructuralFeatures'):
            n = f.get('name'); et = f.get('eType').split()[-1]; many = f.get('upperBound', '1') != '1'
            if f.get(XSI + 'type') == 'ecore:EAttribute':
                if et in E:
                    en, lits = E[et]
                    o['attrs'].append(dict(n=n, t='str', d=lits[0] if lits else '', e=en, lits=lits))
                else:
                    t = PRIM[et[len(ECO):]] if et.startswith(ECO) else INST[D[et]]
                    o['attrs'].append(dict(n=n, t=t, d=DEF[t], e=None))
            else:
                op = f.get('eOpposite'); opp = None
                if op:
                    opp = op.rsplit('/', 1)[1]
                o['refs'].append(dict(n=n, many=many, tgt=q(et), opp=opp))
        assert q(k) not in classes, q(k)
        classes[q(k)] = o
# classes without a supertype are Elements of their version (identified objects)
for k, o in classes.items():
    if o['sup'] is None and o['name'] != 'Element':
        o['sup'] = o['root'] + '.Element'; assert o['sup'] in classes or o['root'].split('.')[0] + '.Element' in classes, o
        if o['sup'] not in classes: o['sup'] = o['root'].split('.')[0] + '.Element'
# ---- reconciliation: hand-made extensions of CIM15 and one unusable UML name
F = 'CIM15.IEC61970.'
def cls(k): return classes[k]
def att(k, n, t, d, e=None, lits=None):
    a = dict(n=n, t=t, d=d, e=e)
    if e: a['lits'] = lits
    cls(k)['attrs'].append(a)
def ref(k, n, many, tgt, opp): cls(k)['refs'].append(dict(n=n, many=many, tgt=tgt, opp=opp))
def new(pkg, name, sup): classes[pkg + '.' + name] = dict(pkg=pkg, name=name, root='CIM15', sup=sup, attrs=[], refs=[], ext=True)
def drop(k, n): cls(k)['refs'] = [r for r in cls(k)['refs'] if r['n'] != n]
if __name__ == '__main__':
    import ext; ext.apply(globals())
    for k, o in sorted(classes.items()):
        for r in o['refs']:
            assert r['tgt'] in classes, (k, r)
            if r['opp'] and not r.get('view'):
                t = [x for x in classes[r['tgt']]['refs'] if x['n'] == r['opp']]
                assert len(t) == 1 and t[0]['opp'] == r['n'] and t[0]['tgt'] == k, (k, r, t)
    out = dict(roots=roots, classes=[dict(id=k, **classes[k]) for k in sorted(classes)])
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data', 'schema.json'), 'w') as f:
        f.write('{"roots": %s,\n"classes": [\n' % json.dumps(roots, sort_keys=True))
        f.write(',\n'.join(json.dumps(c, sort_keys=True) for c in out['classes'])); f.write('\n]}\n')
    print(len(classes), sum(len(c['attrs']) for c in classes.values()), sum(len(c['refs']) for c in classes.values()))
