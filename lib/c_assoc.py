"""C01-C04: association semantics.  Assoc.tla is explored by TLC, its transitions
are replayed as tours on every association end, and every distinct observed step
is judged by AssocStep.tla."""
import concurrent.futures as cf, gc, os, signal, sys, time
import common, impl, tlc, tours, assoc
from common import TIER, rng

KINDS = {  # name: lm, rm, uni, L, R
    '11':  (False, False, False, ['a1', 'a2'], ['b1', 'b2', 'b3']),
    '1n':  (True, False, False, ['a1', 'a2'], ['b1', 'b2', 'b3']),
    'nn':  (True, True, False, ['a1', 'a2'], ['b1', 'b2', 'b3']),
    'u1':  (False, False, True, ['a1', 'a2'], ['b1', 'b2']),
    'un':  (True, False, True, ['a1', 'a2'], ['b1', 'b2']),
    '11s': (False, False, False, ['n1', 'n2', 'n3'], ['n1', 'n2', 'n3']),
    '1ns': (True, False, False, ['n1', 'n2', 'n3'], ['n1', 'n2', 'n3']),
    'nns': (True, True, False, ['n1', 'n2'], ['n1', 'n2'])}
if TIER == 'thorough':
    KINDS['1n'] = (True, False, False, ['a1', 'a2', 'a3'], ['b1', 'b2', 'b3'])
    KINDS['11'] = (False, False, False, ['a1', 'a2', 'a3'], ['b1', 'b2', 'b3'])
    KINDS['nns'] = (True, True, False, ['n1', 'n2', 'n3'], ['n1', 'n2', 'n3'])

_hung = [0]
def _alarm(*_): _hung[0] += 1; raise assoc.NoAnswer('no answer')
def clock():
    """an operation that never returns ends with NoAnswer (processor time, so that a busy machine does not matter)"""
    signal.setitimer(signal.ITIMER_VIRTUAL, 20 if not _hung[0] else 3, 2)
def noclock(): signal.setitimer(signal.ITIMER_VIRTUAL, 0)

def model(check):
    """Explores the specifications; returns the tours."""
    out = {}
    def one(k):
        lm, rm, uni, L, R = KINDS[k]
        # 'own' right-multi one-way ends do not exist: the abstract spec of un uses RM = TRUE for "may be shared"
        r = tlc.run('Assoc', dict(L=set(L), R=set(R), LM=lm, RM=True if uni else rm, Uni=uni), invariants=['TypeOK', 'Multiplicity'],
                    properties=['Frame'], view='View', action_constraint='Emit')
        if not r['ok']: raise tlc.TLCError('Assoc %s violated: %s' % (k, r['out'][-1500:]))
        i = None
        if not uni:
            # three objects with ordered lists on both sides take TLC too long
            n = 2 if k == 'nns' else 3
            i = tlc.run('AssocImpl', dict(L=set(L[:n]), R=set(R[:n]), LM=lm, RM=rm), invariants=['BothEndsAgree', 'OneOwnerOnly', 'NoRepeats'],
                        properties=['Refines', 'Assigned'], view='View', workers=2)
            if not i['ok']: raise tlc.TLCError('AssocImpl %s violated: %s' % (k, i['out'][-1500:]))
        edges = list(tlc.printed(r['out'], 'EDGE'))
        return k, r, i, edges
    with cf.ThreadPoolExecutor(4) as ex:
        for k, r, i, edges in ex.map(one, KINDS):
            check.tlc(r)
            if i: check.tlc(i)
            lm, rm, uni, L, R = KINDS[k]
            out[k] = tours.tour(edges, lm, True if uni else rm, rng('tour', k))
    return out

class Recorder:
    def __init__(self, special): self.d, self.special, self.n, self.hist = {}, special, 0, 0
    def using(self, aid, kind, L, R):
        g = aid.split('#')[0]
        if g not in self.special: g = ''
        head = (g, kind, tuple(L), tuple(R))
        d = self.d
        def rec(step):
            self.n += 1
            k = (head, step)
            e = d.get(k)
            if e is None: d[k] = [1, [aid]]
            else:
                e[0] += 1
                if len(e[1]) < 4 and e[1][-1] != aid: e[1].append(aid)
        return rec

_S = {}
def kind_of(a):
    if a['uni']: return 'un' if a['lm'] else 'u1'
    return 'nn' if a['lm'] and a['rm'] else '1n' if a['lm'] else '11'

def _worker(chunk):
    S, T, special = _S['schema'], _S['tours'], _S['special']
    R = Recorder(special)
    notes = []
    signal.signal(signal.SIGVTALRM, _alarm)
    pending = []
    for what, a, extra in chunk:
        try:
            if what == 'base': _base(S, T, R, a, extra, notes)
            elif what == 'inherit': _inherit(S, R, a, extra, notes)
            elif what == 'crowd':
                _crowd(S, R, a, extra, notes); _big(S, R, a, extra, notes)
                if extra == 0: pending += _held(S, R, a)
            else: _population(S, R, a, extra, notes)
        except impl.Missing as e: notes.append(('missing', str(e)))
        except assoc.NoAnswer as e: notes.append(('no answer', a['id']))
        finally: noclock()
    if pending: gc.collect()
    for f in pending: f()
    return R.d, R.n, R.hist, notes

def concrete(S, cid, ref, r, n):
    """n classes that may stand at an end declared for cid; not those that
    redeclare the reference (name clashes of the UML model)"""
    d = [c for c in S.descendants(cid) if c == cid or ref is None or not redeclares(S, c, cid, ref)]
    return [impl.get_class(cid)] + [impl.get_class(r.choice(d)) for _ in range(n - 1)]

def redeclares(S, cid, decl, ref):
    return any(f['n'] == ref for x in S.ancestors(cid) if x != decl for f in S.cls[x]['refs'] + S.cls[x]['attrs'])

def rig_for(a, kind, cl, cr, R, aid, notes):
    _, _, _, L, RR = KINDS[kind]
    try: return assoc.Rig(a, L, RR, cl, cr)
    except Exception as e:
        empty = (tuple(() for _ in L), () if a['uni'] else tuple(() for _ in RR))
        R.using(aid, kind, L, RR)(('new', 'l', L[0], (), empty, empty, type(e).__name__, True, True, ()))
        return None

def _base(S, T, R, a, r, notes):
    k = kind_of(a)
    lc, rc, aid = a['lc'], a['rc'], a['id']
    if r:      # a class that redeclares the reference
        aid += '@' + r[0]
        if r[1] == 'l': lc = r[0]
        else: rc = r[0]
    for kind in ([k, k + 's'] if not a['uni'] and a['lc'] == a['rc'] else [k]):
        lm, rm, uni, L, RR = KINDS[kind]
        cl = [impl.get_class(lc)]; cr = [impl.get_class(rc)]
        rig = rig_for(a, kind, cl, cr, R, aid, notes)
        if rig is None: return
        tour = T[kind][0]
        clock()
        before = {n: assoc.snapshot(S, o, a['lc'] if n in L else a['rc'], ()) for n, o in rig.o.items()}
        _, _, ok = assoc.run_tour(rig, tour, R.using(aid, kind, L, RR))
        R.hist += 1
        # everything outside the association is as on fresh objects
        skip = {a['lr'], a['rr']}
        def foreign():
            ch = []
            for n, o in rig.o.items():
                s = assoc.snapshot(S, o, a['lc'] if n in L else a['rc'], skip)
                ch += ['%s.%s' % (n[0], f) for f in s if s[f] != before[n].get(f) and not view_of(a, f)]
            return tuple(sorted(set(ch)))
        if foreign():
            rig.fresh(); seen = set()
            rec = R.using(aid, kind, L, RR)
            def other():
                c = tuple(f for f in foreign() if f not in seen); seen.update(c); return c
            assoc.run_tour(rig, tour, rec, other=other)
        noclock()

def menu(r, rig, crowd=False):
    """a random operation of Assoc.tla"""
    side = 'l' if rig.uni or r.random() < .5 else 'r'
    me, it, many = (rig.nl, rig.nr, rig.lm) if side == 'l' else (rig.nr, rig.nl, rig.rm)
    x = r.choice(me)
    op = r.choice(['set', 'set', 'add', 'add', 'rem', 'own', 'live', 'new'] if many else ['set', 'set', 'set', 'new'])
    if op == 'live':
        if len(me) < 2: op = 'own'
        else: return op, side, x, (r.choice([z for z in me if z != x]),)
    if op == 'own': return op, side, x, ()
    if op == 'new':
        if set(rig.nl) & set(rig.nr) or rig.state()[0 if side == 'l' else 1][me.index(x)] != (): op = 'set'
        if rig.uni and side == 'l' and op == 'new' and False: pass
    n = r.choice([0, 1, 2, 2]) if many else r.choice([0, 1, 1])
    if crowd and many: n = r.choice([1, 2, 3, 5, len(it) - 2, len(it)])
    if op in ('add', 'rem'): n = max(n, 1)
    if crowd and r.random() < .6: return op, side, x, tuple(r.sample(it, min(n, len(it))))
    return op, side, x, tuple(r.choice(it) for _ in range(n))

def walk(r, rig, rec, n, other=None, crowd=False):
    pre = rig.state()
    for _ in range(n):
        op, side, x, ys = menu(r, rig, crowd)
        cop, ys2, exc, ok, arg = rig.do(op, side, x, ys, r.choice(assoc.FORMS))
        post = rig.state(); later = True
        if arg is not None and not rig.uni:
            arg.clear(); later = rig.state() == post
        rec((cop, side, x, ys2, pre, post, exc, ok, later, other() if other else ()))
        if exc == 'NoAnswer': break
        pre = rig.state()

CROWD = {'11': (5, 5), '1n': (4, 15), 'nn': (6, 9), 'u1': (5, 4), 'un': (4, 13)}
def _crowd(S, R, a, j, notes):
    """Many objects, some with the same identifier, and operations on many at once.
    The same history for all associations of a kind."""
    k = kind_of(a)
    r = rng('crowdclasses', a['id'], j)
    cl = concrete(S, a['lc'], a['lr'], r, 3)
    cr = [impl.get_class(a['rc'])] if a['uni'] else concrete(S, a['rc'], a['rr'], r, 3)
    m, n = CROWD[k]
    for kind in ([k, k + 's'] if not a['uni'] and a['lc'] == a['rc'] else [k]):
        if kind.endswith('s') and kind != k:
            L = RR = ['n%d' % (i + 1) for i in range(9)]
            both = concrete(S, a['lc'], a['lr'], r, 3)
            c1 = c2 = both[:1]
        else:
            L = ['a%d' % (i + 1) for i in range(m)]; RR = ['b%d' % (i + 1) for i in range(n)]
            c1, c2 = cl, cr
        rig = rig_for2(a, L, RR, c1, c2)
        if rig is None: return
        for i, o in enumerate(rig.o.values()): o.UUID = 'u%d' % (i % 3)
        alike(S, rig.o.values())
        clock()
        q = rng('crowd', kind, j)
        walk(q, rig, R.using(a['id'] + '#crowd', kind, L, RR), 50 if TIER == 'quick' else 150, crowd=True)
        R.hist += 1
        noclock()

def _big(S, R, a, j, notes):
    """collections of hundreds; one history per kind"""
    k = kind_of(a)
    if not a['lm']: return
    r = rng('bigclasses', a['id'], j)
    cl = concrete(S, a['lc'], a['lr'], r, 2)
    cr = [impl.get_class(a['rc'])] if a['uni'] else concrete(S, a['rc'], a['rr'], r, 2)
    q = rng('big', k, j); n = 150 if TIER == 'quick' else 400
    L, RR = ['a1', 'a2', 'a3', 'a4'], ['b%d' % (i + 1) for i in range(n)]
    rig = rig_for2(a, L, RR, cl, cr)
    if rig is None: return
    clock()
    rec = R.using(a['id'] + '#big', k, L, RR)
    some = lambda m: tuple(q.sample(RR, m))
    for op, x, ys in [('set', 'a1', some(n)), ('add', 'a2', some(n // 2)), ('add', 'a1', some(n // 3)), ('rem', 'a1', None), ('set', 'a3', some(n // 4)), ('new', 'a4', some(n // 5)),
                      ('own', 'a1', ()), ('set', 'a2', some(n // 3)), ('rem', 'a3', None), ('set', 'a1', ())]:
        pre = rig.state()
        if op == 'rem': h = rig.read(x, a['lr'], True); ys = tuple(q.sample(h, len(h) // 2))
        cop, ys2, exc, ok, arg = rig.do(op, 'l', x, ys)
        rec((cop, 'l', x, ys2, pre, rig.state(), exc, ok, True, ()))
        if exc == 'NoAnswer': break
    R.hist += 1
    noclock()
    if j: return
    for side in ('lr' if not a['uni'] and a['rm'] else 'l'): _huge(R, a, k, cl, cr, side)

def _huge(R, a, k, cl, cr, me):
    """beyond a thousand members, reached in two steps; then single objects that come again, go and come back"""
    n = 1100 if TIER == 'quick' else 2600
    ones, many = ['o1', 'o2'], ['m%d' % (i + 1) for i in range(n)]
    L, RR = (ones, many) if me == 'l' else (many, ones)
    it = 'r' if me == 'l' else 'l'
    rig = rig_for2(a, L, RR, cl, cr)
    if rig is None: return
    clock()
    rec = R.using(a['id'] + '#huge', k, L, RR)
    last = many[-1]
    steps = [('add', me, 'o1', tuple(many[:n - 40])), ('add', me, 'o1', tuple(many[n - 40:])), ('add', me, 'o1', ('m1', 'm%d' % (n // 2), last)), ('rem', me, 'o1', ('m2', last)),
             ('add', me, 'o1', ('m2',)), ('add', me, 'o2', ('m3',))]
    if not a['uni']:
        steps += [('add', it, 'm3', ('o1', 'o2')), ('add', it, last, ('o1',)), ('set', it, 'm1', ('o1',))] if a['rm'] else \
                 [('set', it, 'm3', ('o1',)), ('set', it, last, ('o1',)), ('new', it, 'm4', ('o1',)), ('set', it, 'm1', ())]
    for op, side, x, ys in steps:
        if op == 'new': rig.do('set', side, x, ())
        pre = rig.state()
        cop, ys2, exc, ok, arg = rig.do(op, side, x, ys)
        rec((cop, side, x, ys2, pre, rig.state(), exc, ok, True, ()))
        if exc == 'NoAnswer': break
    R.hist += 1
    noclock()

def _held(S, R, a):
    """a linked object that nothing else refers to any more is kept by its partner; returns
    what to do when everything unreachable has been collected"""
    k = kind_of(a); r = rng('held', a['id']); out = []
    cl = concrete(S, a['lc'], a['lr'], r, 2)
    cr = [impl.get_class(a['rc'])] * 2 if a['uni'] else concrete(S, a['rc'], a['rr'], r, 2)
    for side in ('l' if a['uni'] else 'lr'):
        rig = rig_for2(a, ['a1', 'a2'], ['b1', 'b2'], cl, cr)
        if rig is None: return out
        x, y = ('a1', 'b1') if side == 'l' else ('b1', 'a1')
        rig.do('set', side, x, (y,))
        pre = rig.state()
        setattr(rig.o[y], 'UUID', 'held')
        cls = type(rig.o[y]); rig.o[y] = None
        def finish(rig=rig, side=side, x=x, y=y, pre=pre, cls=cls):
            try: v = getattr(rig.o[x], a['lr'] if side == 'l' else a['rr'])
            except Exception: v = None
            if isinstance(v, list): v = v[0] if v else None
            rig.o[y] = v if type(v) is cls and v.UUID == 'held' else cls()
            rig.index()
            cop, ys, exc, ok, arg = rig.do('set', side, x[0] + '2', ())
            R.using(a['id'] + '#held', k, rig.nl, rig.nr)((cop, side, x[0] + '2', ys, pre, rig.state(), exc, ok, True, ()))
            R.hist += 1
        out.append(finish)
    return out

SAME = dict(str='same', int=7, float=2.5, bool=True)
def alike(S, os):
    """objects that agree in all their attributes (no identity to speak of but their own)"""
    cid = {c: k for k, c in impl._cache.items() if isinstance(c, type)}
    for o in os:
        for n, kd, f, _ in S.features(cid[type(o)]):
            if kd == 'attr' and n != 'UUID': setattr(o, n, f['lits'][0] if f.get('lits') else SAME[f['t']])

def rig_for2(a, L, RR, cl, cr):
    try: return assoc.Rig(a, L, RR, cl, cr)
    except Exception: return None       # reported by _base

def _inherit(S, R, a, extra, notes):
    """short random walks with instances of cid at the left (or right) end"""
    cid, side, salt = extra
    r = rng('inherit', a['id'], cid, side, salt)
    cl = [impl.get_class(cid)] if side == 'l' else concrete(S, a['lc'], a['lr'], r, 2)
    cr = [impl.get_class(cid)] if side == 'r' else ([impl.get_class(a['rc'])] if a['uni'] else concrete(S, a['rc'], a['rr'], r, 2))
    k = kind_of(a)
    L, RR = ['a1', 'a2'], ['b1', 'b2']
    aid = a['id']
    try: rig = assoc.Rig(a, L, RR, cl, cr)
    except Exception as e:
        empty = (((), ()), () if a['uni'] else ((), ()))
        R.using(aid + '@' + cid, k, L, RR)(('new', side, L[0] if side == 'l' else RR[0], (), empty, empty, type(e).__name__, True, True, ()))
        return
    clock()
    # the same few histories everywhere: what they show is judged once
    for _ in range(1 if TIER == 'quick' else 4):
        walk(rng('inheritwalk', k, r.randrange(12)), rig, R.using(aid + '@' + cid, k, L, RR), 60)
        rig.fresh(); R.hist += 1


def _population(S, R, a, extra, notes):
    """A populated model: objects of several associated classes, operations on all
    their associations, full snapshots of everything around every step."""
    r = rng('population', a['id'], extra)
    A = _S['assocs']; byc = _S['byclass']
    chosen = [a['lc'], a['rc']]
    while len(chosen) < 5:
        c = r.choice(chosen); near = byc.get(c, [])
        if near:
            b = r.choice(near); chosen.append(b['rc'] if b['lc'] in S.ancestors(c) else b['lc'])
        else: chosen.append(r.choice(chosen))
    objs = []
    for c in chosen:
        for _ in range(2 if len(objs) < 8 else 1):
            d = S.descendants(c); k = r.choice(d) if r.random() < .5 else c
            if S.shadowed(k): k = c
            if S.shadowed(k): continue
            o = impl.get_class(k)()
            for n, kd, f, _ in S.features(k):
                if kd == 'attr' and r.random() < .2: setattr(o, n, {'str': 'v%d' % r.randrange(9), 'int': r.randrange(9), 'float': r.random(), 'bool': True}[f['t']])
            objs.append((k, o))
    usable = []
    for b in A:
        ls = [i for i, (k, _) in enumerate(objs) if b['lc'] in S.ancestors(k)]
        rs = [i for i, (k, _) in enumerate(objs) if b['rc'] in S.ancestors(k)]
        if ls and rs and not (b['uni'] and False): usable.append((b, ls, rs))
    if not usable: return
    r.shuffle(usable); usable = usable[:12]
    def snaps(): return [assoc.snapshot(S, o, k, ()) for k, o in objs]
    def firsts(): return [assoc.snapshot(S, o, k, ()) for k, o in first if first is not objs]
    clock()
    n = 60 if TIER == 'quick' else 200
    first, copied = [], ()
    for t in range(n):
        if t == n // 2:     # the rest happens on a deep copy of the population, which the original does not notice
            first = objs
            try: objs, copied = copies(objs, t + extra), ()
            except Exception as e: copied = ('!copy: ' + type(e).__name__,)
            else: copied = unlike(S, first, objs)
        b, ls, rs = r.choice(usable)
        nm = {}
        both = set(ls) & set(rs)
        for j, i in enumerate(ls): nm[i] = ('n' if i in both else 'a') + str(i)
        for j, i in enumerate(rs): nm.setdefault(i, 'b' + str(i))
        rig = assoc.Rig.__new__(assoc.Rig)
        rig.a = b; rig.nl = [nm[i] for i in ls]; rig.nr = [nm[i] for i in rs]; rig.cl = rig.cr = None
        rig.lm, rig.rm, rig.uni = b['lm'], b['rm'], b['uni']
        rig.o = {nm[i]: objs[i][1] for i in set(ls) | set(rs)}; rig.index()
        before = snaps(); pre = rig.state(); orig = firsts()
        op, side, x, ys = menu(r, rig)
        if op == 'new': op = 'set'
        cop, ys2, exc, ok, arg = rig.do(op, side, x, ys)
        post = rig.state(); later = True
        if arg is not None and not rig.uni:
            arg.clear(); later = rig.state() == post
        after = snaps(); ch = list(copied); copied = ()
        if firsts() != orig: ch.append('the original of a copy')
        for i, (p, q) in enumerate(zip(before, after)):
            for f in q:
                if p[f] != q[f] and not (i in ls and f == b['lr']) and not (i in rs and f == b['rr']):
                    if (f == b['lr'] or f == b['rr']) and False: continue
                    if view_of(b, f): continue
                    ch.append(f)
        R.using(b['id'] + '#pop', kind_of(b), rig.nl, rig.nr)((cop, side, x, ys2, pre, post, exc, ok, later, tuple(sorted(set(ch)))))
        if exc and not (cop == 'rem' and exc != 'NoAnswer'): break
    R.hist += 1

def copies(objs, how):
    import copy, pickle
    os = [o for _, o in objs]
    os = copy.deepcopy(os) if how % 2 else pickle.loads(pickle.dumps(os, how // 2 % (pickle.HIGHEST_PROTOCOL - 1) + 2))
    return [(k, o) for (k, _), o in zip(objs, os)]

def unlike(S, first, second):
    """features of the copies that are not what the originals' are"""
    out = set(); name = [{id(o): i for i, (_, o) in enumerate(l)} for l in (first, second)]
    for (k, p), (_, q) in zip(first, second):
        if p is q or type(p) is not type(q): out.add('!' + k)
        for n, kd, f, _ in S.features(k):
            try: v, w = getattr(p, n), getattr(q, n)
            except Exception: out.add(n); continue
            if isinstance(v, list):
                if v is w or [name[0].get(id(x), '?') for x in v] != [name[1].get(id(x), '!') for x in w]: out.add(n)
            elif id(v) in name[0]:
                if name[0][id(v)] != name[1].get(id(w)): out.add(n)
            elif type(v) is not type(w) or v != w: out.add(n)
    return tuple(sorted(out))

VIEWS = {'PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance'}
def view_of(b, f):
    """the three impedance views of a CIM15 line are one reference (C21)"""
    return b['lc'].startswith('CIM15.') and f in VIEWS | {'LineSegments'} and (b['lr'] in VIEWS | {'LineSegments'}) and (b['rr'] in VIEWS | {'LineSegments'})

def attribute_frames(S, check):
    """Setting one attribute changes that attribute of that object alone."""
    def work(chunk):
        out = []
        for k in chunk:
            try: c = impl.get_class(k); o1, o2 = c(), c()
            except Exception as e: continue
            shared = [n for n, kd, f, _ in S.features(k) if isinstance(getattr(o1, n, None), list) and getattr(o1, n) is getattr(o2, n)]
            for n in shared: out.append((k, n, ['o2.' + n], 'shared list'))
            s1, s2 = assoc.snapshot(S, o1, k, ()), assoc.snapshot(S, o2, k, ())
            for n, kd, f, _ in S.features(k):
                if kd != 'attr': continue
                v = {'str': 'x ' + n, 'int': 7, 'float': 2.5, 'bool': True}[f['t']]
                try: setattr(o1, n, v)
                except Exception as e: out.append((k, n, ['!' + type(e).__name__], 'raises')); continue
                t1, t2 = assoc.snapshot(S, o1, k, ()), assoc.snapshot(S, o2, k, ())
                ch = ['o1.' + f2 for f2 in t1 if t1[f2] != s1[f2]] + ['o2.' + f2 for f2 in t2 if t2[f2] != s2[f2]]
                out.append((k, n, ch, 'ok' if t1[n] == (type(v).__name__, v) else 'not stored'))
                s1, s2 = t1, t2
        return out
    global _af; _af = work
    res = [x for p in common.parallel(_af_call, sorted(S.cls)) for x in p]
    return res
def _af_call(c): return _af(c)

def encode(k):
    (g, kind, L, R), (op, side, x, ys, pre, post, exc, ok, later, other) = k
    lm, rm, uni = {'11': (0, 0, 0), '1n': (1, 0, 0), 'nn': (1, 1, 0), 'u1': (0, 0, 1), 'un': (1, 0, 1)}[kind.rstrip('s') if kind != 'nns' else 'nn']
    z = lambda names, st: [[n, list(s)] for n, s in zip(names, st)]
    return dict(lm=bool(lm), rm=bool(rm), uni=bool(uni), op=op, side=side, x=x, ys=list(ys), pl=z(L, pre[0]), pr=z(R, pre[1]),
                ql=z(L, post[0]), qr=z(R, post[1]), exc=exc, arg=ok, later=later, other=list(other))

def judge(check, steps, module='AssocStep'):
    """TLC evaluates every distinct step; returns {index: clauses}"""
    enc = [encode(k) for k in steps]
    bad = {}
    n = 4 if len(enc) > 2000 else 1
    size = (len(enc) + n - 1) // n
    parts = [(i, enc[i:i + size]) for i in range(0, len(enc), size)]
    def one(p):
        return p[0], tlc.run(module, files={'steps.json': p[1]}, invariants=['Report'])
    with cf.ThreadPoolExecutor(4) as ex:
        for off, r in ex.map(one, parts):
            if r['distinct'] != len(dict(parts)[off]): raise tlc.TLCError('not all steps were judged: %s' % r['out'][-800:])
            for f in tlc.printed(r['out'], 'FAIL'): bad[off + f['i'] - 1] = f['clauses']
    return bad

def run(pid):
    check = common.Check(pid)
    S = impl.Schema()
    T = model(check)
    missing = impl.import_all(S)
    A = S.associations()
    byc = {}
    for a in A:
        byc.setdefault(a['lc'], []).append(a)
        if not a['uni']: byc.setdefault(a['rc'], []).append(a)
    special = set(check.known)
    _S.update(schema=S, tours=T, special=special, assocs=A, byclass=byc)
    items = [('base', a, None) for a in A]
    for a in A:
        for c in S.descendants(a['lc'])[1:]:
            items.append(('base' if redeclares(S, c, a['lc'], a['lr']) else 'inherit', a, (c, 'l', 0)))
        if not a['uni']:
            for c in S.descendants(a['rc'])[1:]:
                items.append(('base' if redeclares(S, c, a['rc'], a['rr']) else 'inherit', a, (c, 'r', 0)))
    items += [('crowd', a, j) for a in A for j in range(1 if TIER == 'quick' else 6)]
    r = rng('pop')
    npop = 160 if TIER == 'quick' else 2000
    items += [('pop', r.choice(A), i) for i in range(npop)]
    r.shuffle(items)
    d, n, hist, notes = {}, 0, 0, []
    for wd, wn, wh, wnotes in common.parallel(_worker, items):
        n += wn; hist += wh; notes += wnotes
        for k, (c, ids) in wd.items():
            e = d.setdefault(k, [0, []]); e[0] += c
            e[1] += [i for i in ids if i not in e[1]][:4 - len(e[1])] if len(e[1]) < 4 else []
    steps = sorted(d, key=repr)
    bad = judge(check, steps)
    for i, clauses in sorted(bad.items()):
        if pid not in clauses: continue
        (g, kind, L, R), st = steps[i]
        for aid in d[steps[i]][1]:
            check.violation(aid.split('#')[0], '%s fails %s on %s.%s%r: before %r, after %r%s' % (
                aid, pid, st[2], {'l': 'left ', 'r': 'right '}[st[1]] + st[0], list(st[3]), st[4], st[5], ' raised ' + st[6] if st[6] else '')
                + (' also changed %r' % (st[9],) if st[9] else '') + ('' if st[7] else ' caller list changed') + ('' if st[8] else ' aliases caller list'),
                encode(steps[i]))
    if pid == 'C04':
        af = attribute_frames(S, check)
        check.add(attribute_steps=len(af))
        seen = set()
        recs = []
        for k, nme, ch, v in af:
            recs.append(dict(f=nme, ch=[c.replace(nme, '$') if c.split('.', 1)[-1] == nme else c for c in ch], v=v, key='%s.%s' % (k, nme)))
        uniq = {}
        for x in recs: uniq.setdefault((tuple(x['ch']), x['v']), x)
        us = list(uniq.values())
        r2 = tlc.run('AttrStep', files={'steps.json': [dict(ch=x['ch'], v=x['v']) for x in us]}, invariants=['Report'])
        for f in tlc.printed(r2['out'], 'FAIL'):
            for x in recs:
                if (tuple(x['ch']), x['v']) == (tuple(us[f['i'] - 1]['ch']), us[f['i'] - 1]['v']):
                    check.violation(x['key'], 'setting %s: %s, changed %s' % (x['key'], x['v'], x['ch']), x)
    check.add(traces_validated_against_impl=hist, steps_observed=n, distinct_steps_judged=len(steps), associations=len(A),
              inherited_ends=sum(1 for x in items if x[0] == 'inherit'), skipped=len(notes))
    check.cov['samples'] = [encode(steps[i]) for i in (0, len(steps) // 2, len(steps) - 1)]
    if notes: check.cov['skipped_samples'] = [str(x) for x in notes[:5]]
    check.assumptions = ['associations and multiplicities as in spec/data/schema.json', 'judged through public attributes and methods only']
    return check.finish()
