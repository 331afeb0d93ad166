"""C21: the three views of a line's impedance (PerLength.tla)."""
import collections, json
import common, impl, tlc
from common import TIER, rng
W = 'CIM15.IEC61970.Wires.'
LINES = ['l1', 'l2'] if TIER == 'quick' else ['l1', 'l2', 'l3']
PH, SQ = ['p1', 'p2'], ['s1', 's2']
NAME = dict(G='PerLengthImpedance', S='SequenceImpedance', P='PhaseImpedance')

class Rig:
    def __init__(self, lines=LINES, ph=PH, sq=SQ):
        self.lines_, self.ph, self.sq = lines, ph, sq
        self.L, self.P, self.S = (impl.get_class(W + n) for n in ('ACLineSegment', 'PerLengthPhaseImpedance', 'PerLengthSequenceImpedance'))
        self.fresh()
    def fresh(self):
        self.o = {n: self.L() for n in self.lines_}
        self.o.update({n: self.P() for n in self.ph}); self.o.update({n: self.S() for n in self.sq})
    def name(self, v):
        if v is None: return 'none'
        for n, o in self.o.items():
            if o is v: return n
        return '?' + type(v).__name__
    def view(self, l, v):
        try: return self.name(getattr(self.o[l], NAME[v]))
        except Exception as e: return '!' + type(e).__name__
    def gen(self): return {l: self.view(l, 'G') for l in self.lines_}
    def see(self): return {l: {v: self.view(l, v) for v in 'GSP'} for l in self.lines_}
    def lists(self):
        r = {}
        for i in self.ph + self.sq:
            try: r[i] = [self.name(x) for x in self.o[i].LineSegments]
            except Exception as e: r[i] = ['!' + type(e).__name__]
        return r
    def do(self, o):
        O = self.o; k = o['op']; ob = lambda n: None if n == 'none' else O[n]
        try:
            if k == 'view': setattr(O[o['l']], NAME[o['v']], ob(o['x']))
            elif k == 'lines': O[o['i']].LineSegments = [O[x] for x in o['ls']]
            elif k == 'add': O[o['i']].addLineSegments(*[O[x] for x in o['ls']])
            elif k == 'rem': O[o['i']].removeLineSegments(*[O[x] for x in o['ls']])
            elif k == 'newline':
                kw = {NAME[v]: ob(o[v.lower()]) for v in 'GSP' if o[v.lower()] != 'none'}
                O[o['l']] = self.L(**kw)
            else: O[o['i']] = (self.P if o['i'] in self.ph else self.S)(LineSegments=[O[x] for x in o['ls']])
        except Exception as e: return type(e).__name__
        return ''
    def build(self, gen):
        self.fresh()
        for l, i in gen.items():
            if i != 'none': setattr(self.o[l], NAME['G'], self.o[i])
        return self.gen() == gen

def key(g): return tuple(g[l] for l in LINES)

def run(pid):
    check = common.Check(pid)
    C = dict(Lines=set(LINES), Phase=set(PH), Sequ=set(SQ))
    r = tlc.run('PerLength', C, invariants=['TypeOK', 'ViewsAgree', 'ListsPartition'], view='View', action_constraint='Emit')
    if not r['ok']: raise tlc.TLCError('PerLength violated')
    check.tlc(r)
    g = collections.defaultdict(dict)
    for e in tlc.printed(r['out'], 'EDGE'):
        # of the permitted outcomes of removing strangers, assume detaching
        k = key(e['k']); ok = json.dumps(e['o'], sort_keys=True); n = key(e['n'])
        old = g[k].get(ok)
        if old is None or sum(x == 'none' for x in n) > sum(x == 'none' for x in old): g[k][ok] = n
    rn = rng('perlength')
    rig = Rig(); steps = {}; n = 0
    def step(oj):
        nonlocal n
        o = json.loads(oj); pre = rig.gen(); exc = rig.do(o); n += 1
        s = dict(o=o, pre=pre, post=rig.gen(), see=rig.see(), lists=rig.lists(), exc=exc)
        steps.setdefault(json.dumps(s, sort_keys=True), s)
        return key(s['post'])
    k = tuple('none' for _ in LINES); todo = {x: sorted(g[x]) for x in g}
    for v in todo.values(): rn.shuffle(v)
    left = sum(map(len, todo.values())); lost = 0
    while left:
        if not todo.get(k):
            prev, q, goal = {k: None}, collections.deque([k]), None
            while q:
                c = q.popleft()
                if todo[c]: goal = c; break
                for o, m in g[c].items():
                    if m not in prev: prev[m] = (c, o); q.append(m)
            if goal is None: break
            path, c = [], goal
            while prev[c]: path.append((prev[c][1], c)); c = prev[c][0]
            for o, c in reversed(path):
                if step(o) != c: lost += 1; rig.build(dict(zip(LINES, c)))
            k = goal
        o = todo[k].pop(); left -= 1; want = g[k][o]
        got = step(o)
        if got != want or got not in g:
            lost += 1
            if lost > 3000: break
            if got not in g or lost > 0: rig.build(dict(zip(LINES, want)))
        k = want
    # random walks keep lists in other orders
    ks = sorted(g)
    for _ in range(200 if TIER == 'quick' else 2000):
        k = rn.choice(ks); rig.build(dict(zip(LINES, k)))
        for _ in range(20):
            o = rn.choice(sorted(g[k])); k = step(o)
            if k not in g: break
    enc = list(steps.values())
    res = tlc.run('PerLengthStep', C, spec='SSpec', files={'steps.json': enc}, invariants=['Report'])
    if res['distinct'] != len(enc): raise tlc.TLCError('not all steps were judged: ' + res['out'][-600:])
    for f in tlc.printed(res['out'], 'FAIL'):
        s = enc[f['i'] - 1]; o = {a: b for a, b in s['o'].items() if b not in ('none', [])}
        check.violation('%s' % o, '%s: before %s, after %s, views %s, lists %s %s' % (o, s['pre'], s['post'], s['see'], s['lists'], s['exc']), s)
    # many lines at one impedance
    lines = ['l%d' % k for k in range(1, 91)]; ph, sq = ['p1', 'p2'], ['s1', 's2']; rig = Rig(lines, ph, sq); many = []
    base = dict(op='view', l='none', v='G', x='none', i='none', ls=[], g='none', s='none', p='none')
    for _ in range(6 if TIER == 'quick' else 60):
        rig.fresh()
        for _ in range(25):
            k = rn.random(); i = rn.choice(ph[:1] + sq[:1] + ph + sq); o = dict(base)
            now = rig.gen(); free = [l for l in lines if now[l] == 'none']
            if k < .2: o.update(op=rn.choice(['lines', 'add'] if i in now.values() else ['lines', 'add', 'newimp']), i=i, ls=rn.sample(lines, rn.choice([10, 40, 70, 90])))
            elif k < .35: o.update(op='rem', i=i, ls=rn.sample(lines, rn.choice([1, 3, 7])))
            elif k < .5 and free: o.update(op='newline', l=rn.choice(free)); o[rn.choice(['g', 's' if i in sq else 'p'])] = i
            else:
                v = rn.choice(['G', 'S' if i in sq else 'P']); o.update(op='view', l=rn.choice(lines), v=v, x=rn.choice([i, i, 'none']))
            pre = rig.gen(); exc = rig.do(o); n += 1
            many.append(dict(o=o, pre=pre, post=rig.gen(), see=rig.see(), lists=rig.lists(), exc=exc))
    res = tlc.run('PerLengthStep', dict(Lines=set(lines), Phase=set(ph), Sequ=set(sq)), spec='SSpec', files={'steps.json': many}, invariants=['Report'])
    if res['distinct'] != len(many): raise tlc.TLCError('not all steps were judged: ' + res['out'][-600:])
    for f in tlc.printed(res['out'], 'FAIL'):
        s = many[f['i'] - 1]
        check.violation('many lines %d' % f['i'], '%s: the views or lists of %d lines differ %s' % (s['o'], len(lines), s['exc']), s)
    check.add(steps_with_many_lines=len(many))
    check.add(traces_validated_against_impl=n, distinct_steps_judged=len(enc))
    check.cov['samples'] = enc[:2]
    check.assumptions = ['two lines (three when thorough), two phase and two sequence impedances; random histories of 90 lines']
    return check.finish()
