"""C23: calls that go on at the same time, against Together.tla."""
import concurrent.futures as cf, io, json, os, sys, threading, time
import common, impl, tlc, cimdoc
import c_read, c_write
from cimdoc import Spelling
from common import TIER, rng
THOROUGH = TIER == 'thorough'
_G = {}

# --- jobs: make() -> fn(pause) -> thunk -> (token, objects) --------------------
class Source:
    """gives at most `step` at a time, pausing before each"""
    def __init__(self, data, step, pause): self.b, self.step, self.pause = io.StringIO(data) if isinstance(data, str) else io.BytesIO(data), step, pause
    def read(self, n=-1): self.pause(); return self.b.read(self.step if n is None or n < 0 else min(n, self.step)) if n != 0 and n is not None and n > 0 else self.b.read()
    def seek(self, *a): self.pause(); return self.b.seek(*a)
    def tell(self): return self.b.tell()
class Sink:
    def __init__(self, pause, fail): self.all, self.pause, self.fail = [], pause, fail
    def write(self, s):
        self.pause(); self.all.append(s)
        if len(self.all) == self.fail: raise IOError('full')

def view(m):
    o = _G['E'].O; ids = list(m)
    try: return json.dumps([ids, o.of(m, o.names(m), ids, set())], sort_keys=True, default=str)
    except Exception as e: return 'no view: ' + type(e).__name__
def parts(objs):
    """the objects and the lists they hold"""
    return list(objs) + [v for o in objs for v in vars(o).values() if isinstance(v, list)]

def document(E, r, root):
    el = c_read.random_model(E, root, r, r.choice([1, 3, 8]), 8)
    if r.random() < .4: c_read.inject(E, r, el, .3)
    sp = cimdoc.any_spelling(r) if r.random() < .5 else Spelling()
    uri = E.S.roots[root]['nsURI']
    return el, cimdoc.encode(cimdoc.render(el, uri + '#', sp, E.S), sp), uri

def reading(E, r):
    from PyCIM import cimread
    root = r.choice(_G['roots']); el, data, uri = document(E, r, root)
    k = r.random()
    if k < .15: data = data[:r.randrange(len(data))]
    elif k < .25: data = data.replace(b'</', b'&none;</', 1)
    step = r.choice([5, 40, 300, 10 ** 6]) if len(data) < 4000 else r.choice([100, 1000, 10 ** 6])
    args = (E.maps[root], uri) if r.random() < .5 or root not in ('CIM14', 'CIM15') else (None, None)
    own = r.random() < .4
    def make():
        start = {'s0': impl.get_class(_G['cls'][root])(UUID='s0')} if own else None
        def fn(pause):
            try: d = cimread(Source(data, step, pause), args[0], args[1], start)
            except Exception as e:
                err = type(e).__name__
                return lambda: ('error ' + err + (view(start) if own else ''), parts(start.values()) if own else [])
            return lambda: (view(d), parts(d.values()) + [d])
        return fn
    return make

def printing(E, r):
    from PyCIM.PrettyPrintXML import xmlpp
    el, data, uri = document(E, r, r.choice(_G['roots']))
    if r.random() < .15: data = data[:r.randrange(len(data))]
    step = r.choice([40, 300])
    def make():
        def fn(pause):
            try: b = xmlpp(Source(data, step, pause))
            except Exception as e: b = 'error ' + type(e).__name__
            return lambda: (repr(b), [])
        return fn
    return make

def writing(E, r, n):
    """n writers of one model"""
    from PyCIM import cimwrite
    root = r.choice(_G['roots'][:2]); el = c_read.random_model(E, root, r, r.choice([1, 3, 8]), 8)
    el = [e for e in el if e['t'] == 'obj']
    shared = {}
    def one(j, enc, fail):
        def make():
            if 'todo' not in shared or j in shared['todo']: shared.update(m=c_write.build(E, el), todo=set())
            shared['todo'].add(j)
            m = shared['m']; before = view(m)
            def fn(pause):
                s = Sink(pause, fail); err = ''
                try: cimwrite(m, s, enc)
                except Exception as e: err = 'error ' + type(e).__name__
                return lambda: (repr((s.all if err else [''.join(x if isinstance(x, str) else x.decode('latin-1') for x in s.all)], err, before == view(m))), [])
            return fn
        return make
    return [one(j, r.choice(['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1']), r.choice([0, 0, 0, 5, 20])) for j in range(n)]

def markup(E, r):
    from PyCIM.SimpleXMLWriter import XMLWriter
    q = r.randrange(10 ** 9); enc = r.choice(['utf-8', 'us-ascii'])
    def make():
        def fn(pause):
            r = rng('markup', q); s = Sink(pause, 0); err = ''
            try:
                w = XMLWriter(s, enc); w.declaration(); ids = [w.start('root', {'a': '<&"'}, b='\u00e9')]
                for _ in range(r.randrange(1, 15)):
                    k = r.randrange(6); pause()
                    if k < 2: ids.append(w.start(r.choice(['x', 'y', 'z:t']), a='%d' % r.randrange(9)))
                    elif k == 2: w.data(r.choice(['t', '&', '\u20ac']))
                    elif k == 3: w.element('e', r.choice(['', 'x']), u='1')
                    elif k == 4: w.comment('c')
                    elif len(ids) > 1: w.end() if r.random() < .5 else w.close(ids[-1]); ids.pop()
                w.close(ids[0]); w.flush()
            except Exception as e: err = 'error ' + type(e).__name__
            return lambda: (repr((s.all if err else ''.join(s.all), err)), [])
        return fn
    return make

def changing(E, r, aid=None):
    """association operations on objects of its own"""
    q = r.randrange(10 ** 9); aids = [aid] * 3 if aid else r.sample(_G['assocs'], 3)
    def make():
        def fn(pause):
            r = rng('changing', q); objs = {}; log = []
            for n in range(4 if aid else 8):
                a = E.assocs[aids[n % 3]]; c = a['lc'] if n % 2 else a['rc']
                pause()
                objs['o%d' % n] = impl.get_class(c)(UUID='o%d' % n)
            for _ in range(6 if aid else 15):
                n = r.randrange(3); a = E.assocs[aids[n]]
                ls = [o for i, o in objs.items() if isinstance(o, impl.get_class(a['lc']))]; rs = [o for o in objs.values() if isinstance(o, impl.get_class(a['rc']))]
                side = r.choice('lr') if a['rr'] else 'l'
                x, y = (r.choice(ls), r.choice(rs)) if side == 'l' else (r.choice(rs), r.choice(ls))
                pause()
                try:
                    if r.random() < .2 and not (a['lm'] if side == 'l' else a['rm']): setattr(x, a['lr'] if side == 'l' else a['rr'], None)
                    else: c_write.link(x, E.S, a, side, y)
                except Exception as e: log.append(type(e).__name__)
            return lambda: (view(objs) + repr(log), parts(objs.values()))
        return fn
    return make

# --- schedules ----------------------------------------------------------------
CO_OPTIMIZED = 1
class Thread(threading.Thread):
    def __init__(self, fn, lines):
        threading.Thread.__init__(self, daemon=True)
        self.fn, self.lines, self.go, self.back = fn, lines, threading.Semaphore(0), threading.Semaphore(0)
        self.left, self.out, self.count, self.stuck, self.seen = 0, None, 0, False, []
    def pause(self):
        self.count += 1; self.left -= 1
        if self.left <= 0: self.back.release(); self.go.acquire()
    def run(self):
        self.go.acquire()
        if self.lines: sys.settrace(self.trace)
        try: self.out = self.fn(self.pause)
        except BaseException as e: x = type(e).__name__; self.out = lambda: ('job: ' + x, [])
        finally: sys.settrace(None); self.back.release()
    def trace(self, frame, event, arg):
        c = frame.f_code
        if c.co_flags & CO_OPTIMIZED and c.co_filename.startswith(_G['repo']): return self.line
    def line(self, frame, event, arg):
        if event == 'line': self.seen.append((frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name)); self.pause()
        return self.line

def together(fns, turns, lines):
    """runs the jobs in threads of which one at a time runs; turns yields (job, steps)"""
    ts = [Thread(f, lines) for f in fns]
    for t in ts: t.start()
    end = time.time() + 60
    def turn(t, n):
        if t.stuck:
            if not t.back.acquire(timeout=.05): return
            t.stuck = False
            if t.out is not None: return
        t.left = n; t.go.release()
        # a job may have to wait for another one, which then has to have its turn
        if not t.back.acquire(timeout=2): t.stuck = True
    for j, n in turns:
        if ts[j].out is None or ts[j].stuck: turn(ts[j], n)
    while any(t.out is None or t.stuck for t in ts) and time.time() < end:
        for t in ts:
            if t.out is None or t.stuck: turn(t, 10 ** 9)
    return [t.out or (lambda: ('no answer', [])) for t in ts], [t.seen if lines else t.count for t in ts]

def nested(fns, at):
    """job n + 1 runs within the at[n]-th step of job n, in the same thread"""
    outs = [None] * len(fns)
    def run(n):
        k = 0
        def pause():
            nonlocal k
            k += 1
            if n + 1 < len(fns) and k == at[n]: run(n + 1)
        outs[n] = fns[n](pause)
    run(0)
    for n in range(len(fns)):
        if outs[n] is None: run(n)
    return outs

def record(alone, thunks):
    got = [t() for t in thunks]
    num = {}
    n = lambda x: num.setdefault(x, len(num) + 1)
    where, shared = {}, []
    for j, (tok, objs) in enumerate(got):
        for o in objs:
            k = where.setdefault(id(o), j)
            if k != j and [k + 1, j + 1] not in shared: shared.append([k + 1, j + 1])
    return dict(alone=[n(x) for x in alone], got=[n(x[0]) for x in got], shared=shared), [x[0] for x in got]

def jobs_for(E, r, kinds):
    w = [j for j, k in enumerate(kinds) if k == 'write']
    ws = writing(E, r, len(w)) if r.random() < .6 else [writing(E, r, 1)[0] for _ in w]
    if r.random() < .5: ws = [x if r.random() < .6 else r.choice([markup, changing])(E, r) for x in ws]
    same = reading(E, r)
    return [ws.pop() if k == 'write' else same if r.random() < .15 else printing(E, r) if r.random() < .15 else reading(E, r) for k in kinds]

def once(E, r, i, kind, recs):
    """one switch at every line of the library that the first job comes to, to a second job of the same kind, which may be interrupted in turn"""
    if kind == 'changing': jobs = [changing(E, r, arg) for arg in [i, i]]
    elif kind == 'writing': jobs = [writing(E, r, 1)[0] for _ in '12']
    else: f = dict(reading=reading, printing=printing, markup=markup)[kind]; jobs = [f(E, r), f(E, r)]
    alone, seen = [], []
    for m in jobs: t, c = together([m()], [], True); alone.append(t[0]()[0]); seen += c
    first, last = {}, {}
    for k, x in enumerate(seen[0]): first.setdefault(x, k + 1); last[x] = k + 1
    ks = sorted(set(first.values()) | set(r.sample(sorted(last.values()), len(last) // 3)) | {r.randint(1, len(seen[0])) for _ in range(3 if kind == 'changing' else 20)}) if seen[0] else []
    if kind == 'changing':        # constructors have many lines, the operations few
        init = {k for k in ks if seen[0][k - 1][2] == '__init__'}
        ks = sorted(set(ks) - init) + r.sample(sorted(init), min(len(init), 20 if THOROUGH else 2))
    firsts = {}
    for k, x in enumerate(seen[1]): firsts.setdefault(x, k + 1)
    firsts = sorted(firsts.values())
    for k in ks:
        turns = [(0, k), (1, 10 ** 9 if r.random() < .6 or not firsts else r.choice(firsts)), (0, 10 ** 9)]
        thunks, _ = together([m() for m in jobs], turns, True)
        rec, toks = record(alone, thunks)
        recs.setdefault(json.dumps(rec, sort_keys=True), ['once', i, [kind] * 2, [list(map(str, seen[0][k - 1])), turns[1][1]], [[a[:3000], b[:3000]] for a, b in zip(alone, toks) if a != b]])
    return len(ks)

def work(chunk):
    E = _G['E']; recs = {}; n = 0
    for mode, i, arg in chunk:
        r = rng('c23', mode, i)
        if mode == 'once': n += once(E, r, i, arg, recs); continue
        for doc in arg:
            kinds, s = doc['k'], doc['s']
            jobs = jobs_for(E, r, kinds); lines = mode == 'lines' or mode == 'fine'
            try:
                alone, counts = [], []
                for m in jobs:
                    t, c = together([m()], [], lines)
                    alone.append(t[0]()[0]); counts += [len(x) if lines else x for x in c]
                if mode == 'nested':
                    thunks = nested([m() for m in jobs], [r.randint(1, max(1, c)) for c in counts])
                else:
                    if mode == 'fine':        # short turns, now and then a long one
                        turns = ((r.randrange(len(jobs)), r.choice([1, 1, 2, 3, 10, 200])) for _ in range(sum(counts)))
                    else:
                        per = [max(1, -(-c // s.count(j + 1))) for j, c in enumerate(counts)]
                        turns = [(j - 1, max(1, per[j - 1] + r.choice([0, 0, -1, 1]))) for j in s]
                    thunks, _ = together([m() for m in jobs], turns, lines)
                rec, toks = record(alone, thunks)
            finally: sys.settrace(None)
            n += 1
            recs.setdefault(json.dumps(rec, sort_keys=True), [mode, i, kinds, s, [[a[:3000], b[:3000]] for a, b in zip(alone, toks) if a != b]])
    return recs, n

def run(pid):
    check = common.Check(pid)
    E = c_read.Env(); c_read._G['E'] = E; c_read._G['allcls'] = sorted(E.S.cls)
    c_read.random_model(E, 'CIM15', rng('warm'))
    def one(k):
        t = tlc.run('Together', dict(NJobs=k[0], MaxLen=k[1]), invariants=['Alone', 'Apart', 'Untouched', 'Emit'], workers=4, timeout=800)
        if not t['ok']: raise tlc.TLCError('Together violated:\n' + t['out'][-1500:])
        return t
    scheds = []
    with cf.ThreadPoolExecutor(2) as ex:
        for t in ex.map(one, [(2, 2), (3, 2 if THOROUGH else 1)]):
            check.tlc(t)
            l = sorted({json.dumps(d) for d in tlc.printed(t['out'], 'SCHED')})
            scheds.append([json.loads(x) for x in l])
    q = rng('c23')
    two, three = scheds
    n = 4 if THOROUGH else 1
    three = q.sample(three, min(len(three), 600 * n))
    q.shuffle(two)
    roots = ['CIM15', 'CIM14'] + sorted(set(E.S.roots) - {'CIM15', 'CIM14'})
    _G.update(E=E, repo=os.path.dirname(os.path.dirname(os.path.abspath(__import__('PyCIM').__file__))) + os.sep, roots=roots[:2] * 3 + roots[2:],
              assocs=sorted(E.assocs), cls={})
    for root in roots: _G['cls'][root] = sorted(c for c in E.S.cls if c.startswith(root + '.'))[0]
    cut = lambda l: [l[i:i + 20] for i in range(0, len(l), 20)]
    items = [('steps', i, c) for i, c in enumerate(cut(two * n + three))]
    items += [('lines', i, c) for i, c in enumerate(cut((two + three)[:200 * n]))]
    items += [('fine', i, c) for i, c in enumerate(cut(q.sample(two + three, 200 * n)))]
    items += [('nested', i, c) for i, c in enumerate(cut(two * n + three))]
    items += [('once', k, kind) for kind in ('reading', 'writing', 'printing', 'markup') for k in range((8 if kind == 'reading' else 4) * n)]
    items += [('once', a, 'changing') for a in _G['assocs']]
    q.shuffle(items)
    recs, total = {}, 0
    for o, k in common.parallel(work, items):
        total += k
        for a, b in o.items(): recs.setdefault(a, b)
    keys = sorted(recs)
    res = tlc.run('TogetherStep', files={'steps.json': [json.loads(k) for k in keys]}, invariants=['Report'])
    if res['distinct'] != len(keys): raise tlc.TLCError('not all records were judged')
    for f in tlc.printed(res['out'], 'FAIL'):
        k = keys[f['i'] - 1]; c = recs[k]
        check.violation('%s %s' % (c[0], k), '%s: jobs %s in order %s: %s %s' % (c[0], c[2], c[3], k, str(c[4])[:600]), dict(record=json.loads(k), context=c))
    check.add(traces_validated_against_impl=total, distinct_records_judged=len(keys), schedules=len(two) + len(three))
    check.cov['samples'] = [json.loads(k) for k in keys[:3]]
    check.assumptions = ['switches at calls of sources and sinks, at operations, and at lines of the library; one thread runs at a time']
    return check.finish()
