"""Replays operation tours on the association ends of the real classes and
records every step in the vocabulary of AssocStep.tla."""
import impl

class Divergence(Exception): pass
class NoAnswer(BaseException): pass

def token(v):
    return '!' + type(v).__name__

class Rig:
    """The objects of one association, and its public operations."""
    def __init__(self, a, names_l, names_r, cls_l, cls_r):
        self.a = a; self.nl = names_l; self.nr = names_r; self.cl = cls_l; self.cr = cls_r
        self.lm, self.rm, self.uni = a['lm'], a['rm'], a['uni']
        self.fresh()
    def fresh(self):
        self.o = {}
        for i, n in enumerate(self.nl): self.o[n] = self.cl[i % len(self.cl)]()
        for i, n in enumerate(self.nr):
            if n not in self.o: self.o[n] = self.cr[i % len(self.cr)]()
        self.index()
    def index(self):
        self.names = {id(v): k for k, v in self.o.items()}
    def read(self, n, ref, many):
        try: v = getattr(self.o[n], ref)
        except Exception as e: return ('!raises ' + type(e).__name__,)
        if many:
            if not isinstance(v, (list, tuple)): return (token(v),)
            g = self.names.get
            return tuple([g(id(x)) or token(x) for x in v])
        if v is None: return ()
        return (self.names.get(id(v)) or token(v),)
    def state(self):
        a = self.a
        return (tuple([self.read(n, a['lr'], self.lm) for n in self.nl]),
                () if self.uni else tuple([self.read(n, a['rr'], self.rm) for n in self.nr]))
    def links(self, st):
        return tuple(sorted((n, y) for n, s in zip(self.nl, st[0]) for y in s))
    def method(self, obj, kind, ref):
        f = getattr(obj, kind + ref, None)
        return f if f is not None else getattr(obj, kind + '_' + ref)
    def do(self, op, side, x, ys, form=list):
        """Performs the operation; returns (canonical op, ys handed over, exception, arg unchanged, arg list)"""
        a = self.a
        ref, many, cls = (a['lr'], self.lm, self.cl) if side == 'l' else (a['rr'], self.rm, self.cr)
        o = self.o
        exc, arg, keep = '', None, None
        cop = op
        try:
            if op == 'own' or op == 'live':
                src = x if op == 'own' else ys[0]
                ys = self.read(src, ref, many); cop = 'set'
                v = getattr(o[src], ref)
                setattr(o[x], ref, list(v) if self.uni and src != x else v)   # one-way collections are plain lists
            elif op == 'set':
                if many:
                    arg = [o[y] for y in ys]; keep = list(arg)
                    setattr(o[x], ref, arg if form is list or self.uni else form(arg))
                else: setattr(o[x], ref, o[ys[0]] if ys else None)
            elif op == 'new':
                i = (self.nl if side == 'l' else self.nr).index(x)
                c = cls[i % len(cls)]
                if many:
                    arg = [o[y] for y in ys]; keep = list(arg)
                    o[x] = c(**{ref: arg if form is list or self.uni else form(arg)})
                else: o[x] = c(**{ref: o[ys[0]] if ys else None})
                self.index()
            else:
                self.method(o[x], 'add' if op == 'add' else 'remove', ref)(*[o[y] for y in ys])
        except (Exception, NoAnswer) as e:
            exc = type(e).__name__
        ok = arg is None or (len(arg) == len(keep) and all(p is q for p, q in zip(arg, keep)))
        return cop, tuple(ys), exc, ok, arg
    def build(self, links):
        """Fresh objects linked as given, through ordinary operations."""
        self.fresh()
        for x, y in links:
            if self.lm: self.do('add', 'l', x, (y,))
            elif self.uni or not self.rm: self.do('set', 'l', x, (y,))
            else: self.do('add', 'r', y, (x,))
        return self.links(self.state()) == tuple(links)

def view(l):
    """a dictionary view (only if nothing is repeated)"""
    d = {id(x): x for x in l}
    return d.values() if len(d) == len(l) else tuple(l)

FORMS = [list, tuple, view]

def snapshot(schema, obj, cid, skip, shadow=()):
    """Every public feature of obj except those named in skip."""
    out = {}
    for n, kind, f, _ in schema.features(cid):
        if n in skip: continue
        try: v = getattr(obj, n)
        except Exception as e: out[n] = '!raises ' + type(e).__name__; continue
        if isinstance(v, list): out[n] = tuple(id(x) for x in v)
        elif v is None or isinstance(v, (str, int, float, bool)): out[n] = (type(v).__name__, v)
        else: out[n] = id(v)
    return out

def run_tour(rig, tour, rec, start=(), other=None):
    """rec(step) is called for every step; other() -> tuple of foreign changes."""
    pre = rig.state()
    resets = n = 0
    for (op, side, x, ys), want in tour:
        cop, ys2, exc, ok, arg = rig.do(op, side, x, ys)
        n += 1
        post = rig.state()
        later = True
        if arg is not None and not rig.uni:
            arg.clear()
            later = rig.state() == post
            if not later: post2 = rig.state()
        ch = other() if other else ()
        rec((cop, side, x, ys2, pre, post, exc, ok, later, ch))
        if exc == 'NoAnswer': return n, resets, False
        if not later or exc and rig.links(post) != want or rig.links(post) != want:
            resets += 1
            if resets > 200 or not rig.build(want):
                rig.build(())
                return n, resets, False
            post = rig.state()
        pre = post
    return n, resets, True
