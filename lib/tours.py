"""Edge-covering operation tours from the transitions TLC printed for Assoc.tla."""
import collections

def key(links): return tuple(sorted(map(tuple, links)))

def predict(k, o, lm, rm):
    """The outcome the tour assumes for removing partners that are not linked
    (any is permitted; a wrong assumption only costs a reset)."""
    k = set(k)
    pair = (lambda y: (o['x'], y)) if o['side'] == 'l' else (lambda y: (y, o['x']))
    if lm and rm:
        for y in o['ys']:
            if pair(y) not in k: break
            k.discard(pair(y))
    else:
        i = 1 if o['side'] == 'l' else 0
        k = {p for p in k if p[i] not in o['ys']}
    return tuple(sorted(k))

def graph(edges, lm, rm):
    g = collections.defaultdict(dict)
    for e in edges:
        o = e['o']; ok = (o['op'], o['side'], o['x'], tuple(o['ys']))
        g[key(e['k'])].setdefault(ok, set()).add(key(e['n']))
    out = {}
    for k, ops in g.items():
        out[k] = {}
        for ok, ns in ops.items():
            if len(ns) == 1: n = next(iter(ns))
            else:
                n = predict(k, dict(op=ok[0], side=ok[1], x=ok[2], ys=ok[3]), lm, rm)
                if n not in ns: n = sorted(ns)[0]
            out[k][ok] = n
    return out

def tour(edges, lm, rm, rng, start=()):
    """[(op, K after)] covering every operation in every state."""
    g = graph(edges, lm, rm)
    todo = {}
    for k, ops in g.items():
        loops = [o for o in sorted(ops) if ops[o] == k]; moves = [o for o in sorted(ops) if ops[o] != k]
        rng.shuffle(loops); rng.shuffle(moves)
        todo[k] = moves + loops            # popped from the end: self loops first
    k, out, left = start, [], sum(map(len, todo.values()))
    while left:
        if todo[k]:
            o = todo[k].pop(); left -= 1
            k = g[k][o]; out.append((o, k)); continue
        prev, q = {k: None}, collections.deque([k])
        goal = None
        while q:
            c = q.popleft()
            if todo[c]: goal = c; break
            for o, n in g[c].items():
                if n not in prev: prev[n] = (c, o); q.append(n)
        if goal is None: break
        path = []
        c = goal
        while prev[c]: path.append((prev[c][1], c)); c = prev[c][0]
        out += reversed(path); k = goal
    return out, len(g), sum(map(len, g.values()))
