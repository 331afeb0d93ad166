"""Shared driver parts: seeds, tiers, evidence, known findings, verdicts."""
import json, os, signal, sys, time, random
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NPROC = max(1, min(8, os.cpu_count() or 1))

def rng(*salt): return random.Random('%s/%s' % (SEED, '/'.join(map(str, salt))))

class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.viol = []          # (key, message, data)
        self.cov = {}
        self.assumptions = []
        kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
        self.known = {f['key']: f for f in kf['findings'] if f['property'] == pid}
    def violation(self, key, msg, data=None):
        self.viol.append((key, msg, data))
    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool): self.cov[k] = self.cov.get(k, 0) + v
            else: self.cov[k] = v
    def tlc(self, r):
        """accounts for a TLC run of a specification (not a trace check)"""
        self.add(states=r['distinct'], transitions=r['states'])
    def finish(self):
        known, new = {}, []
        for v in self.viol:
            (known.setdefault(v[0], v) if v[0] in self.known else new.append(v))
        for k, v in sorted(known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]['what']))
        for c in ('states', 'transitions', 'traces_validated_against_impl'): self.cov.setdefault(c, 0)
        self.cov.setdefault('samples', [])
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        if new:
            d = os.path.join(VERIF, 'out'); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, 'replay-%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, violations=[dict(key=k, what=m, data=x) for k, m, x in new[:50]]), f, indent=1, default=str)
            for k, m, x in new[:8]: print('  %s: %s' % (k, m))
            if len(new) > 8: print('  ... %d in all' % len(new))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush(); return 1
        print('OK property=%s %s wall=%.1fs' % (self.pid, {k: v for k, v in self.cov.items() if isinstance(v, int)}, time.time() - self.t0))
        sys.stdout.flush(); return 0

class NoAnswer(BaseException): pass
class Hangs(Exception): pass
def watch(seconds=None):
    """Work that takes minutes of processor time where seconds are usual never ends.
    Where it stands then tells whether it is the library that does not return."""
    if TIER != 'quick': return
    def alarm(*_): raise NoAnswer('no answer')
    signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 240 if seconds is None else seconds, 5)
def _watched(a):
    fn, chunk = a
    watch()
    try: return fn(chunk)
    except NoAnswer as e:
        import traceback
        raise Hangs(traceback.format_exc())
    finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)
def parallel(fn, items, nproc=NPROC):
    """Runs fn(chunk) in forked processes over interleaved chunks; yields results."""
    import multiprocessing as mp
    items = list(items)
    if not items: return []
    n = min(nproc, len(items))
    chunks = [items[i::n] for i in range(n)]
    with mp.get_context('fork').Pool(n) as pool:
        return pool.map(_watched, [(fn, c) for c in chunks], chunksize=1)
