"""Running TLC and reading its results."""
import json, os, re, shutil, subprocess, tempfile, time
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TLCError(Exception): pass

def cfg_value(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, (set, frozenset)): return '{%s}' % ', '.join(cfg_value(x) for x in sorted(v))
    if isinstance(v, int): return str(v)
    return '"%s"' % v

def run(module, consts=None, spec='Spec', invariants=(), properties=(), view=None, action_constraint=None,
        constraint=None, postcondition=None, files=None, workers=1, deadlock=False, timeout=600, extra=(), heap='4g',
        simulate=None):
    """Runs TLC in a scratch copy of spec/.  files: name -> text or object (as
    JSON) put beside the module.  Returns dict(ok, out, states, distinct, depth,
    violated, wall)."""
    d = tempfile.mkdtemp(prefix='tlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'): shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), 'w') as f:
                if isinstance(t, str): f.write(t)
                else: json.dump(t, f)
        c = ['SPECIFICATION %s' % spec]
        for k, v in (consts or {}).items(): c.append('CONSTANT %s = %s' % (k, cfg_value(v)))
        c += ['INVARIANT %s' % i for i in invariants] + ['PROPERTY %s' % p for p in properties]
        if view: c.append('VIEW %s' % view)
        if action_constraint: c.append('ACTION_CONSTRAINT %s' % action_constraint)
        if constraint: c.append('CONSTRAINT %s' % constraint)
        if postcondition: c.append('POSTCONDITION %s' % postcondition)
        c.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
        with open(os.path.join(d, 'run.cfg'), 'w') as f: f.write('\n'.join(c) + '\n')
        cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-Xss64m', '-Xmx%s' % heap, '-cp', CP, 'tlc2.TLC', '-config', 'run.cfg',
               '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE'] + list(extra)
        if simulate: cmd += simulate
        cmd.append(module + '.tla')
        t0 = time.time()
        env = dict(os.environ); env.pop('JAVA_TOOL_OPTIONS', None)
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise TLCError('TLC timed out on %s' % module)
        out = p.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        dep = re.search(r'depth of the complete state graph search is (\d+)', out)
        viol = re.findall(r'(?:Invariant|Action property|Temporal property|Postcondition|PostCondition) ?(\w*) (?:is|was|were) violated|Error: (.*)', out)
        ok = p.returncode == 0
        if not ok and not re.search(r'is violated|was violated|were violated|Assumption', out):
            raise TLCError('TLC failed on %s (%d):\n%s' % (module, p.returncode, out[-4000:]))
        return dict(ok=ok, out=out, rc=p.returncode, states=int(m[1]) if m else 0, distinct=int(m[2]) if m else 0,
                    depth=int(dep[1]) if dep else 0, violated=viol, wall=time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def printed(out, tag):
    """JSON values printed as PrintT("TAG " \\o ToJson(v))."""
    pre = '"%s ' % tag
    for line in out.splitlines():
        if line.startswith(pre): yield json.loads(json.loads(line)[len(tag) + 1:])
