"""Running TLC on the modules of /verif/spec with constants given as TLA+ expressions."""
import json, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')


class ToolError(Exception):
    pass


def literal(v):
    return re.fullmatch(r'\d+|TRUE|FALSE|"[^"]*"', v) is not None


class TlcResult:
    def __init__(self):
        self.states = 0          # distinct states
        self.transitions = 0     # states generated
        self.lines = []          # emitted JSON strings
        self.ok = False
        self.violated = None
        self.output = ''
        self.wall = 0.0
        self.name = ''
        self.traces = 0
        self.diameter = 0


def run_tlc(module, consts, work, name, invariants=(), spec=None, init=None, nxt=None, props=(),
            constraint=None, action_constraint=None, view=None, postcondition=None,
            workers=2, simulate=None, seed=1, depth=None, timeout=600, heap='2g', extra=(),
            coverage=False, deque=False, defs=''):
    """Runs TLC; consts maps constant names to TLA+ expressions. Returns a TlcResult.

    Raises ToolError when TLC itself fails (parse error, evaluation error, timeout)."""
    d = os.path.join(work, 'tlc-' + name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    mc = 'MC_' + re.sub(r'\W', '_', name)
    with open(os.path.join(d, mc + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n' % (mc, module))
        for k, v in consts.items():
            if not literal(v):
                f.write('const_%s == %s\n' % (k, v))
        f.write(defs + '\n====\n')
    with open(os.path.join(d, mc + '.cfg'), 'w') as f:
        if spec:
            f.write('SPECIFICATION %s\n' % spec)
        else:
            f.write('INIT %s\nNEXT %s\n' % (init or 'Init', nxt or 'Next'))
        if consts:
            f.write('CONSTANTS\n')
            for k, v in consts.items():
                f.write('  %s = %s\n' % (k, v) if literal(v) else '  %s <- const_%s\n' % (k, k))
        for i in invariants:
            f.write('INVARIANT %s\n' % i)
        for i in props:
            f.write('PROPERTY %s\n' % i)
        if constraint:
            f.write('CONSTRAINT %s\n' % constraint)
        if action_constraint:
            f.write('ACTION_CONSTRAINT %s\n' % action_constraint)
        if view:
            f.write('VIEW %s\n' % view)
        if postcondition:
            f.write('POSTCONDITION %s\n' % postcondition)
        f.write('CHECK_DEADLOCK FALSE\n')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d]
    if deque:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
            'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(seed)]
        if depth:
            cmd += ['-depth', str(depth)]
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(extra) + ['-config', mc + '.cfg', mc + '.tla']
    t0 = time.time()
    out_path = os.path.join(d, 'out.txt')
    with open(out_path, 'w') as out:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on %s after %ds (%s)' % (name, timeout, out_path))
    res = TlcResult()
    res.name = name
    res.wall = time.time() - t0
    other = []
    with open(out_path) as f:
        for line in f:
            if line.startswith('"@@'):
                res.lines.append(json.loads(line)[2:])
            else:
                other.append(line)
    res.output = ''.join(other)
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', res.output)
    if m:
        res.transitions, res.states = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'(\d+) states checked', res.output)
    if simulate and m:
        res.transitions = max(res.transitions, int(m[-1]))
        res.states = res.transitions
    m = re.findall(r'depth of the complete state graph search is (\d+)', res.output)
    if m:
        res.diameter = int(m[-1])
    v = re.search(r'(?:Invariant|Action property|Temporal properties?|property) (\S*) ?(?:is|was|were) violated|Temporal properties were violated', res.output)
    if rc == 0:
        res.ok = True
    elif v or rc in (12, 13):
        res.violated = v.group(0) if v else 'property violated'
    elif 'POSTCONDITION' in res.output or 'ostcondition' in res.output:
        res.violated = 'postcondition violated'
    else:
        raise ToolError('TLC failed on %s (exit %d), see %s:\n%s' % (name, rc, out_path, res.output[-3000:]))
    return res
