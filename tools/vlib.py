"""Shared machinery of the checks: build the harness against /repo's working
tree, run TLC on the specifications, drive and replay the real code, and judge
the recorded traces with the trace specifications."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    """The check could not do its work (exit 2)."""


class Violation(Exception):
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            if '/target/' in f:
                continue
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()[:16]


def build(profiles=('debug', 'release')):
    """The harness, built against the current tree; keyed by what was built."""
    harness = os.path.join(VERIF, 'harness')
    srcs = [os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'),
            os.path.join(harness, 'src'), os.path.join(harness, 'Cargo.toml')]
    key = tree_hash([s for s in srcs if os.path.exists(s)])
    top = os.path.join(BUILD, 'h-' + key)
    os.makedirs(BUILD, exist_ok=True)
    old = sorted((d for d in os.listdir(BUILD) if d.startswith('h-') and d != 'h-' + key),
                 key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in old[:-3]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    procs = {}
    for p in profiles:
        exe = os.path.join(top, p, 'harness')
        if os.path.exists(exe):
            continue
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(top, 'target-' + p), RUSTFLAGS='--cap-lints allow',
                   CARGO_NET_OFFLINE='true')
        cmd = ['cargo', 'build', '--offline', '--quiet'] + (['--release'] if p == 'release' else [])
        procs[p] = subprocess.Popen(cmd, cwd=harness, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for p, q in procs.items():
        out, _ = q.communicate(timeout=600)
        if q.returncode != 0:
            raise ToolError('building the harness failed (%s):\n%s' % (p, out.decode(errors='replace')[-4000:]))
        os.makedirs(os.path.join(top, p), exist_ok=True)
        made = os.path.join(top, 'target-' + p, p, 'harness')
        shutil.copy2(made, os.path.join(top, p, 'harness.tmp'))
        os.replace(os.path.join(top, p, 'harness.tmp'), os.path.join(top, p, 'harness'))
        shutil.rmtree(os.path.join(top, 'target-' + p), ignore_errors=True)
    return {p: os.path.join(top, p, 'harness') for p in profiles}


# ------------------------------------------------------------------ TLC
# seconds for one run of the model checker (a quick check has 900 in all)
LONG = 800 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 6000


class Tlc:
    """One run of the model checker."""

    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.ok = 'Model checking completed. No error has been found.' in out
        self.invariant = None
        m = re.search(r'Invariant (\w+) is violated', out)
        if m:
            self.invariant = m.group(1)
        self.deadlock = 'Deadlock reached' in out
        self.position = None
        m = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
        if m:
            self.position = int(m[-1])
        self.emitted = None

    def tail(self):
        keep = [x for x in self.out.splitlines() if not re.match(r'(Pars|Sema|Lint|Comput|"@)', x)]
        return '\n'.join(keep)[-3000:]


def tlc(scratch, module, cfg, env=None, workers=4, timeout=LONG, heap='3g', extra=()):
    """cfg: text of the configuration."""
    d = os.path.join(scratch, 'tlc-%s-%x' % (module, threading.get_ident() ^ time.monotonic_ns()))
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, module + '.cfg'), 'w') as fh:
        fh.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-noGenerateSpecTE', '-metadir', os.path.join(d, 'st'), '-config', module + '.cfg'] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    outp = os.path.join(d, 'out.txt')
    with open(outp, 'wb') as fh:
        q = subprocess.Popen(cmd, cwd=d, env=e, stdout=fh, stderr=subprocess.STDOUT)
        try:
            rc = q.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            q.kill()
            q.wait()
            raise ToolError('TLC on %s did not finish in %d s' % (module, timeout))
    with open(outp, encoding='utf-8', errors='replace') as fh:
        out = fh.read()
    r = Tlc(out, rc)
    shutil.rmtree(d, ignore_errors=True)
    return r


def emitted(run):
    """Behaviours printed by an Emit invariant (ToJson strings, quoted by TLC)."""
    seen, res = set(), []
    for line in sorted(run.out.splitlines()):
        if line.startswith('"@'):
            if line in seen:
                continue
            seen.add(line)
            res.append(json.loads(json.loads(line)[1:]))
    return res


# ------------------------------------------------------------------ driving
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive(exe, driver, prop, seed, n, tier, out, args=(), env=None, timeout=LONG // 2):
    """Record a trace of the real code; a crash or hang is a violation."""
    cmd = [exe, driver, prop, str(seed), str(n), tier, out] + list(args)
    e = dict(os.environ)
    e.update(env or {})

    def run(e):
        try:
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise ToolError('driver %s %s did not finish in %d s' % (driver, prop, timeout))
    q = run(e)
    if q.returncode == 0:
        return
    if q.returncode == 2:
        raise ToolError('driver %s: %s' % (driver, q.stderr.decode(errors='replace')))
    how = {97: 'the call did not return within 60 s', 98: 'panic outside a recorded call'}.get(
        q.returncode, 'the process died (%d)' % q.returncode)
    err = q.stderr.decode(errors='replace')[-2000:]
    e['CAREFUL'] = '1'
    q2 = run(e)
    pending = None
    if q2.returncode != 0 and os.path.exists(out + '.pending'):
        with open(out + '.pending', encoding='utf-8', errors='replace') as fh:
            pending = fh.read()
    raise Violation(how, {'kind': 'crash', 'how': how, 'stderr': err, 'call': pending, 'cmd': cmd,
                          'again': q2.returncode})


# ------------------------------------------------------------------ judging traces
def count_ops(path):
    ops, size = {}, 0
    with open(path, encoding='utf-8') as fh:
        for line in fh:
            m = re.match(r'\{"op":"([\w.]+)"', line)
            k = m.group(1) if m else '?'
            ops[k] = ops.get(k, 0) + 1
            size += 1
    return ops, size


def event_at(path, k, hist=False):
    """Event k (1-based); with hist, the history up to it."""
    with open(path, encoding='utf-8') as fh:
        lines = fh.read().split('\n')
    if not hist:
        return [json.loads(lines[k - 1])]
    a = k - 1
    while a > 0 and not lines[a].startswith('{"op":"start"'):
        a -= 1
    return [json.loads(x) for x in lines[a:k] if x]


def judge(scratch, module, prop, trace, hist, workers=4, timeout=LONG, consts='CONSTANT DepthLimit = 512\n', invs=None):
    """Ask TLC whether the recorded trace is one the specification allows."""
    if hist:
        cfg = 'SPECIFICATION Spec\n' + consts + ('INVARIANT %s\n' % ' '.join(invs) if invs else '')
    else:
        cfg = 'SPECIFICATION LSpec\n' + consts + 'INVARIANT Accept\nCHECK_DEADLOCK FALSE\n'
    r = tlc(scratch, module, cfg, env={'TRACE': trace, 'PROP': prop}, workers=workers, timeout=timeout, heap='5g')
    if r.ok:
        if not hist:
            with open(trace, 'rb') as fh:
                n = sum(1 for _ in fh)
            if r.distinct != n + min(n, 256):
                raise ToolError('TLC visited %d states for %d recorded calls in %s' % (r.distinct, n, module))
        return r
    if (r.invariant or r.deadlock) and r.position:
        ev = event_at(trace, r.position, hist)
        raise Violation('the recorded call is not one the specification allows',
                        {'kind': 'rejected', 'spec': module, 'position': r.position,
                         'why': r.invariant or 'no transition of the specification matches', 'events': ev})
    raise ToolError('TLC failed on %s:\n%s' % (module, r.tail()))
