"""Shared machinery of the checks: building harnesses from /repo's working tree, running them,
running TLC, reporting."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
REPLAY = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = min(8, os.cpu_count() or 4)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception):
    """The machinery itself failed: neither 0 nor 1."""

def log(*a):
    print(*a, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def tree_hash(d, exts=('.h', '.hpp', '.cpp', '.inl')):
    h = hashlib.sha256()
    for r, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                h.update(f.encode()); h.update(open(os.path.join(r, f), 'rb').read())
    return h.hexdigest()

CONFIGS = {
    'sse2':   ['-O2'],
    'scalar': ['-O2', '-DJS_DISABLE_SIMD'],
    'sse42':  ['-O2', '-msse4.2'],
    'avx2':   ['-O2', '-mavx2', '-mbmi'],
    'san':    ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
    'sanscalar': ['-O1', '-g', '-DJS_DISABLE_SIMD', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
    'asan':   ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'],
}
def have_avx2():
    try:
        return ' avx2' in open('/proc/cpuinfo').read()
    except OSError:
        return False

class Ctx:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time(); self.cov = {}; self.violations = []; self.known = []
        self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []; self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix='vchk-%s-' % pid)
        os.makedirs(BUILD, exist_ok=True); os.makedirs(REPLAY, exist_ok=True); os.makedirs(EVID, exist_ok=True)
        self.lock = threading.Lock()
        self.models = []
    def path(self, name):
        return os.path.join(self.scratch, name)
    def add(self, key, n):
        with self.lock: self.cov[key] = self.cov.get(key, 0) + n
    def violation(self, what, replay):
        """replay: a JSON-able description of the failing case."""
        with self.lock:
            n = len(self.violations)
            p = os.path.join(REPLAY, '%s-%d.json' % (self.pid, n))
            json.dump(dict(property=self.pid, what=what, case=replay), open(p, 'w'), indent=1)
            self.violations.append((what, p))
            if n < 5: log('  violation: %s' % what)
    def finish(self, level='model_checking'):
        self.cov['states'] = self.states; self.cov['transitions'] = self.transitions
        self.cov['traces_validated_against_impl'] = self.traces
        self.cov['samples'] = self.samples[:6]
        self.cov['models'] = self.models
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1)
        for k in self.known: log('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            log('VIOLATION property=%s replay=%s' % (self.pid, self.violations[0][1]))
            return 1
        log('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0

# ------------------------------------------------------------------ building
def build(ctx, src, config='sse2', std='c++17', extra=(), gen=None, cxx='g++'):
    """Compile harness/<src> against /repo/include.  gen: dict of generated headers."""
    flags = ['-std=' + std, '-w'] + CONFIGS[config] + list(extra)
    key = sha(tree_hash(os.path.join(REPO, 'include')), tree_hash(HARN), src, ' '.join(flags), cxx, json.dumps(gen or {}, sort_keys=True))
    out = os.path.join(BUILD, '%s-%s-%s' % (os.path.splitext(src)[0], config, key))
    if os.path.exists(out): return out
    gd = ctx.path('gen-' + key); os.makedirs(gd, exist_ok=True)
    for n, t in (gen or {}).items(): open(os.path.join(gd, n), 'w').write(t)
    tmp = out + '.tmp%d' % os.getpid()
    p = subprocess.run([cxx] + flags + ['-I', gd, '-I', HARN, '-I', os.path.join(REPO, 'include'), os.path.join(HARN, src), '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError('cannot build %s (%s):\n%s' % (src, config, p.stdout[-3000:]))
    os.replace(tmp, out)
    return out

class RunResult:
    pass
def run_harness(ctx, exe, args, env=None, stdin=None, timeout=700):
    """Returns lines of stdout; a crash or hang of the code under test is in .crash."""
    e = dict(os.environ); e.update(env or {})
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    r = RunResult()
    try:
        p = subprocess.run([exe] + [str(a) for a in args], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
        r.rc = p.returncode; so = p.stdout; se = p.stderr
    except subprocess.TimeoutExpired as x:
        raise CheckError('harness %s did not finish in %ss' % (exe, timeout))
    r.lines = so.decode('utf-8', 'replace').splitlines()
    r.err = se.decode('utf-8', 'replace')
    r.crash = None
    if r.rc != 0:
        m = re.search(r'^(CRASH[-A-Z]*|HANG) (.*)$', r.err, re.M)
        if m: r.crash = (m.group(1), m.group(2))
        elif r.rc < 0: r.crash = ('SIGNAL %d' % -r.rc, '')
        elif 'AddressSanitizer' in r.err or 'runtime error' in r.err: r.crash = ('SANITIZER', r.err[:500])
        else: raise CheckError('harness %s exited with %d: %s' % (exe, r.rc, r.err[-2000:]))
    return r

# ------------------------------------------------------------------ TLC
def tlc(ctx, module, cfg, env=None, workers=None, timeout=800, heap='4g', extra=(), expect_violation=False, name=None):
    """Runs TLC; returns dict(ok, states, distinct, violated, state(dict of text), out)."""
    md = tempfile.mkdtemp(prefix='tlc-', dir=ctx.scratch)
    e = dict(os.environ); e.update(env or {})
    cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + md, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers or NCPU),
           '-metadir', md, '-config', cfgp] + list(extra) + [os.path.join(SPEC, module)]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError('TLC on %s did not finish in %ss' % (module, timeout))
    finally:
        pass
    out = p.stdout
    res = dict(out=out, rc=p.returncode, secs=round(time.time() - t, 1))
    m = re.findall(r'^([\d,]+) states generated, ([\d,]+) distinct states found', out, re.M)
    res['states'] = int(m[-1][1].replace(',', '')) if m else 0
    res['generated'] = int(m[-1][0].replace(',', '')) if m else 0
    v = re.search(r'(?:Invariant|Temporal properties|Action property|property) ?(\S*) (?:is|were) violated', out)
    res['violated'] = None
    if 'is violated' in out or 'were violated' in out:
        v = re.search(r'(?:Invariant|Action property|Temporal property) (\S+) is violated', out)
        res['violated'] = v.group(1) if v else 'property'
    res['ok'] = p.returncode == 0 and 'No error has been found' in out
    shutil.rmtree(md, ignore_errors=True)
    if not res['ok'] and not res['violated']:
        if expect_violation and 'Assumption' in out and 'is false' in out:
            res['violated'] = 'ASSUME'
        else:
            brief = '\n'.join(l for l in out.splitlines() if not re.match(r'(Parsing file|Semantic processing|Linting|Running|TLC2|\s*$)', l))
            raise CheckError('TLC failed on %s %s:\n%s' % (module, cfg, brief[-4000:]))
    with ctx.lock:
        ctx.models.append(dict(module=module, cfg=os.path.basename(cfgp), name=name or '', distinct=res['states'], generated=res['generated'], secs=res['secs'],
                               result='ok' if res['ok'] else 'violated ' + res['violated']))
    return res

def model_check(ctx, module, cfg, **kw):
    """A specification-level property: a violation here is a defect of the model, not of the code."""
    r = tlc(ctx, module, cfg, **kw)
    if not r['ok']:
        raise CheckError('specification %s (%s) violates %s:\n%s' % (module, cfg, r['violated'], r['out'][-4000:]))
    ctx.states += r['states']; ctx.transitions += r['generated']
    return r

def validate(ctx, module, cfg, recs, workers=None, timeout=800, heap='6g', chunk=None, env=None):
    """Trace validation: every record against the specification.  Returns the list of rejected record indices
    (first one found per TLC run)."""
    if not recs: return []
    bad = []
    # several TLC processes: reading the records is sequential in each
    np = 1 if len(recs) < 1500 else 4
    chunk = min(chunk or len(recs), -(-len(recs) // np))
    def go(lo):
        part = recs[lo:lo + chunk]
        p = ctx.path('recs-%d-%d.ndjson' % (threading.get_ident() % 100000, lo))
        with open(p, 'w') as f:
            for r in part: f.write(json.dumps(r) + '\n')
        r = tlc(ctx, module, cfg, env=dict(env or {}, RECS=p), workers=workers or (NCPU if np == 1 else 3), timeout=timeout, heap=heap if np == 1 else '4g', expect_violation=True)
        with ctx.lock:
            ctx.states += r['states']; ctx.transitions += r['generated']
        os.unlink(p)
        if r['ok']:
            with ctx.lock: ctx.traces += len(part)
        else:
            m = re.findall(r'^(?:/\\ )?i = (\d+)', r['out'], re.M)
            if not m: raise CheckError('cannot find the rejected record:\n' + r['out'][-3000:])
            bad.append((lo + int(m[-1]) - 1, r['violated']))
    pmap(go, range(0, len(recs), chunk), np)
    bad.sort()
    if bad: ctx.last_violated = bad[0][1]
    return [x for x, _ in bad]

def bl(h):
    """hex -> list of byte values"""
    return [] if h == '-' else list(bytes.fromhex(h))

def pmap(fn, items, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
