"""Shared machinery of the checks: building the rig, running TLC, replaying, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
WORK = os.path.join(VERIF, '.work')
SPEC = os.path.join(VERIF, 'spec')
JOBS = 7
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'


class ToolError(Exception):
    pass


class Hang(Exception):
    """The code under test did not come back (or took its process down)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=600, env=None, cwd=None, input=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e,
                          cwd=cwd, input=input)


CARGO_ENV = {'RUSTUP_TOOLCHAIN': 'nightly-2024-07-01', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never',
             'RUSTC_WRAPPER': '', 'HOME': '/root'}


def cargo(args, cwd, target, timeout=1500, extra=None):
    env = {k: v for k, v in os.environ.items() if k not in ('RUSTC', 'RUSTFLAGS', 'CARGO_BUILD_TARGET')}
    env.update(CARGO_ENV)
    env['CARGO_TARGET_DIR'] = target
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env.update(extra or {})
    t = time.time()
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    if p.returncode != 0:
        log(p.stdout[-4000:])
        raise ToolError('cargo ' + ' '.join(args) + ' failed')
    log('built', ' '.join(args[:4]), 'in %.1fs' % (time.time() - t))


def build_rig():
    cargo(['build', '--offline', '--target', 'wasm32-unknown-unknown'], os.path.join(VERIF, 'rig'), BUILD + '/rig')
    return BUILD + '/rig/wasm32-unknown-unknown/debug/rig.wasm'


def build_templates(path):
    """The application made of the templates in path; None if the compiler refuses them."""
    try:
        cargo(['build', '--offline', '--target', 'wasm32-unknown-unknown'], os.path.join(VERIF, 'tmpl'), BUILD + '/rig', extra={'TEMPLATES': path})
    except ToolError as e:
        log(e)
        return None
    out = path + '.wasm'
    shutil.copy(BUILD + '/rig/wasm32-unknown-unknown/debug/tmpl.wasm', out)
    return out


def build_tiny():
    """The smallest application, which shows a text that can be replaced in the compiled module."""
    out = BUILD + '/rig/wasm32-unknown-unknown/release/tiny.wasm'
    # another crate of this name may have been compiled there
    cargo(['build', '--release', '--offline', '--target', 'wasm32-unknown-unknown'], os.path.join(VERIF, 'tiny'), BUILD + '/rig')
    with open(out, 'rb') as f:
        if f.read().count(b'@VERSION-000000@') != 1:
            raise ToolError('tiny.wasm can not be patched')
    return out


def build_cli():
    """The server (vertigo serve)."""
    lock = REPO + '/Cargo.lock'     # ignored by git, and needed offline
    if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', lock)
    cargo(['build', '--offline', '-p', 'vertigo-cli', '--config', 'profile.dev.package."*".opt-level=2', '--config', 'profile.dev.debug="line-tables-only"'],
          REPO, BUILD + '/cli')
    return BUILD + '/cli/debug/vertigo'


class Scratch:
    """A work directory of one check, emptied at the start."""

    def __init__(self, name):
        self.dir = os.path.join(WORK, name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, *p):
        return os.path.join(self.dir, *p)


_spec_files = None


def tlc(scratch, tag, module, cfg, args, timeout, heap='3g'):
    """Run TLC on module with the given cfg text in a private copy of spec/. Returns its output."""
    d = scratch.path('tlc-' + tag)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, 'run.cfg'), 'w') as f:
        f.write(cfg)
    tmp = os.path.join(d, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    env = {'JAVA_TOOL_OPTIONS': '-Djava.io.tmpdir=%s -Xmx%s -XX:+UseParallelGC' % (tmp, heap)}
    out = os.path.join(d, 'out.txt')
    cmd = ['tlc', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'), '-config', 'run.cfg'] + args + [module + '.tla']
    e = dict(os.environ)
    e.update(env)
    with open(out, 'w') as f:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return rc, open(out, errors='replace').read()


def consts(d):
    def val(v):
        if isinstance(v, bool):
            return 'TRUE' if v else 'FALSE'
        if isinstance(v, str):
            return '"%s"' % v
        if isinstance(v, (list, tuple)):
            return '{' + ', '.join(val(x) for x in v) + '}'
        return str(v)
    return 'CONSTANTS\n' + '\n'.join('  %s = %s' % (k, val(v)) for k, v in d.items()) + '\n'


def model_check(scratch, tag, module, constants, invariants=(), properties=(), extra='', spec='Spec', timeout=600,
                workers=JOBS, expect=None, simulate=None):
    """Exhaustive TLC run. Raises ToolError unless the model is error free (or, with expect, violates exactly that)."""
    cfg = 'SPECIFICATION %s\n' % spec + consts(constants) + extra + 'CHECK_DEADLOCK FALSE\n'
    if invariants:
        cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    if properties:
        cfg += 'PROPERTIES ' + ' '.join(properties) + '\n'
    t = time.time()
    args = ['-workers', str(workers)]
    if simulate:
        args += ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(SEED)]
    rc, out = tlc(scratch, tag, module, cfg, args, timeout, heap='12g')
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ''))
    m2 = re.findall(r'(\d+) states generated (\d+) distinct states found (\d+) states left', out.replace(',', ''))
    ok = 'Model checking completed. No error has been found' in out
    viol = re.findall(r'(?:Invariant|property) (\w+) is violated|Temporal properties were violated|Action property (\w+)', out)
    res = dict(module=module, constants=constants, states=int(m2[-1][0]) if m2 else 0,
               distinct=int(m2[-1][1]) if m2 else 0, wall_s=round(time.time() - t, 1),
               invariants=list(invariants), properties=list(properties))
    if expect:
        if expect not in out or 'is violated' not in out:
            raise ToolError('TLC: %s should violate %s\n%s' % (tag, expect, out[-2000:]))
        res['violates'] = expect
        return res
    if not ok:
        raise ToolError('TLC on %s (%s): rc=%s\n%s' % (module, tag, rc, out[-3000:]))
    log('TLC %s %s: %d distinct states, %.1fs' % (module, tag, res['distinct'], res['wall_s']))
    return res


def generate(scratch, tag, module, constants, num, depth, invariants=(), procs=JOBS, timeout=600, spec='Spec', seed=None):
    """Behaviours written by the model itself ("@@"-lines of a simulation run). Returns (file, stats)."""
    cfg = 'SPECIFICATION %s\n' % spec + consts(constants) + 'CHECK_DEADLOCK FALSE\n'
    if invariants:
        cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    seed = SEED if seed is None else seed
    t = time.time()
    per = max(1, (num + procs - 1) // procs)

    def one(i):
        return tlc(scratch, '%s-%d' % (tag, i), module, cfg,
                   ['-workers', '1', '-simulate', 'num=%d' % per, '-depth', str(depth), '-seed', str(seed * 1000 + i)],
                   timeout, heap='2g')
    path = scratch.path(tag + '.jsonl')
    n = 0
    states = 0
    with cf.ThreadPoolExecutor(procs) as ex, open(path, 'w') as f:
        for i, (rc, out) in enumerate(ex.map(one, range(procs))):
            if 'Finished in' not in out or 'Error:' in out or rc == 'timeout':
                text = '\n'.join(l for l in out.split('\n') if not l.startswith('"@@'))
                at = max(text.find('Error:'), 0)
                raise ToolError('TLC generation %s-%d failed rc=%s\n%s\n...\n%s' % (tag, i, rc, text[at:at + 800], text[-2500:]))
            for l in out.split('\n'):
                if l.startswith('"@@'):
                    f.write(json.loads(l)[2:] + '\n')
                    n += 1
            m = re.findall(r'number of states generated: ([\d,]+)', out)
            states += int(m[-1].replace(',', '')) if m else 0
    if n == 0:
        raise ToolError('TLC generated no behaviour for ' + tag)
    st = dict(module=module, constants=constants, behaviours=n, states=states, wall_s=round(time.time() - t, 1),
              invariants=list(invariants))
    log('TLC generated %d behaviours (%s) in %.1fs' % (n, tag, st['wall_s']))
    return path, st


def node(scratch, script, args, timeout=600, env=None):
    """Run a host script; returns (list of result objects, summary)."""
    try:
        p = run(['node', '--no-warnings', os.path.join(VERIF, 'host', script)] + args, timeout=timeout, env=env, cwd=scratch.dir)
    except subprocess.TimeoutExpired:
        raise Hang('%s %s did not finish in %d s' % (script, args[-1], timeout))
    rows = []
    for l in p.stdout.split('\n'):
        if l.startswith('{'):
            rows.append(json.loads(l))
    if p.returncode < 0 or p.returncode == 134:
        raise Hang('%s died with %s: %s' % (script, p.returncode, p.stderr[-800:]))
    if p.returncode != 0 or not rows or not rows[-1].get('summary'):
        raise ToolError('host %s failed rc=%s\n%s\n%s' % (script, p.returncode, p.stdout[-1500:], p.stderr[-3000:]))
    return rows[:-1], rows[-1]


def enumerate_model(scratch, tag, module, constants, invariants=(), extra='', spec='Spec', timeout=900, workers=JOBS):
    """Exhaustive TLC run of a model that writes its behaviours itself. Returns (file, stats)."""
    cfg = 'SPECIFICATION %s\n' % spec + consts(constants) + extra + 'CHECK_DEADLOCK FALSE\n'
    if invariants:
        cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    t = time.time()
    rc, out = tlc(scratch, tag, module, cfg, ['-workers', str(workers)], timeout, heap='12g')
    if 'Model checking completed. No error has been found' not in out:
        raise ToolError('TLC on %s (%s): rc=%s\n%s' % (module, tag, rc, '\n'.join(l for l in out.split('\n') if not l.startswith('"@@'))[-3000:]))
    n = 0
    path = scratch.path(tag + '.jsonl')
    with open(path, 'w') as f:
        for l in out.split('\n'):
            if l.startswith('"@@'):
                f.write(json.loads(l)[2:] + '\n')
                n += 1
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '').replace(' generated ', ' generated, '))
    m = m or re.findall(r'(\d+) states generated, (\d+) distinct', re.sub(r'(\d),(\d)', r'\1\2', out))
    st = dict(module=module, constants=constants, behaviours=n, states=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0,
              wall_s=round(time.time() - t, 1), invariants=list(invariants), exhaustive=True)
    if n == 0:
        raise ToolError('TLC enumerated nothing for ' + tag)
    log('TLC enumerated %d behaviours, %d states (%s) in %.1fs' % (n, st['distinct'], tag, st['wall_s']))
    return path, st


def build_bundle():
    """The browser driver as built from the TypeScript sources (the committed wasm_run.js is the other candidate)."""
    d = REPO + '/crates/vertigo/src/driver_module/'
    out = BUILD + '/js/bundle.js'
    os.makedirs(BUILD + '/js', exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    p = run(['/opt/veriftools/node/node_modules/.bin/esbuild', d + 'src_js/index.ts', '--bundle', '--format=esm', '--log-level=error', '--outfile=' + tmp])
    if p.returncode != 0:
        raise ToolError('esbuild: ' + p.stderr[-2000:])
    os.replace(tmp, out)
    return out


COMMITTED_JS = REPO + '/crates/vertigo/src/driver_module/wasm_run.js'


def split_file(path, parts):
    lines = open(path).read().split('\n')
    lines = [l for l in lines if l]
    out = []
    for i in range(parts):
        chunk = lines[i::parts]
        if chunk:
            p = '%s.%d' % (path, i)
            with open(p, 'w') as f:
                f.write('\n'.join(chunk) + '\n')
            out.append(p)
    return out


def node_parallel(scratch, script, fixed_args, path, procs=JOBS, timeout=800, env=None):
    rows, sums = [], []
    parts = split_file(path, procs)
    with cf.ThreadPoolExecutor(procs) as ex:
        for r, s in ex.map(lambda p: node(scratch, script, fixed_args + [p], timeout, env), parts):
            rows += r
            sums.append(s)
    tot = {}
    for s in sums:
        merge(tot, s)
    return rows, tot


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, bool):
            a[k] = v
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        else:
            a[k] = v


KNOWN = os.path.join(VERIF, 'known_findings.json')


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get('property') == prop and k.get('status') == 'known']


class Check:
    """Collects what a check explored and its violations; writes evidence and the verdict."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.coverage = {}
        self.violations = []
        self.known_seen = {}
        self.notes = []
        self.s = Scratch(prop)

    def add_cov(self, **kw):
        merge(self.coverage, kw)

    def model(self, res):
        self.coverage.setdefault('models', []).append(res)

    def violation(self, what, data):
        """data: JSON-able replay. Known findings are recognised by their 'match' substring in what."""
        for k in known_findings(self.prop):
            if k['match'] in what:
                self.known_seen.setdefault(k['match'], k)
                return
        self.violations.append((what, data))

    def finish(self):
        wall = round(time.time() - self.t0, 1)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.coverage, wall_s=wall)
        if self.notes:
            ev['notes'] = self.notes
        ev['violations'] = len(self.violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in known_findings(self.prop):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.violations:
            rd = os.path.join(WORK, 'replay')
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, '%s-%d.json' % (self.prop, SEED))
            with open(p, 'w') as f:
                json.dump([dict(what=w, data=d) for w, d in self.violations[:20]], f, indent=1, default=str)
            for w, _ in self.violations[:5]:
                log('violation:', w[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            sys.stdout.flush()
            return 1
        log('%s: held on everything explored (%.1fs)' % (self.prop, wall))
        return 0
