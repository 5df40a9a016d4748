"""W01, W02: the command line (spec/Build, Watch)."""
import json, random
from vlib import *

TEMPLATE = REPO + '/crates/vertigo-cli/src/new/template'


def outcome(c, rows):
    for r in rows:
        c.violation(json.dumps(r['bad'][0])[:900], dict(mismatch=r['bad'], scenario=r['scenario']))


def replay(c, script, args, path, st, env=None):
    c.model(st)
    try:
        rows, summ = node_parallel(c.s, script, args, path, timeout=3000 if THOROUGH else 800, env=env)
    except Hang as e:
        c.violation('hang: %s' % e, dict(file=path))
        return
    outcome(c, rows)
    c.add_cov(states=st['states'], steps=summ['steps'], traces_validated_against_impl=summ['scenarios'])
    c.coverage['builds'] = c.coverage.get('builds', 0) + summ['builds']
    acts = c.coverage.setdefault('actions', {})
    for a, n in summ.get('acts', {}).items():
        acts[a] = acts.get(a, 0) + n
    if 'samples' not in c.coverage:
        with open(path) as f:
            c.coverage['samples'] = [json.loads(f.readline())]


def includes(c):
    """include_static! with the real compiler: what the module names is there, with the content of the file (spec/Build: Compile)."""
    path, st = generate(c.s, 'incl', 'IncludeGen', dict(Steps=6), 1, 20, ['Good'], procs=1, seed=SEED + 9700)
    c.model(st)
    with open(path) as f:
        sc = json.loads(f.readline())
    app = c.s.path('app')
    os.makedirs(app + '/src/deep/er')
    for n in ['Cargo.toml', 'Cargo.lock']:
        with open(VERIF + '/tiny/' + n) as f, open(app + '/' + n, 'w') as g:
            g.write(f.read().replace('"/repo/', '"%s/' % REPO).replace('name = "tiny"', 'name = "incl"'))
    target = BUILD + '/rig'
    out = target + '/wasm32-unknown-unknown/release'
    for step, h in enumerate(sc['steps']):
        for n, x in h['files'].items():
            with open(app + '/src/' + n, 'wb') as f:
                f.write(x.encode('utf-8') * 3)
        names = sorted(h['files'])
        with open(app + '/src/lib.rs', 'w') as f:
            f.write('use vertigo::{dom, main, include_static, DomNode};\n#[main]\nfn app() -> DomNode {\n    dom! { <html><body>%s</body></html> }\n}\n' %
                    ''.join('<p id={concat!("@%d=", include_static!("%s"), "@")} />' % (i, n) for i, n in enumerate(names)))
        try:
            cargo(['build', '--release', '--offline', '--target', 'wasm32-unknown-unknown'], app, target, extra={'VERTIGO_PUBLIC_PATH': h['pub']})
        except ToolError as e:
            c.violation('an application with included files does not compile', dict(step=h))
            return
        with open(out + '/incl.wasm', 'rb') as f:
            code = f.read()
        urls = {}
        for i, n in enumerate(names):
            m = re.search(rb'@%d=([^@]*)@' % i, code)
            want = (h['files'][n].encode('utf-8')) * 3
            u = m.group(1).decode() if m else None
            urls[n] = u
            base = n.split('/')[-1]
            stem, _, ext = base.rpartition('.')
            ok = u is not None and u.startswith(h['pub'] + '/' + stem + '.') and u.endswith('.' + ext)
            p = out + '/static/included/' + u[len(h['pub']) + 1:] if ok else ''
            if not ok or not os.path.exists(p) or open(p, 'rb').read() != want:
                c.violation('include_static!("%s") gives %s, where its content is not' % (n, u), dict(step=h, url=u))
                return
        for a in names:
            for b in names:
                same = h['files'][a] == h['files'][b] and a.split('/')[-1] == b.split('/')[-1]
                if (urls[a] == urls[b]) != same:
                    c.violation('the addresses of %s and %s' % (a, b), dict(step=h, urls=urls))
                    return
        c.add_cov(steps=1, included_files=len(names))


def check(prop):
    c = Check(prop, 'model_checking')
    cli = build_cli()
    if prop == 'W01':
        for place in ['root', 'sub', 'else']:
            path, st = enumerate_model(c.s, 'mc-' + place, 'BuildMC', dict(Depth=5 if THOROUGH else 4 if place == 'root' else 3, Place=place), ['Good'], timeout=1500)
            replay(c, 'run_build.mjs', [cli, TEMPLATE], path, st)
        path, st = generate(c.s, 'gen', 'BuildGen', dict(Steps=20), 8000 if THOROUGH else 500, 40, ['Good'], seed=SEED + 9600)
        replay(c, 'run_build.mjs', [cli, TEMPLATE], path, st)
        includes(c)
        return c.finish()
    tiny = build_tiny()
    c.model(model_check(c.s, 'mc', 'WatchMC', dict(MaxEdits=4 if THOROUGH else 3, Tabs=['a', 'b']), ['Sound'], properties=['Settles', 'Follows'], timeout=1500))
    c.model(model_check(c.s, 'race', 'WatchRace', dict(MaxEdits=4 if THOROUGH else 3, Waits=True), ['Consistent'], timeout=1500))
    # why a superseded build is waited for
    c.model(model_check(c.s, 'race0', 'WatchRace', dict(MaxEdits=2, Waits=False), ['Consistent'], expect='Consistent'))
    for opt in ([False, True] if THOROUGH else [False]):
        path, st = enumerate_model(c.s, 'enum%d' % opt, 'WatchEnum', dict(Depth=6 if THOROUGH else 4, Opt=opt), ['Sound'])
        replay(c, 'run_watch.mjs', [cli, tiny], path, st)
    path, st = generate(c.s, 'gen', 'WatchGen', dict(Steps=20), 4000 if THOROUGH else 260, 80, ['Sound'], seed=SEED + 9800)
    replay(c, 'run_watch.mjs', [cli, tiny], path, st)
    return c.finish()
