"""S01-S06: the server (spec/Ssr, Routes, and the pages of spec/Page)."""
import json
from vlib import *

# behaviours of SsrGen: (pages, steps, profile, host options, quick, thorough)
GEN = {
    'S02': [(1, 14, 's02', {}, 2600, 24000), (2, 4, 'limit', dict(jobs=80, pace=200), 500, 4000)],
    'S03': [(3, 16, 's03', {}, 2200, 20000), (6, 40, 's03', {}, 300, 3000)],
    'S04': [(2, 8, 's04', {}, 2600, 24000)],
}
# documents of SsrPageGen: (profile, levels, steps, quick, thorough)
HTML = [('page', 3, 6, 2800, 30000), ('css', 3, 6, 1400, 12000), ('list', 3, 6, 1400, 12000), ('sus', 3, 6, 1400, 12000), ('page', 4, 12, 500, 6000)]
# pages taken over in the browser (S06): (profile, levels, steps, quick, thorough)
OVER = [('page', 3, 6, 1600, 16000), ('css', 3, 6, 700, 7000), ('list', 3, 6, 700, 7000), ('sus', 3, 6, 700, 7000), ('page', 4, 12, 250, 3000)]
INV = ['Confluent', 'OnceInv', 'CompleteInv', 'Sound']


def outcome(c, rows):
    for r in rows:
        c.violation(json.dumps(r['bad'][0])[:900], dict(mismatch=r['bad'], scenario=r['scenario']))


def replay(c, script, args, path, st):
    c.model(st)
    try:
        rows, summ = node_parallel(c.s, script, args, path, timeout=3000 if THOROUGH else 600)
    except Hang as e:
        c.violation('hang: %s' % e, dict(file=path))
        return
    outcome(c, rows)
    c.add_cov(states=st['states'], steps=summ['steps'], traces_validated_against_impl=summ['scenarios'] - summ.get('skipped', 0))
    acts = c.coverage.setdefault('actions', {})
    for a, n in summ.get('acts', {}).items():
        acts[a] = acts.get(a, 0) + n
    if 'samples' not in c.coverage:
        with open(path) as f:
            c.coverage['samples'] = [json.loads(f.readline())]


def routes(c, wasm, cli):
    path, st = enumerate_model(c.s, 'routes', 'Routes', dict(MaxLen=3), ['Good'], timeout=1500)
    c.model(st)
    by = {}
    with open(path) as f:
        for i, l in enumerate(f):
            d = json.loads(l)
            if 'samples' not in c.coverage and d['plain']['k'] == 'proxy':
                c.coverage['samples'] = [d]
            # pages are rendered for most of the paths
            if not THOROUGH and len(d['path']) > 2 and d['plain']['k'] == 'page' and (i + SEED) % 4:
                continue
            by.setdefault(json.dumps(d['config'], sort_keys=True), []).append(l)
    files = []
    for i, k in enumerate(sorted(by)):
        files.append(c.s.path('config%d' % i))
        with open(files[-1], 'w') as f:
            f.write(''.join(by[k]))

    def one(p):
        try:
            return node(c.s, 'run_routes.mjs', [wasm, cli, json.dumps(dict(all=3 if THOROUGH else 2)), p], 2500 if THOROUGH else 500)
        except Hang as e:
            return [dict(bad=[dict(what='hang: %s' % e)], scenario=json.loads(open(p).readline())['config'])], {}
    kinds = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rows, summ in ex.map(one, files):
            outcome(c, rows)
            merge(kinds, summ.get('kinds', {}))
            c.add_cov(steps=summ.get('steps', 0), traces_validated_against_impl=summ.get('scenarios', 0))
    c.coverage['outcomes'] = kinds
    c.add_cov(states=st['states'])


def check(prop):
    c = Check(prop, 'model_checking')
    wasm = build_rig()
    cli = build_cli()
    if prop == 'S05':
        routes(c, wasm, cli)
        return c.finish()
    if prop == 'S01':
        for i, (profile, levels, steps, quick, thorough) in enumerate(HTML):
            path, st = generate(c.s, 'gen%d' % i, 'SsrPageGen', dict(Steps=steps, Levels=levels, Profile=profile), thorough if THOROUGH else quick,
                                steps + 10, invariants=['Good'], seed=SEED + 9100 + i * 7, spec='SSpec')
            replay(c, 'run_html.mjs', [wasm, cli, '{}'], path, st)
        for n, walk, cuts in [(2, 'all', 8), (3, 'five', 1)] + ([(3, 'all', 3)] if THOROUGH else []):
            path, st = enumerate_model(c.s, 'mc%d%s' % (n, walk), 'PageMC', dict(N=n, Walk=walk), ['Good'], extra='VIEW View\n', timeout=2500)
            replay(c, 'run_html.mjs', [wasm, cli, json.dumps(dict(cuts=cuts))], path, st)
        return c.finish()
    if prop == 'S06':
        # the driver of the repository's build, and the one built from its source
        drivers = [COMMITTED_JS, build_bundle()]
        for i, (profile, levels, steps, quick, thorough) in enumerate(OVER):
            path, st = generate(c.s, 'gen%d' % i, 'HandoverGen', dict(Steps=steps, Levels=levels, Profile=profile), thorough if THOROUGH else quick,
                                steps + 10, invariants=['Good', 'Same'], seed=SEED + 9300 + i * 7, spec='HSpec')
            for d in drivers:
                replay(c, 'run_html.mjs', [wasm, cli, json.dumps(dict(over=d))], path, st)
        path, st = generate(c.s, 'ssr', 'SsrGen', dict(Pgs=1, Steps=14, Profile='over'), 12000 if THOROUGH else 1000, 200, invariants=['Good'], seed=SEED + 9390)
        for d in drivers:
            replay(c, 'run_ssr.mjs', [wasm, cli, json.dumps(dict(over=d))], path, st)
        return c.finish()
    if prop in ('S02', 'S03'):
        c.model(model_check(c.s, 'mc', 'SsrMC', dict(Limits=prop == 'S02'), INV, properties=['Answered'], timeout=1500))
    for i, (pages, steps, profile, opts, quick, thorough) in enumerate(GEN[prop]):
        path, st = generate(c.s, 'gen%d' % i, 'SsrGen', dict(Pgs=pages, Steps=steps, Profile=profile), thorough if THOROUGH else quick,
                            60 + 10 * steps, invariants=['Good'], seed=SEED + int(prop[1:]) * 100 + i * 7 + 9000)
        replay(c, 'run_ssr.mjs', [wasm, cli, json.dumps(opts)], path, st)
    return c.finish()
