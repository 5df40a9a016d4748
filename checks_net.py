"""R06, F01-F07, D07, B01, B02: what the application does through the browser (spec/AutoMap, Timers, Fetch, LazyCache, Router, Websocket, Cookies, Environ, Startup, Bridge, JsonTypes)."""
import json
from vlib import *

# per property: generators (module, constants, depth of the simulation, behaviours quick, thorough)
# and exhaustive enumerations (module, constants quick, constants thorough)
GEN = {
    'R06': [('AutoMapGen', dict(Steps=20), 40, 6000, 50000), ('AutoMapGen', dict(Steps=60), 80, 600, 6000)],
    'B02': [('JsonGen', dict(Steps=20, Depth=2), 40, 10000, 80000), ('JsonGen', dict(Steps=20, Depth=4), 40, 2000, 20000)],
    'B01': [('BridgeGen', dict(Steps=12, Depth=3), 40, 8000, 60000), ('BridgeGen', dict(Steps=30, Depth=4), 60, 600, 6000)],
    'F01': [('LazyCacheGen', dict(Steps=24, Caches=2), 90, 10000, 80000), ('LazyCacheGen', dict(Steps=50, Caches=3), 150, 1500, 10000)],
    'F02': [('FetchGen', dict(Steps=20), 90, 8000, 60000), ('FetchGen', dict(Steps=50), 200, 1000, 8000)],
    'F04': [('RouterGen', dict(Steps=20, Routers=2), 40, 8000, 60000), ('RouterGen', dict(Steps=50, Routers=3), 90, 1000, 8000)],
    'F05': [('WebsocketGen', dict(Steps=20), 40, 10000, 80000), ('WebsocketGen', dict(Steps=60), 90, 1500, 12000)],
    'F06': [('CookiesGen', dict(Steps=20), 40, 8000, 60000), ('CookiesGen', dict(Steps=60), 80, 800, 8000)],
    'F07': [('EnvironGen', dict(Steps=20), 40, 5000, 40000), ('EnvironGen', dict(Steps=60), 80, 600, 6000)],
    'D07': [('StartupGen', dict(Steps=12, Caches=3), 40, 8000, 60000), ('StartupGen', dict(Steps=30, Caches=4), 60, 1500, 12000)],
    'F03': [('TimersGen', dict(Steps=14, NV=2), 40, 12000, 100000), ('TimersGen', dict(Steps=40, NV=3), 60, 2000, 20000)],
}
ENUM = {
    'R06': [('AutoMapMC', dict(Depth=4), dict(Depth=5))],
    'B02': [('JsonMC', dict(Depth=1, Small=True), dict(Depth=2, Small=False))],
    'B01': [('BridgeMC', dict(Sizes={256, 70000}, Size2=70000), dict(Sizes={255, 256, 65535, 65536, 70000}, Size2=70000))],
    'F01': [('LazyCacheMC', dict(Depth=5, Ttl=1), dict(Depth=6, Ttl=1)), ('LazyCacheMC', dict(Depth=5, Ttl=99), dict(Depth=6, Ttl=99)), ('LazyCacheMC', dict(Depth=5, Ttl=0), dict(Depth=6, Ttl=0))],
    'F02': [('FetchMC', dict(Depth=6), dict(Depth=7))],
    'F04': [('RouterMC', dict(Depth=4, Kind='hash'), dict(Depth=5, Kind='hash')), ('RouterMC', dict(Depth=4, Kind='history'), dict(Depth=5, Kind='history'))],
    'F05': [('WebsocketMC', dict(Depth=5, Ops1=i), dict(Depth=6, Ops1=i)) for i in (1, 2, 3)],
    'F06': [('CookiesMC', dict(Depth=4), dict(Depth=5))],
    'F07': [('EnvironMC', dict(Depth=4), dict(Depth=5))],
    'D07': [('StartupMC', dict(Depth=4, App=i), dict(Depth=5, App=i)) for i in (1, 2, 3)] + [('StartupMC', dict(Depth=2, App=4), dict(Depth=3, App=4))],
    'F03': [('TimersMC', dict(Depth=4), dict(Depth=5))],
}


HOST = {'B01': 'run_bridge.mjs', 'B02': 'run_json.mjs'}
BOTH = {'BridgeMC'}      # enumerations replayed completely with both drivers


def replay(c, tag, path, st, scripts, wasm):
    c.model(st)
    lines = [l for l in open(path).read().split('\n') if l]
    for k, script in enumerate(scripts):
        part = '%s-%d' % (path, k)
        with open(part, 'w') as f:
            f.write('\n'.join(lines if st['module'] in BOTH else lines[k::len(scripts)]) + '\n')
        try:
            rows, summ = node_parallel(c.s, HOST.get(c.prop, 'run_net.mjs'), [wasm, script, '{}'], part, timeout=2500 if THOROUGH else 600)
        except Hang as e:
            c.violation('hang: %s' % e, dict(file=part))
            continue
        c.add_cov(steps=summ['steps'], traces_validated_against_impl=summ['scenarios'])
        acts = c.coverage.setdefault('actions', {})
        for a, n in summ['acts'].items():
            acts[a] = acts.get(a, 0) + n
        for r in rows:
            c.violation(json.dumps(r['bad'][0])[:900], dict(mismatch=r['bad'], scenario=r['scenario'], driver=os.path.basename(script)))
    c.add_cov(states=st['states'])
    if 'samples' not in c.coverage:
        c.coverage['samples'] = [json.loads(lines[0])]


def check(prop):
    c = Check(prop, 'model_checking')
    wasm = build_rig()
    scripts = [COMMITTED_JS, build_bundle()]
    for i, (module, consts, depth, quick, thorough) in enumerate(GEN.get(prop, [])):
        path, st = generate(c.s, 'gen%d' % i, module, consts, thorough if THOROUGH else quick, depth, invariants=['Good'],
                            seed=SEED + sum(map(ord, prop)) * 100 + i * 7, timeout=2500 if THOROUGH else 600)
        replay(c, 'gen%d' % i, path, st, scripts, wasm)
    for i, (module, quick, thorough) in enumerate(ENUM.get(prop, [])):
        path, st = enumerate_model(c.s, 'mc%d' % i, module, thorough if THOROUGH else quick, ['Good'], timeout=2500)
        replay(c, 'mc%d' % i, path, st, scripts, wasm)
    return c.finish()
