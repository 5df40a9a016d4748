"""R01-R05: the reactive graph (spec/Reactive.tla)."""
import json
from vlib import *

INV = ['InvConsistent', 'InvDelivered', 'InvScheduled', 'InvConnected', 'InvLinked', 'InvNoGhosts', 'InvLog']
PROPS = ['DeliverOnce', 'Quiet']

# exhaustive configurations per property: (Shapes, NSubs, MaxLevel)
MC = {
    'R01': ([('detach', 2, 1), ('dyn2', 1, 1)], [('dyn2', 2, 1), ('dyn3', 1, 1)]),
    'R02': ([('detach', 2, 1), ('dyn3', 1, 1)], [('dyn3', 2, 1)]),
    'R03': ([('detach', 2, 2), ('sync', 2, 2), ('dyn3', 1, 2)], [('dyn2', 1, 3)]),
    'R04': ([('detach', 2, 1), ('dyn3', 1, 1)], [('dyn2', 1, 2)]),
    'R05': ([('sync', 2, 2), ('conn', 1, 1)], [('conn', 2, 1), ('conn', 1, 3)]),
}
GEN = {'R01': 'mixed', 'R02': 'mixed', 'R03': 'tx', 'R04': 'mixed', 'R05': 'conn'}


def check(prop):
    c = Check(prop, 'model_checking')
    wasm = build_rig()
    quick_n = 1750
    runs = [(9, 30, 8, quick_n)]
    if THOROUGH:
        runs = [(9, 30, 8, 14000), (5, 40, 6, 7000), (14, 60, 14, 7000)]
    traces = states = 0
    cov_events = {}
    sample = None
    for i, (nodes, depth, subs, num) in enumerate(runs):
        path, st = generate(c.s, 'gen%d' % i, 'ReactiveGen',
                            dict(Eager=True, MaxLevel=3, Nodes=nodes, Depth=depth, MaxSubs=subs, Profile=GEN[prop]),
                            num, nodes + depth + 10, invariants=['Good'], seed=SEED + int(prop[1:]) * 100)
        rows, summ = node_parallel(c.s, 'run_react.mjs', [wasm], path)
        traces += summ['scenarios']
        states += st['states']
        merge(cov_events, summ['events'])
        c.model(st)
        sample = sample or json.loads(open(path).readline())
        for r in rows:
            mine = [b for b in r['bad'] if prop in b['props']]
            if mine:
                c.violation('%s' % json.dumps(mine[0]), dict(mismatch=mine, scenario=r['scenario']))
    transitions = 0
    if not c.violations:
        quick, thorough = MC[prop]
        for shapes, nsubs, lvl in quick + (thorough if THOROUGH else []):
            r = model_check(c.s, 'mc-%s-%d-%d' % (shapes, nsubs, lvl), 'ReactiveMC',
                            dict(Eager=True, MaxLevel=lvl, NSubs=nsubs, Shapes=shapes), INV, PROPS, extra='VIEW View\n',
                            timeout=3000 if THOROUGH else 400)
            c.model(r)
            states += r['distinct']
            transitions += r['states']
        # non-vacuity: the algorithm as it was before the repair must be rejected by the same invariants
        c.model(model_check(c.s, 'mc-neg', 'ReactiveMC', dict(Eager=False, MaxLevel=1, NSubs=1, Shapes='detach'), INV, PROPS,
                            extra='VIEW View\n', expect='InvLinked'))
    c.add_cov(states=states, transitions=transitions, traces_validated_against_impl=traces, samples=[sample],
              events=cov_events)
    return c.finish()
