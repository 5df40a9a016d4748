#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
REPLAY = 'TLA+ model checked with TLC; behaviours generated by TLC are replayed into the real code and compared step by step'
claimed = {
    'R01': 'Exhaustive TLC over all small programs/histories of the configured shapes shows the graph algorithm is right; '
           'thousands of random model behaviours are replayed through the public API in wasm and every read compared. Trusts the harness rig and the bounded sampling of behaviours.',
    'R02': 'As R01; every subscriber call of every replayed behaviour is compared with the model (as a multiset per call).',
    'R03': 'As R01, behaviours with nested transactions and after-transaction hooks; result, order hooks-after-subscribers, and silence inside transactions are compared.',
    'R04': 'As R01; number of evaluations of every computed in every call must not exceed the model\'s.',
    'R05': 'As R01, with connected values behind dynamic dependencies; open/close events and connectedness are compared after every call.',
}
try:
    from claims import CLAIMS, NOT_APPLICABLE
except ImportError:
    CLAIMS, NOT_APPLICABLE = {}, {}
checks = []
na = []
for p in props:
    if p in claimed:
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                           technique=REPLAY, level='model_checking', level_note=claimed[p]))
    elif p in CLAIMS:
        c = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                           technique=c.get('technique', REPLAY), level=c.get('level', 'model_checking'), level_note=c['note']))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'machinery not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='TLA+/TLC; see DESIGN.md. No hooks in /repo: everything is observed through public interfaces.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
