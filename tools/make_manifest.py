"""Write MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
props = {}
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    props[p['id']] = p
NA = {
    'C17': 'Construction of a node is a pure, sequential function of its arguments: no schedule, clock, I/O, '
           'crash or second party can change whether it is accepted, so there is nothing for a simulator to '
           'schedule or inject; ordinary input generation would be a different technique.',
    'C18': 'The numerical utilities are pure functions of their arguments, with no state, schedule, I/O or fault '
           'to simulate. They are exercised through the whole-model checks (C01, C02, C09), not claimed here.',
}
checks = []
na = []
for (i, p) in props.items():
    name = i.lower()
    if os.path.exists(os.path.join(ROOT, 'checks', name + '.py')):
        m = importlib.import_module('checks.' + name)
        checks.append(dict(property=i, quick_cmd='./run %s quick' % name, thorough_cmd='./run %s thorough' % name,
                           evidence_file='evidence/%s.json' % i,
                           technique=getattr(m, 'TECHNIQUE', 'deterministic simulation: seeded search over '
                                             'operation schedules with fault injection, against an executable '
                                             'reference model'),
                           level=m.LEVEL, level_note=m.LEVEL_NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Check not built yet.')))
d = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='No hooks were needed: every seam is public API, a patched clock/RNG/hash '
                    'seed, sys.settrace, or an LD_PRELOAD shim outside /repo.', source_commits=[]),
         notes='Run ./run <check> quick|thorough; replay with ./run <check> quick --replay FILE.')
json.dump(d, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
