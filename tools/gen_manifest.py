"""write MANIFEST.json from rules/registry.py and properties.jsonl"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import registry

NA = {
    'N01': 'uniqueness across hosts and restarts depends on the clock and the address of the machine at run time, which no argument from the source can bound',
    'N02': 'throughput and latency are run-time quantities; nothing in the source bounds them',
    'N03': 'interoperation with a real SOFA mesh and Java peers depends on programs that are not in the repository; the published wire layout, the part that is in reach, is C01-C04',
    'N04': 'which threads, tasks and sockets are left at shutdown depends on the schedule and on the interpreter; the repository states no discipline the source could be held to',
}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in registry.CHECKS:
        mod, fn, level, tech = registry.CHECKS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': level,
                       'level_note': registry.NOTES.get(p, registry.NOTE)})
    else:
        na.append({'property': p, 'reason': NA.get(p) or registry.DROPPED.get(p) or 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'.\'); import rules.base"', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they parse and abstractly interpret the current source of /repo and never import or run it. known-findings.txt lists recorded and fixed defects.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
