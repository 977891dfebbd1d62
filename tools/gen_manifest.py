import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'sim'))
from engines import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
 'N04': 'Needs a machine (or build) of the other byte order; the simulator runs the library as compiled for this one, and the order is fixed at compile time.',
 'N05': 'A pure function of its operands with no state, ownership, time, I/O or allocation: there is nothing for a schedule or a fault to decide.',
}
TECH = {}
checks = []
for p in props:
    i = p['id']
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py run %s --tier quick' % i, 'thorough_cmd': 'python3 check.py run %s --tier thorough' % i,
      'evidence_file': 'evidence/%s.json' % i,
      'technique': c.get('technique', 'deterministic simulation with fault injection: seeded operation histories with allocation failures, every handle checked against a reference model'),
      'level': 'exploration', 'level_note': c.get('note', 'Seeded search over simulated histories of the real library; finds violations reachable within the generated histories (up to 40 operations over 8 handles, small values), proves nothing beyond them. Trusts the reference model, AddressSanitizer and the compiler.')})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'No check yet.')} for p in props if p['id'] not in CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams used are the reference-counter template parameter, operator new/malloc (link-time wrapping) and compiler instrumentation of the headers as they are. All commits in /repo are fix: commits, listed in known_findings.txt.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
