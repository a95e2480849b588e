"""MANIFEST.json from specs.PROPS and properties.jsonl"""
import json, sys
sys.path.insert(0, '/verif')
import specs
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in specs.PROPS:
        P = specs.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt run.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
                       'technique': 'solver-based checking: symbolic execution of the LLVM IR of the real sources, obligations decided by z3 (%s); counterexamples replayed natively' % P.get('theory', 'linear/nonlinear real arithmetic, bit-vectors'),
                       'level': P.get('level', 'model_checking'), 'level_note': 'Bounded: holds for every value of the symbolic inputs within: '+P['bounds']+('. Outside: '+P['outside'] if P.get('outside') else '')})
    else: na.append({'property': i, 'reason': specs.NA.get(i, 'check under construction in this commit')})
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'VPIC_DUMP_PBUF_SIZE', 'enable': 'harness/dmp.cc defines VPIC_DUMP_PBUF_SIZE=4 before it includes vpic/dump.cc', 'source_commits': ['8f14f62']}, 'checks': checks, 'not_applicable': na, 'notes': 'run.py <property> [--tier quick|thorough] [-v]; see DESIGN.md'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
