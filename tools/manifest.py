"""Writes MANIFEST.json from contracts/*.py and the reasons below."""
import json, os, sys, importlib
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from tools.props import P
from tools.na import NA
checks, na = [], []
for x in P:
    f = os.path.join(V, 'contracts', x['id'].lower() + '.py')
    if os.path.exists(f) and x['id'] not in NA:
        m = importlib.import_module('contracts.' + x['id'].lower())
        cmd = 'python3-vt -m irv.check ' + x['id']
        checks.append({'property': x['id'], 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd, 'technique': getattr(m, 'TECHNIQUE', 'contracts on the real functions, obligations generated from their LLVM IR and discharged by z3'),
                       'level': getattr(m, 'LEVEL', 'proof'), 'level_note': m.NOTE})
    else:
        na.append({'property': x['id'], 'reason': NA.get(x['id'], 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Deductive verification of the real code: irv/ generates verification conditions from the LLVM IR clang emits for /repo sources on every run; contracts/ holds the specifications; harness/ evaluates the same contracts on concrete inputs of the real code (replay of failed obligations).'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
