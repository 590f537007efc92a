"""writes MANIFEST.json from the checks present"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'translation validation by SMT: symbolic execution of slimcc (LLVM IR) and of the emitted machine code, equivalence with reference code decided by z3'
SX = 'symbolic execution of slimcc\'s LLVM IR with symbolic input bytes/faults; assertions decided by z3'
NOTE_TV = 'For each program of the stated family: every value of the inputs and of the symbolic constants, decided by z3; programs outside the family are not covered. Trusts the x86 instruction semantics in lib/asmx.py, clang -O0 as reference, symx for the compiler side, z3. Counterexamples are replayed natively before they are reported.'
NOTE_SX = 'Every value of the symbolic bytes/faults within the stated lengths, along all compiler paths completed in the budget (unfinished ones are reported in the evidence). Trusts symx\'s model of LLVM IR and libc, and z3. Counterexamples are replayed on a native build before they are reported.'
KIND = json.load(open(V + '/tools/kinds.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if os.path.exists(V + '/checks/%s.py' % p.lower()):
        k = KIND.get(p, {})
        kind = k.get('kind', 'tv')
        checks.append({'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                       'technique': k.get('technique', TV if kind == 'tv' else SX), 'level': 'translation_validation' if kind == 'tv' else 'other', 'level_note': k.get('note', NOTE_TV if kind == 'tv' else NOTE_SX)})
    else: na.append({'property': p, 'reason': KIND.get(p, {}).get('na', 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash symx/build.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks build /repo as it is', 'source_commits': []}, 'checks': checks, 'not_applicable': na,
     'notes': 'see DESIGN.md'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
