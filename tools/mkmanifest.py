#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness; the rest under not_applicable."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    hs = sorted(glob.glob(f'{V}/harness/{i}_*.cc'))
    if not hs or i in NA:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
        continue
    ents = [l for h in hs for l in open(h) if l.startswith('// @entry')]
    modes = set('real' if ' real' in l else 'exact' for l in ents)
    bounds = [l[len('// @bound'):].strip() for h in hs for l in open(h) if l.startswith('// @bound')]
    note = 'Symbolic execution of the real code lowered to LLVM IR, every assertion decided by Z3/cvc5 for all inputs in the bounds (' + '; '.join(bounds) + ').'
    if 'real' in modes: note += ' Entries in real mode treat doubles as real numbers, so rounding error is outside the claim.'
    note += ' Counterexamples are replayed on the compiled code before they are reported. Assertions the solver cannot decide in its budget are listed as undecided in the evidence, not counted as holding.'
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                       technique='symbolic execution of LLVM IR with SMT solving (Z3, cvc5), ' + ' and '.join({'real': 'nonlinear real arithmetic', 'exact': 'bit-precise bit-vectors/IEEE-754'}[m] for m in sorted(modes)) + '; native replay of counterexamples',
                       level='model_checking', level_note=note))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', hooks=dict(guard='SMASH_VERIF', enable='no hooks in /repo: checks shadow headers through include paths', source_commits=[]), checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
