import json, os
V = '/verif'
ix = json.load(open(V + '/checks/index.json'))
TECH = {
 'C22': 'abstract interpretation of OpenMP LLVM IR: shared-access and lockset analysis',
 'C14': 'constant propagation and value numbering over LLVM IR',
 'C25': 'abstract interpretation (value numbering, typestate of files and heap objects) and static data-file lint',
 'C27': 'abstract interpretation: heap typestate/ownership analysis',
}
NOTE = ('Values are gated value numbers of an abstract interpretation of the LLVM IR generated from /repo on this run (clang -O0), compared with those of the specification for all inputs at once; '
        'real arithmetic instead of floating point, library calls (libstdc++, libm, libomp, MPI, HDF5) by their documented contracts. ')
EX = {}
exec(open(V + '/dev/notes.py').read()) if os.path.exists(V + '/dev/notes.py') else None
NA = {
 'C90': 'Distributions summed over many random steps are a runtime quantity; the per-step rates and kinematics they follow from are decided in C04-C10.',
 'C91': 'Convergence for a given time step depends on the field values met along a trajectory; no static bound is in reach. The order conditions of one step are decided in C09.',
 'C92': 'Statistical independence and reproducibility of mt19937 streams seeded from random_device are properties of runtime seeds, not of the source. One generator per thread is decided in C22 and C31.',
 'C93': 'The numbers in the shipped tables are data computed elsewhere; comparing them with integrals of special functions is a numerical computation, not static analysis of this code. Their shape and monotonicity are decided in C25.',
 'C94': 'Source/Geant, Source/TensorFlow and their headers are not built here (Geant4 and TensorFlow are absent), so there is no type-checked program to analyse.',
 'C95': 'Time and memory depend on runtime particle multiplicities, which no static argument bounds.',
}
checks = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in ix:
        checks.append({'property': p, 'quick_cmd': './run.py ' + p, 'thorough_cmd': './run.py %s --thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
            'technique': TECH.get(p, 'abstract interpretation of LLVM IR with gated value numbering'), 'level': 'other', 'level_note': NOTE + EX.get(p, '')})
    elif p not in NA: NA[p] = 'No check is claimed yet.'
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
  'notes': 'All checks are static: they compile /repo to LLVM IR in a scratch directory and analyse it; nothing of /repo is executed. No hooks in /repo.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
