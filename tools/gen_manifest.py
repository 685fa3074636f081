#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
NA = {
}
PENDING = 'No harness for it yet in this state of the work.'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
T = 'path-wise symbolic execution of the LLVM bitcode of harness, xtra, its dependencies and std (own executor, Z3 bit-vectors): inputs, priorities, choice of operations{sched} are solver variables; counterexamples replayed on the compiled code'
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.CHECKS:
        c = specs.CHECKS[i]
        hs = [h for r in c['runs'] for h in r['must']]
        conc = any(h.startswith('h_c_') for h, _ in hs)
        checks.append({
            'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
            'technique': T.format(sched=' and thread schedules' if conc else ''), 'level': 'model_checking',
            'level_note': 'Within the bounds every path of the real code is explored and every assertion on it is decided by the solver for all values at once; nothing is modelled except the allocator, thread parking and clocks. Completed on every run: ' +
                          ', '.join(h + (f'/{p} preemptions' if p else '') for h, p in hs) + '; deeper stages as time allows. Bounds: ' + c['bounds'].strip().rstrip(';') +
                          '. Assumes sequentially consistent memory and trusts rustc, LLVM, Z3 and the executor (whose sampled paths are re-run natively and compared).'})
    else: na.append({'property': i, 'reason': NA.get(i, PENDING)})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness uses the public API only. check.py builds the executor (engine/) and the harness (harness/, path dependency on /repo/xtra; harness-derive/ for /repo/macros) from the current tree on every run.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks;', 'not applicable:', [x['property'] for x in na])
