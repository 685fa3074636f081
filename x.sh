#!/bin/bash
# developer's helper: x.sh harness [options...]
cd /verif; h=$1; shift
timeout 900 build/xse explore build/${H:-h}/h.bc $h --jobs 8 --out build/out --budget ${BUD:-100} --samples 2 "$@"
python3 - <<P
import json
d=json.load(open('/verif/build/out/$h.json'))
print({k:v for k,v in d.items() if k in('harness','paths','instructions_all_rounds','queries','solver_s','complete','wall_s','covers','max_path_instructions','rounds','sched_forks')})
for v in d['violations']: print(open(v).read())
P
