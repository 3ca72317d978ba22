#!/bin/bash
# e.sh IDX ARG [TIME]: dev helper
cd /verif
.build/engine/release/cedsym --ir .build/all.ll --entry cedsym_entry --idx $1 --arg $2 --jobs 8 --time ${3:-200} --out /tmp/o$1.json --cwd /tmp/cedsym-w --pass /repo --samples 4 --max-viol ${4:-300}
python3 - $1 <<'X'
import json,sys
o=json.load(open('/tmp/o%s.json'%sys.argv[1]))
print({k:o[k] for k in ('wall_s','paths','discarded','insns','forks','asserts','asserts_symbolic','concretizations','z3_queries','z3_unknown','z3_us','dom_queries')}, o['complete'], o['problems'], o['covers'], o['asserts_by_tag'])
for v in o['violations'][:8]:
    c=v['cases'][0]; print("VIOL",v['kind'],v['msg'],v['count'],c['inputs'],c['stack'][:400])
X
