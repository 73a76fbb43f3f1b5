#!/bin/bash
# development helper: devs.sh "harness params" ... — rebuild once, then run each on its own core; prints one line each
cd /verif
[ "$1" = "-n" ] && shift || python3 tools/check.py --setup > /tmp/devs.b 2>&1 || { grep -A12 "^error" /tmp/devs.b | head -60; tail -3 /tmp/devs.b; exit 1; }
one() {
  set -- $1; h=$1; p=$2; shift 2
  o=/tmp/devs.$h.${p//,/_}
  build/engine/release/symx --ll build/prog.ll --names build/names.txt --entry $h --params "$p" ${HC---hash-const} --max-steps 400000000 --time-limit ${TL:-100} --out $o.json "$@" > $o.log 2>&1
  python3 - "$h $p" $o.json <<'P'
import json,sys
try: d=json.load(open(sys.argv[2]))
except Exception as e: print(sys.argv[1], 'ENGINE FAILED', e); sys.exit()
print(sys.argv[1], 'complete' if d['complete'] else 'INCOMPLETE', 'ok',d['paths_ok'],'as',d['paths_assume'],'q',d['queries'],'solver',d['solver_s'],'Mi',d['instructions']//10**6,'wall',d['wall_s'],'reach',d['reach'],d['errors'][:2])
for v in d['violations'][:3]: print('   VIOL',v['kind'],v['msg'][:200], str(v.get('where',''))[:100], [(n,h[:40]) for n,h in v['inputs']][:6])
P
  rm -f $o.json $o.log
}
export -f one
printf '%s\n' "$@" | xargs -P 8 -d '\n' -I{} bash -c 'one "{}"'
