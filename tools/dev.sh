#!/bin/bash
# development helper: dev.sh [-b] harness params [symx options]   (-b: rebuild first)
B=/verif/build
if [ "$1" = "-b" ]; then shift
  python3 -c "
import sys; sys.argv=['x']; sys.path.insert(0,'/verif/tools')
src=open('/verif/tools/check.py').read().split('try:\n    sys.exit(main())')[0]
exec(compile(src.replace('os.path.abspath(__file__)','\"/verif/tools/check.py\"'),'c','exec'))
build_all()" || exit 1
fi
h=$1; p=$2; shift 2
$B/engine/release/symx --ll $B/prog.ll --names $B/names.txt --entry $h --params "$p" ${HC---hash-const} --max-steps 50000000 --time-limit ${TL:-60} --out /tmp/dev.json "$@" >/tmp/dev.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/dev.json'))
print({k:d[k] for k in d if k in('complete','paths_ok','paths_assume','paths_violating','instructions','queries','solver_s','max_query_s','wall_s','reach','symbolic_bytes','forks','merges')}, d.get('errors')[:3])
for v in d['violations'][:4]: print('VIOL',v['kind'],v['msg'][:300],v.get('where',''), str(v.get('stack',''))[:800])
P
tail -3 /tmp/dev.log
