#!/bin/bash
# dev helper: build and run one scenario:  b.sh BIN SCENARIO BOUNDS [args]
bin=$(python3 $(dirname $0)/mcbuild.py $1 | tee /tmp/build.log | awk -v n=$1 '$1==n{print $2}')
[ -n "$bin" ] || { cat /tmp/build.log; exit 2; }
shift; sc=$1; shift; bo=$1; shift
w=/tmp/wk.$$; mkdir -p $w
for x in "$@"; do case "$x" in --trace|--replay) $bin --scenario "$sc" --bounds "$bo" --work $w "$@"; r=$?; rm -rf $w; exit $r;; esac; done
$bin --scenario "$sc" --bounds "$bo" --work $w --out $w/out "$@" 2>$w/stderr
r=$?
python3 - $w/out <<'P'
import json,sys
try: d=json.load(open(sys.argv[1]))
except Exception as e: print("no output",e); sys.exit()
print("%-18s done[%s] ex=%d comp=%d trans=%d states=%d out=%d cases=%d/%d flt=%d depth=%d thr=%d %.2fs%s %s"%(d['scenario'],d['bounds_done'],d['executions'],d['completed'],d['transitions'],d['states'],d['outcomes'],d['distinct_cases'],d['cases'],d['fault_executions'],d['maxdepth'],d['threads'],d['wall'],' CAPPED' if d['capped'] else '',d['error']))
v=d['violation']
if v: print("  VIOLATION",v['sig'],v['msg'],'\n  item',v['item'],'bound',v['bound']); open('/tmp/last_trace','w').write(v['trace'])
for k in d['known']: print("  known",k)
P
cat $w/stderr | head -20
rm -rf $w; exit $r
