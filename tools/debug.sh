#!/bin/bash
# debug.sh REPLAY.json: replays the recorded command sequence under gdb and shows where it stopped
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d)
python3 - "$1" "$t" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); t=r["trace"]; t.setdefault("id",1)
open(sys.argv[2]+"/in","w").write(json.dumps(dict(id=t["id"],cfg=t.get("cfg",0),c=t["c"]))+"\n")
open(sys.argv[2]+"/exe","w").write(("san/" if r["san"] else "dbg/")+r["driver"])
print("step",r["step"],r["what"]); print("commands",[ (c.get("op"),)+tuple(v for k,v in c.items() if k not in("op","sol")) for c in t["c"][:r["step"]]])
P
exe=$here/build/$(cat $t/exe)
MBV_NOFORK=1 gdb -q -batch -ex "set follow-fork-mode child" -ex "set detach-on-fork off" -ex run -ex bt --args $exe $t/in $t/out 2>&1 | grep -v "^\[\|^warning\|debuginfod\|^Using host\|Inferior" | cut -c1-220 | tail -${2:-25}
rm -r "$t"
