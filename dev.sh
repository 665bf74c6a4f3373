#!/bin/bash
# dev helper: dev.sh PROP HARNESS [engine args]: leaves the bitcode in /tmp/w/H.bc and runs the executor on it
mkdir -p /tmp/w; cd /verif && python3 - "$1" "$2" <<'P'
import sys; sys.path[:0]=['/verif/lib','/verif']; sys.dont_write_bytecode=True
import vf, run, shutil
m=run.load(sys.argv[1]); h=[x for x in m.HARNESSES if x.name==sys.argv[2]][0]
try:
    b=vf.ir_of(h,'/tmp/w')
except vf.Broken as e:
    sys.exit(str(e))
shutil.copy(b,'/tmp/w/H.bc'); open('/tmp/w/eng','w').write(vf.engine())
P
[ $? = 0 ] || exit 1
shift 2; rm -rf /tmp/w/o; mkdir -p /tmp/w/o
timeout ${T:-100} $(cat /tmp/w/eng) --out /tmp/w/o -v --max-time ${T:-90} "$@" /tmp/w/H.bc
tail -n 3 -q /tmp/w/o/* | cut -c1-1500
