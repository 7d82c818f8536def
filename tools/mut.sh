#!/bin/bash
# tools/mut.sh PROPERTY FILE 'python expression on s'   -- runs a check against a changed copy of /repo
set -e
D=/tmp/mut.$$; mkdir $D; cp -a /repo/include /repo/src $D/
[ -e /repo/Cargo.toml ] && cp /repo/Cargo.toml $D/
python3 - "$D/$2" "$3" <<'P'
import sys
p=sys.argv[1]; s=open(p).read(); t=eval(sys.argv[2]); assert t!=s, "no change"; open(p,'w').write(t)
P
cd /verif; TRAJOPT_REPO=$D python3 bin/check.py $1 2>&1 | tail -${4:-12} | cut -c1-220
rm -rf $D
