#!/bin/bash
# mut.sh Cxx 'python-expr old' 'new' [file]: try a textual mutation of /repo on the proofs of Cxx (reverted afterwards)
f=${4:-norfair/tracker.py}
cd /repo && cp $f /tmp/mut.bak && python3 - "$f" "$2" "$3" <<'P'
import sys
f,a,b=sys.argv[1:4]; s=open(f).read(); assert s.count(a)>=1,"no match"; open(f,'w').write(s.replace(a,b,1))
P
cd /verif && timeout 600 ${CMD:-python3-vt tools/pv.py} $1 ${5:-} 2>&1 | cut -c1-220 | head -${N:-12}
cp /tmp/mut.bak /repo/$f; git -C /repo status --short
