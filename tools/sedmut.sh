#!/bin/bash
# sedmut.sh PROP FILE PYTHON_OLD PYTHON_NEW [SECONDS]: run a check against a scratch copy with one textual change
p=$1; w=$(mktemp -d /tmp/m/sm.XXXXXX); here=$(cd "$(dirname "$0")/.." && pwd)
(cd /repo && cp -a *.cc *.hh *.c *.h $w/ 2>/dev/null)
python3 - "$w/$2" "$3" "$4" <<'P' || exit 9
import sys
f,o,n=sys.argv[1:]; s=open(f).read()
assert s.count(o)>=1,("not found",o)
assert s.count(o)==1 or o.startswith('\n'),("ambiguous",s.count(o))
open(f,'w').write(s.replace(o,n,1))
P
VERIF_REPO=$w VERIF_BUILD=$w/build VERIF_SECONDS=${5:-30} python3 $here/check.py $p quick 2>&1 | grep -v "^replay with\|^KNOWN" | tail -3 | cut -c1-220
rm -rf "$w"
