#!/bin/bash
# mkkv.sh ID: put the python client, the shim and demo.sh into seeded/ID (which has demo.py)
d=/verif/seeded/$1; cp /verif/tools/kv.py /verif/tools/shim.c $d/
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
gcc -shared -fPIC -O -o "$t/shim.so" "$here/shim.c" -ldl || exit 3
SHIM="$t/shim.so" PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
X
