#!/bin/bash
# mkdemo.sh ID: (re)write demo.sh of a tree demonstration: demo.cc is written by hand, the scheduler is copied beside it
d=/verif/seeded/$1; cp /verif/tools/demo/{minisched.cc,minisched.hh,tree.hh,build_demo.sh} $d/
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
bash "$here/build_demo.sh" "$here/demo.cc" "$t/demo" || exit 3
"$t/demo"
X
