# usage: build_demo.sh DEMO.cc OUT   (cwd: the repository)
set -e
here=$(cd "$(dirname "$0")" && pwd); src=$1; out=$2; shift 2
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
F="-std=gnu++17 -O1 -g -w -pthread -fno-pie -fcf-protection=none -U_FORTIFY_SOURCE -fno-stack-protector -include config.h -I. -I$here -DMASSTREE_SIM=1 $*"
T="-fsanitize=thread --param tsan-instrument-func-entry-exit=0"
for f in json.cc string.cc straccum.cc str.cc msgpack.cc kvrandom.cc compiler.cc memdebug.cc kvthread.cc query_masstree.cc value_string.cc value_array.cc value_versioned_array.cc string_slice.cc clp.c; do
  (g++ -x c++ $F $T -c $f -o "$tmp/$f.o") &
done
g++ $F $T -c "$src" -o "$tmp/demo.o" &
g++ -std=gnu++17 -O1 -g -w -fno-pie -I"$here" -c "$here/minisched.cc" -o "$tmp/minisched.o" &
wait
g++ -no-pie -o "$out" "$tmp"/*.o -Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign,--wrap=realloc,--wrap=calloc -lm -pthread
