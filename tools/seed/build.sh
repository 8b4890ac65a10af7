# build.sh DIR OUT: compile DIR/demo.c with the interpreter's sources in the current directory
D=$1; OUT=$2; I=""; for d in . graphics/pc graphics interpreter subsystem extension; do I="$I -Isource/$d"; done
F="-std=gnu11 -O1 -g -w -fwrapv -DPC -D_GNU_SOURCE -fsanitize=address -include $D/quiet.h"
T=$(mktemp -d); n=0
for f in $(find source -name '*.c' | grep -v graphics/ | grep -v /main.c) $D/demo.c; do n=$((n+1)); gcc $F $I -c $f -o $T/$n.o || touch $T/bad & done; wait
[ -e $T/bad ] && { rm -rf "$T"; exit 3; }
gcc -fsanitize=address $T/*.o -o $OUT -lm -lpthread || { rm -rf "$T"; exit 3; }
rm -rf "$T"
