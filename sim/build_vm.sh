#!/bin/bash
# usage: build_vm.sh OUTDIR  -- builds the interpreter flavours and the simulator from /repo
set -e
REPO=${VERIF_REPO:-/repo}
S="$(cd "$(dirname "$0")" && pwd)"
B="$1"; mkdir -p "$B"
W=""
for f in memcpy memmove memset memcmp strlen strncpy strcpy printf fprintf vprintf vfprintf puts putchar fputs exit abort malloc calloc free fopen; do W="$W -Wl,--wrap=$f"; done
SRC="$(ls $REPO/src/vm/*.c | grep -v '/vm_main.c$') $REPO/src/main.c"
flav() { # name compiler flags...
  local n=$1 cc=$2; shift 2
  local objs="" i=0
  for s in $SRC; do
    local d=""
    [ "$s" = "$REPO/src/main.c" ] && d="-Dmain=q3vm_main"
    $cc "$@" $d -g -w -fPIC -fno-strict-aliasing -fno-builtin -U_FORTIFY_SOURCE -fno-stack-protector -include $S/pre_dbg.h -I$REPO/src/vm -c $s -o $B/$n.$i.o
    objs="$objs $B/$n.$i.o"; i=$((i+1))
  done
  $cc -shared -o $B/libvm_$n.so $objs -Wl,-z,now,-z,norelro $W
  rm -f $objs
}
flav inst clang -std=gnu99 -O1 -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores &
flav dbg clang -std=gnu99 -O1 -DDEBUG_VM -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores &
flav rel gcc -std=c89 -O2 -fno-crossjumping -fsanitize-coverage=trace-pc &
flav sw gcc -std=c99 -O2 -fsanitize-coverage=trace-pc -include $S/pre_sw.h &
flav o0 gcc -std=c99 -O0 -fsanitize-coverage=trace-pc &
g++ -std=c++17 -O2 -g -Wall -Wno-unused -rdynamic -I$REPO/src/vm $S/vmsim.cpp -o $B/vmsim -ldl &
for j in $(jobs -p); do wait $j; done
