#!/bin/bash
# usage: build_tools.sh OUTDIR -- builds q3cpp, q3rcc, lcc, q3asm and q3vm as shared objects that
# run on the simulated kernel (their libc calls redirected to tlibc.c), and the simulator.
set -e
REPO=${VERIF_REPO:-/repo}
S="$(cd "$(dirname "$0")" && pwd)"
B="$1"; mkdir -p "$B"
gcc -O1 -g -w -fPIC -fno-builtin -U_FORTIFY_SOURCE -fno-stack-protector -c $S/tlibc.c -o $B/tlibc.o
nm --defined-only $B/tlibc.o | awk '$2 ~ /[TDB]/ && $3 ~ /^sim_/ { print substr($3, 5), $3 }' | grep -v -e '^tlibc_init ' -e '^heap_' > $B/redef.txt
# other names of the same functions
ALIAS="lstat:stat _IO_getc:getc _IO_putc:putc getc_unlocked:getc putc_unlocked:putc fputs_unlocked:fputs fwrite_unlocked:fwrite _Exit:_exit vfork:fork bsd_signal:signal fseeko:fseek ftello:ftell fseeko64:fseek ftello64:ftell"
for f in open creat lseek fopen freopen ftruncate stat fstat tmpfile mkstemp; do ALIAS="$ALIAS ${f}64:$f"; done
DEFSYM=""
for a in $ALIAS; do f=${a%%:*}; t=${a##*:}; if ! grep -q "^$f " $B/redef.txt && grep -q "^$t " $B/redef.txt; then echo "$f sim_$f" >> $B/redef.txt; DEFSYM="$DEFSYM -Wl,--defsym=sim_$f=sim_$t"; fi; done
echo "main sim_tool_main" >> $B/redef.txt
tool() { # name flavour copies cc flags -- sources
  local n=$1 fl=$2 copies=$3 cc=$4; shift 4
  local flags=""; while [ "$1" != "--" ]; do flags="$flags $1"; shift; done; shift
  local objs="" i=0 o
  for s in "$@"; do
    o=$B/$n.$fl.$i.o; i=$((i+1))
    $cc $flags -g1 -w -fPIC -U_FORTIFY_SOURCE -c $s -o $o
    objcopy --redefine-syms=$B/redef.txt $o
    objs="$objs $o"
  done
  $cc -shared -Wl,-Bsymbolic,-z,now,-z,norelro $DEFSYM -o $B/${n}_$fl.0.so $objs $B/tlibc.o -lm
  rm -f $objs
  for k in $(seq 1 $((copies-1))); do cp $B/${n}_$fl.0.so $B/${n}_$fl.$k.so; done
}
CPP="$(ls $REPO/lcc/cpp/*.c)"; RCC="$(ls $REPO/lcc/src/*.c)"; LCC="$(ls $REPO/lcc/etc/*.c)"
ASM="$REPO/q3asm/q3asm.c $REPO/q3asm/cmdlib.c"; VM="$(ls $REPO/src/vm/*.c) $REPO/src/main.c"
I="-O1 -fsanitize-coverage=trace-pc-guard"
tool cpp inst 6 clang $I -std=gnu99 -fno-strict-aliasing -- $CPP &
tool rcc inst 6 clang $I -std=gnu99 -fno-strict-aliasing -- $RCC &
tool lcc inst 5 clang $I -std=gnu99 -fno-strict-aliasing -- $LCC &
tool q3asm inst 5 clang $I -std=gnu99 -- $ASM &
tool q3vm inst 3 clang $I -std=gnu99 -fno-strict-aliasing -I$REPO/src/vm -- $VM &
tool cpp rel 6 gcc -fno-strict-aliasing -fno-common -- $CPP &
tool rcc rel 6 gcc -fno-strict-aliasing -fno-common -O0 -- $RCC &
tool lcc rel 5 gcc -fno-strict-aliasing -fno-common -O0 -- $LCC &
tool q3asm rel 5 gcc -O2 -- $ASM &
tool q3vm rel 3 gcc -std=c89 -O2 -I$REPO/src/vm -- $VM &
g++ -std=c++17 -O2 -g -Wall -Wno-unused -Wno-misleading-indentation -rdynamic -I$REPO/src/vm $S/toolsim.cpp -o $B/toolsim -ldl &
for j in $(jobs -p); do wait $j; done
