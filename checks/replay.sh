#!/bin/bash
# replay.sh HARNESS ENTRY INPUTS [-Dname=value ...]: run one recorded counterexample natively
set -e
V=$(cd "$(dirname "$0")/.." && pwd); R=${SYM_REPO:-/repo}; h=$1; e=$2; f=$3; shift 3
w=$(mktemp -d /tmp/f3drep.XXXXXX); trap 'rm -rf "$w"' EXIT
F="-std=gnu++14 -O0 -g1 -fsanitize=address -ffp-contract=off -ftrivial-auto-var-init=pattern -DREQUIRE_IOSTREAM -w -DIMATH_HALF_NO_LOOKUP_TABLE -I$V/harness -I$R/src -I$R/export -I$R/include -I/opt/vp/compat/include -I/usr/include/Imath -I/usr/include/hdf5/serial"
ls $R/src/*.cpp | xargs -P8 -I{} sh -c "clang++ $F -c {} -o $w/\$(basename {}).o"
clang++ $F "$@" -DHARNESS_ENTRY=$e $V/harness/$h.cpp $V/harness/native_rt.cpp $w/*.o -o $w/rep -lboost_thread -lboost_system -lboost_regex -lhdf5_serial -lz -lImath-3_1 -ldl -lpthread
mkdir $w/sc; grep -v '^#[^s]' "$f" | grep -v '^# ' > $w/in || true
cd $w/sc; SYM_REPLAY=$w/in SYM_SCRATCH=$w/sc ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=268435456:redzone=512 timeout 60 $w/rep
