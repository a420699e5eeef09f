#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); S="$PWD"; W=$(mktemp -d /tmp/demoXXXXXX) || exit 3
trap 'rm -rf -- "$W"' EXIT
CXX=clang++-18; command -v $CXX >/dev/null || CXX=clang++
python3 -B - "$D" "$S" "$W/port" <<'P' || exit 3
import sys,os,shutil
D,S,W=sys.argv[1:4]
sys.path.insert(0,D+'/port'); import mkport
mkport.main(S,W)
os.makedirs(W+'/_extern/agner.org/AF_randomc_h'); shutil.copy(D+'/port/include/AF_random.h',W+'/_extern/agner.org/AF_randomc_h/random.h')
f=W+'/nntl/interface/rng/afrand_mt_thr.h'
if os.path.exists(f): shutil.copy(f,W+'/nntl/interface/rng/AFRAND_MT_THR.h')
os.makedirs(W+'/_extern/rapidjson/include'); os.symlink('/usr/include/rapidjson',W+'/_extern/rapidjson/include/rapidjson')
P
DEF=""; for t in BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER; do DEF="$DEF -D__GCC_ATOMIC_${t}_LOCK_FREE=2"; done
$CXX -std=c++17 -O1 -U__OPTIMIZE__ -g1 -w -pthread -fno-strict-aliasing -fms-extensions -fms-compatibility -fms-compatibility-version=19 -fdelayed-template-parsing \
 -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1 $DEF -DNNTL_MATLAB_AVAILABLE=1 -fsanitize=address -I"$D" -I"$D/port/include" -I"$W/port" "$D/demo.cpp" -o "$W/demo" -lopenblas -llapacke || exit 3
cd "$W" && ASAN_OPTIONS=detect_leaks=0 OPENBLAS_NUM_THREADS=1 timeout 120 ./demo
