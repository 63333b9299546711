#!/bin/bash
# build.sh REPO OUTDIR : the replay driver against REPO's headers, with address and undefined-behaviour sanitizers
set -e
R=$1; O=$2; D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
S="-O1 -g -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute,pointer-overflow,null -fno-sanitize-recover=all -w"
( clang $S -I"$R" -I"$D" -c "$D/shim_c.c" -o "$O/c.o" ) &
( clang $S -I"$R" -I"$D" -c "$D/shim_cshort.c" -o "$O/cs.o" ) &
( clang++ -std=c++11 $S -I"$R" -I"$D" -c "$D/shim_cpp.cpp" -o "$O/cpp.o" ) &
( clang++ -std=c++11 $S -I"$R" -I"$D" -c "$D/shim_hpp.cpp" -o "$O/hpp.o" ) &
( clang++ -std=c++17 -O1 -fsanitize=address -w -I"$D" -c "$D/driver.cpp" -o "$O/driver.o" ) &
wait
clang++ -fsanitize=address,undefined "$O"/{c,cs,cpp,hpp,driver}.o -o "$O/driver"
