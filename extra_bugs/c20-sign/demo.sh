#!/bin/bash
# builds the sources of the repository (the current directory) with demo.cpp
# in a scratch directory and runs it there
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/b" "$d/s" "$d/out"
export CC=/usr/bin/gcc CXX=/usr/bin/g++
cmake -S "$here" -B "$d/b" -G Ninja -Wno-dev -DREPO="$repo" -DOUT="$d/out" -DLIB=0 "-DFLAGS=" > "$d/log" 2>&1 && ninja -C "$d/b" >> "$d/log" 2>&1 || { tail -30 "$d/log"; exit 98; }
cd "$d/s" || exit 99
timeout 120  "$d/b/demo" "$d/s" < /dev/null
r=$?
cd /
exit $r
