#!/bin/bash
# Builds the simulator, and the programs under test from /repo's working tree.
# Everything goes to /verif/.build (ignored by git).
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${X1_REPO:-/repo}
B=${X1DST_BUILD:-$V/.build}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++
mkdir -p "$B"
exec 9> "$B/lock"
flock 9
build_repo() { # name, compiler flags
    local d=$B/$1
    if [ ! -f "$d/build.ninja" ]; then
        cmake -S "$R" -B "$d" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 \
            -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest \
            -DCppcheck=NOTFOUND-disabled "-DCMAKE_C_FLAGS=$2" "-DCMAKE_CXX_FLAGS=$2" > "$B/cmake-$1.log" 2>&1 || { cat "$B/cmake-$1.log"; exit 3; }
    fi
    ninja -C "$d" x1sim x1algc > "$B/ninja-$1.log" 2>&1 || { tail -50 "$B/ninja-$1.log"; echo "build of $R failed"; exit 3; }
}
build_repo repo "" &
P1=$!
# the same with bounds checks that trap, for damaged input
build_repo checked "-fsanitize=bounds -fsanitize-trap=bounds -D_GLIBCXX_ASSERTIONS" &
P3=$!
(
    mkdir -p "$B/tools"
    for t in objfile from5track; do
        if [ "$R/library/$t.cc" -nt "$B/tools/$t" ] || [ ! -s "$B/tools/$t" ] || ! cmp -s "$R/library/$t.cc" "$B/tools/$t.src"; then
            g++ -O2 -Wall -x c++ "$R/library/$t.cc" -o "$B/tools/$t" > "$B/$t.log" 2>&1 || { cat "$B/$t.log"; exit 3; }
            cp "$R/library/$t.cc" "$B/tools/$t.src"
        fi
    done
) &
P2=$!
make -s -j4 -C "$V/dst" B="$B" R="$R" > "$B/dst.log" 2>&1 || { cat "$B/dst.log"; exit 3; }
wait $P1 || exit 3
wait $P3 || exit 3
wait $P2 || exit 3
