#!/bin/bash
# check.sh Cxx [options]: builds the programs under test from /repo's working tree and the simulator, then searches.
V=$(cd "$(dirname "$0")" && pwd)
export X1DST_VERIF=$V X1DST_BUILD=${X1DST_BUILD:-$V/.build}
bash "$V/build.sh" || { echo "build failed" >&2; exit 3; }
exec "$X1DST_BUILD/x1dst" check "$@"
