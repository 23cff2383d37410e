#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's current tree. Prints
# the trace and exits 1 if the violation is there, 0 if not.
set -u
file=$(realpath "$1") || exit 2
cd "$(dirname "$0")/.." || exit 2
bin=checked
grep -q '^config 1 ' "$file" && bin=release
grep -q '^config 2 ' "$file" && bin=metered
grep -q '^config 3 ' "$file" && bin=deep
if grep -q '^property C18$' "$file"; then
    # Executed in both builds.
    dir=$(bash tools/build.sh checked release) || exit 2
    exec "$dir/sim-checked" replay --file "$file" --other "$dir/sim-release"
fi
dir=$(bash tools/build.sh $bin) || exit 2
exec "$dir/sim-$bin" replay --file "$file"
