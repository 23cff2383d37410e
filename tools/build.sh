#!/bin/bash
# build.sh [CONFIGURATION...]: builds the simulator against /repo's current
# working tree, in the given configurations or all of them, and prints the
# directory with the binaries. The directory is
# named after the content of everything that goes in, so that an unchanged
# tree is not built twice and a changed one never reuses old output.
set -u
cd "$(dirname "$0")/.." || exit 2
export RUSTC_BOOTSTRAP=1 CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
hash=$( { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum
          sha256sum /repo/Cargo.toml
          find sim/src -type f -print0 | sort -z | xargs -0 sha256sum
          sha256sum sim/Cargo.toml sim/Cargo.lock
          rustc -V; } | sha256sum | cut -c1-24 )
base=$PWD/sim/target
dir=$base/$hash
want=${*:-checked release metered deep}
missing=
for b in $want; do
    [ -e "$dir/sim-$b" ] || missing="$missing $b"
done
if [ -z "$missing" ]; then
    echo "$dir"
    exit 0
fi
# Older output goes.
if [ -d "$base" ]; then
    for d in "$base"/*; do
        [ "$d" = "$dir" ] || rm -rf "$d"
    done
fi
mkdir -p "$dir" || exit 2
one() { # name, cargo arguments; RUSTFLAGS may be set
    local name=$1 out=$2
    shift 2
    (cd sim && cargo build --offline --target-dir "$dir/$name" "$@") >"$dir/$name.log" 2>&1 &&
        mv "$dir/$name/$out/treena-sim" "$dir/sim-$name" && rm -rf "$dir/${name:?}"
}
blocks="-Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc -Ccodegen-units=8"
simple="sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>"
pids=
for b in $missing; do
    case $b in
    checked) one checked checked --profile checked ;;
    release) one release release --release --no-default-features ;;
    # Calls the counter (meter.rs) in every basic block.
    metered)
        RUSTFLAGS="-Cpasses=sancov-module $blocks" \
            one metered release --release --no-default-features --features metered
        ;;
    # The same with passes of which none turns a tail call into a jump.
    deep)
        CARGO_ENCODED_RUSTFLAGS="-Cno-prepopulate-passes"$'\x1f'"-Cpasses=function($simple) cgscc(inline) function($simple,gvn,simplifycfg) sancov-module"$'\x1f'"${blocks// /$'\x1f'}" \
            one deep release --release --no-default-features --features deep
        ;;
    esac &
    pids="$pids $!"
done
failed=0
for p in $pids; do
    wait "$p" || failed=1
done
if [ $failed -ne 0 ]; then
    echo "build failed:" >&2
    grep -hE '^error' -A12 "$dir"/*.log | head -60 >&2
    exit 2
fi
echo "$dir"
