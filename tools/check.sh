#!/bin/bash
# check.sh PROPERTY quick|thorough [options of the simulator]
set -u
cd "$(dirname "$0")/.." || exit 2
id=$1 tier=$2
shift 2
builds="checked release" bin=sim-checked
case "$id" in
C14 | C15) builds=metered bin=sim-metered ;;
C16) builds=deep bin=sim-deep ;;
esac
dir=$(bash tools/build.sh $builds) || exit 2
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p evidence replays
"$dir/$bin" check --property "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
    --other "$dir/sim-release" --scratch "$scratch" --replays "$PWD/replays" \
    --evidence "$PWD/evidence/$id.json" "$@"
