#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: no answer.
. "$(dirname "$0")/env.sh"
id=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
kind=fn
case $id in
    C02) kind=asan ;;
    C32|C33|C34|C35) kind=api ;;
    C03|C27) build cli || exit 2; export SEAM_BIN=$BUILD/cli/debug/seam ;;
esac
build $kind || exit 2
case $kind in
    fn) exe=$BUILD/fn/release/seam-verif ;;
    api) exe=$BUILD/fn/release/seam-verif-api ;;
    asan) exe=$BUILD/asan/x86_64-unknown-linux-gnu/release/seam-verif ;;
esac
args=(check "$id" --seed "$seed")
[ "$tier" = thorough ] && args+=(--thorough)
ulimit -c 0
cd / && exec "$exe" "${args[@]}"
