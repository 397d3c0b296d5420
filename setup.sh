#!/bin/bash
# Builds everything the checks need from /repo's current tree, offline.
. "$(dirname "$0")/env.sh"
for kind in fn api cli asan; do
    build $kind || exit 1
done
mkdir -p "$VERIF_DIR/evidence"
echo "built: fn api cli asan"
