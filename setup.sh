#!/bin/bash
# Builds the machinery once, so that the checks only rebuild what changed in /repo.
. "$(dirname "$(readlink -f "$0")")/env.sh"
. "$VERIF_DIR/build.sh"
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/setup.log"
: >"$log"
build_crate "$VERIF_DIR/typed" "$log" && build_crate "$VERIF_DIR/harness" "$log"
rc=$?
cat "$log"
exit $rc
