#!/bin/bash
# bash /verif/run.sh <property> quick|thorough
# bash /verif/run.sh <property> replay <file>
# Builds the machinery against /repo's working tree and explores one property.
# Exit 0: holds on everything explored; 1: violated; anything else: no answer.
. "$(dirname "$(readlink -f "$0")")/env.sh"
. "$VERIF_DIR/build.sh"
set -u
[ "$1" != P29 ] || { shift && exec python3 "$VERIF_DIR/tools/p29.py" "$@"; }
log="$CARGO_TARGET_DIR/build-$$.log"
mkdir -p "$CARGO_TARGET_DIR"
: >"$log"
case "$1" in
	P18) dir="$VERIF_DIR/typed" ;;
	P19) dir="$VERIF_DIR/typed" only="-p fizyr-rpc" ;;
	*) dir="$VERIF_DIR/harness" ;;
esac
if ! build_crate "$dir" "$log" ${only:-}; then
	cat "$log" >&2
	rm -f "$log"
	echo "MACHINERY-ERROR: the machinery does not build against /repo"
	exit 4
fi
rm -f "$log"
cd "$dir" || exit 4
case "$1" in
	P18) exec "$CARGO_TARGET_DIR/release/typed" "$@" ;;
	P19) shift && exec python3 "$VERIF_DIR/tools/p19.py" "$@" ;;
	*) exec "$CARGO_TARGET_DIR/release/mc" "$@" ;;
esac
