# Sourced after env.sh: build_crate <directory> <log file> [cargo arguments] builds a crate of the machinery against /repo's working tree.
# Cargo looks at time stamps only, so a change of contents forces a rebuild.
# If fizyr-rpc does not build with its hooks, the crate is built without them (see harness/src/hooks.rs), in another target directory.
build_crate() {
	build_once "$@" && return 0
	export RUSTFLAGS="-Awarnings"
	export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/nohooks"
	mkdir -p "$CARGO_TARGET_DIR"
	build_once "$@" || return 1
	echo "fizyr-rpc does not build with its hooks, some scenarios are left out" >&2
}
build_once() {
	local dir="$1" log="$2" sum
	shift 2
	local stamp="$CARGO_TARGET_DIR/repo.$(basename "$dir").sum"
	mkdir -p "$CARGO_TARGET_DIR" "$VERIF_DIR/evidence"
	sum=$(find /repo -name target -prune -o -name .git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
	if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
		rm -f "$stamp"
		for package in fizyr-rpc fizyr-rpc-macros; do
			(cd "$dir" && cargo clean --release --offline --quiet -p "$package") >/dev/null 2>&1
		done
	fi
	(cd "$dir" && cargo build --release --offline --quiet "$@") >>"$log" 2>&1 || return 1
	echo "$sum" >"$stamp"
}
