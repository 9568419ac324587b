#!/bin/sh
# check.sh ID TIER - build the explorer against /repo's working tree and decide one property
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
if [ "$1" = C24 ]; then
	RUSTC_WRAPPER="$PWD/sched/rustc.sh"
	CARGO_TARGET_DIR="$PWD/mc/target-sched"
	export RUSTC_WRAPPER CARGO_TARGET_DIR
	dir=sched
else
	CARGO_TARGET_DIR="$PWD/mc/target"
	export CARGO_TARGET_DIR
	dir=mc
fi
cargo build --release --offline --manifest-path $dir/Cargo.toml -q >$dir/build.log 2>&1 || {
	tail -30 $dir/build.log >&2
	exit 2
}
[ "$1" = build ] || [ "$2" = build ] || exec "$CARGO_TARGET_DIR/release/$dir" "$1" "${2:-quick}" "$3"
