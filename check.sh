#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator against /repo's working tree and run one check.
# check.sh --build: build only.   check.sh --replay FILE: replay a violation.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export RUSTFLAGS="--cfg cbm_sim --check-cfg cfg(cbm_sim)"
VERIF_DIR=$(cd "$(dirname "$0")" && pwd) || exit 2
export VERIF_DIR
export CARGO_TARGET_DIR=$VERIF_DIR/sim/target
cd "$VERIF_DIR/sim" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
# One build at a time; cargo goes by mtime, so forget what was built from /repo and from here.
exec 9>"$CARGO_TARGET_DIR/.check-lock"
flock 9
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/cbm-* "$CARGO_TARGET_DIR"/release/.fingerprint/cbmsim-*
log=$CARGO_TARGET_DIR/build.log
build() { cargo build --release --offline --locked "$@" >"$log" 2>&1; }
# Only C17 needs the cdisk program, which is compiled as a part of the simulator.
if ! build && { [ "$1" = C17 ] || ! build --no-default-features; }; then
    echo "the simulator does not build:" >&2
    tail -n 60 "$log" >&2
    exit 2
fi
# Later builds must not replace the program under a running check.
bin=$CARGO_TARGET_DIR/cbmsim-run.$$
cp "$CARGO_TARGET_DIR/release/cbmsim" "$bin" || exit 2
flock -u 9
exec 9>&-
trap 'rm -f "$bin"; rm -rf "/dev/shm/cbm-sim-$pid"' EXIT
case "$1" in
    --build) exit 0 ;;
    --replay) "$bin" replay "$2" & ;;
    *) "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" & ;;
esac
pid=$!
wait $pid
exit $?
