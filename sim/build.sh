#!/bin/bash
# Build the simulator, in two profiles, from the working tree of /repo. Quiet unless it fails.
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg lokky_sim" CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
# Never trust file times of the library: copies of trees may have any.
rm -rf /verif/target-fast/release/.fingerprint/lokky-* /verif/target-checked/checked/.fingerprint/lokky-*
one() {
    cargo build --offline --locked -q --profile "$1" --target-dir "$2" >"$2.log" 2>&1
}
one release /verif/target-fast & a=$!
one checked /verif/target-checked & b=$!
wait $a; ra=$?
wait $b; rb=$?
if [ $ra -ne 0 ] || [ $rb -ne 0 ]; then
    grep -hE -A12 '^error' /verif/target-fast.log /verif/target-checked.log | head -${LINES_OUT:-60}
    exit 3
fi
