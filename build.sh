#!/bin/bash
# Builds the simulator against /repo's current working tree. The library alone is compiled with --cfg rn_sim and with
# basic-block callbacks (see sim/rustc-wrap.sh).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$here
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$here/sim/target
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER=$here/sim/rustc-wrap.sh RUSTC_WORKSPACE_WRAPPER= RUSTFLAGS= RN_SIM_HOOKS=1
cd "$here/sim" || exit 2
# never trust timestamps for the code under test
for d in "$here"/sim/target/release/.fingerprint/rusty_network-*; do
  [ -d "$d" ] && find "$d" -type f -delete
done
log=$(mktemp)
if cargo build --release --offline --features grads >"$log" 2>&1; then
  rm -f "$log"
  exit 0
fi
# the accessor of the accumulated gradients may be gone: everything else is still decided without it
export RN_SIM_HOOKS=0
if cargo build --release --offline >"$log.2" 2>&1; then
  echo "note: built without the rn_sim hooks" >&2
  rm -f "$log" "$log.2"
  exit 0
fi
grep -E "^(error|warning: unused)" -A12 "$log" | head -80 >&2
tail -5 "$log" >&2
rm -f "$log" "$log.2"
exit 2
