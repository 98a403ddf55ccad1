#!/bin/sh
# cargo calls this as RUSTC_WRAPPER: only the library under test is compiled with the hooks and block callbacks
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "rusty_network" ]; then
    hooks="--cfg rn_sim"
    [ "$RN_SIM_HOOKS" = 0 ] && hooks=
    exec "$@" $hooks -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard
  fi
  prev="$a"
done
exec "$@"
