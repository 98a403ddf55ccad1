#!/bin/bash
# check.sh PROPERTY | check.sh replay FILE
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
"$here"/build.sh || exit 2
export VERIF_DIR=$here
cd "$here" || exit 2
if [ "$1" = replay ]; then
  exec sim/target/release/rn_sim replay "$2"
fi
exec sim/target/release/rn_sim check "$1"
