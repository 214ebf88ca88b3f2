#!/bin/bash
# usage: check.sh <PROPERTY> quick|thorough     (exit 0: held, 1: VIOLATION line, 2: harness error)
#        check.sh build | replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
. ./env.sh
export CARGO_TARGET_DIR="$here/sim/target"
log="$(mktemp /tmp/nyxsim-build.XXXXXX)"
if ! cargo build --profile sim --offline --locked >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "HARNESS-ERROR the simulator did not build against /repo"
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
export NYXSIM_OUT="$here"
scratch="$(mktemp -d /tmp/nyxsim.XXXXXX)"
export NYXSIM_SCRATCH="$scratch"
trap 'rm -rf -- "$scratch"' EXIT
cd "$here"
if [ "$1" = replay ]; then
    "$here/sim/target/sim/nyxsim" replay "$2" 2>/dev/null
else
    "$here/sim/target/sim/nyxsim" check "$1" "${2:-quick}" 2>/dev/null
fi
