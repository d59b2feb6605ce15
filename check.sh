#!/bin/sh
# check.sh <property>: decides one property for /repo as it is now; VERIF_SEED and VERIF_TIER as usual.
V=$(cd "$(dirname "$0")" && pwd)
"$V/build.sh" || exit 2
VP_DIR="$V" VP_SUT="$V/target/sut/debug/sut" VP_CLI="$V/target/cli/debug/packetc" \
    exec "$V/target/harness/debug/vp" check "$1"
