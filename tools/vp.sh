#!/bin/sh
# Runs the harness as built, without rebuilding: tools/vp.sh check C01, tools/vp.sh replay replays/C01.json.
V=$(cd "$(dirname "$0")/.." && pwd)
VP_DIR="$V" VP_SUT="$V/target/sut/debug/sut" VP_CLI="$V/target/cli/debug/packetc" exec "$V/target/harness/debug/vp" "$@"
