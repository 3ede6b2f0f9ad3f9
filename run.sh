#!/bin/bash
# usage: run.sh <property> [quick|thorough]   - rebuild from /repo's working tree, then explore
# exit 0: held; exit 1 + VIOLATION line: broken; exit 2: error of the check itself
cd "$(dirname "$0")" || exit 2
export ADBSIM_VERIF="$PWD"
bash ./build.sh || { echo "build failed" >&2; exit 2; }
exec sim/target/release/adbsim check "$1" "${2:-${VERIF_TIER:-quick}}"
