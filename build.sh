#!/bin/bash
# builds the simulator together with /repo's current working tree (never modifies /repo)
. /opt/vp/env.sh
cd "$(dirname "$0")/sim" || exit 2
mkdir -p target
exec 9>target/.lock; flock 9
# file times can lie (copied or checked-out trees): decide by content
sum=$( (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; cat "$OLDPWD/rustc-wrapper.sh") | sha256sum)
if [ "$(cat target/.repo-sum 2>/dev/null)" != "$sum" ]; then
    cargo clean --release --offline -p actiondb -p adbcalls >/dev/null 2>&1
    rm -f target/.repo-sum
fi
CARGO_INCREMENTAL=0 RUSTC_WRAPPER="$PWD/rustc-wrapper.sh" cargo build --release --offline >target/build.log 2>&1 || { grep -E '^error' -A15 target/build.log >&2; exit 2; }
echo "$sum" > target/.repo-sum
