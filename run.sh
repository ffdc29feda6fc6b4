#!/bin/bash
# run.sh build | check ID | replay FILE: builds the harness against /repo's
# working tree, then runs it. Exit 0 held, 1 violation, 2 no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export NH_ROOT=$here
export CARGO_NET_OFFLINE=true
mkdir -p "$here/work" "$here/evidence"
exec 9>"$here/work/.lock"
flock 9
# cargo goes by modification times; the tree under test may have older ones
stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
log=$here/work/build.log
build() { # TARGET-DIR OPTIONS: the harness in a target directory of its own
    local dir=$1
    shift
    cd "$here/harness" || return
    if [ "$(cat "$here/work/stamp" 2>/dev/null)" != "$stamp" ]; then
        cargo clean --release --offline --target-dir "$dir" -p nobject-rs
    fi
    cargo build --release --offline --locked --target-dir "$dir" "$@"
}
# the crate with coverage counters, for the guided search; a failure here only
# costs that part
(RUSTC_WRAPPER=$here/tools/covrustc.sh build target/guided --features guided >"$log.guided" 2>&1 ||
    rm -f "$here/harness/target/guided/release/nharness") &
if ! (build target >"$log" 2>&1); then
    wait
    tail -n 40 "$log"
    echo "the harness does not build against /repo"
    exit 2
fi
wait
echo "$stamp" >"$here/work/stamp"
flock -u 9
[ "${1:-}" = build ] && exit 0
exec "$here/harness/target/release/nharness" "$@"
