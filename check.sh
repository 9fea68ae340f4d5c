#!/bin/bash
# check.sh PROPERTY | --replay FILE | --build
# Builds the simulator with /repo's current tree inside and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export DISSIM_ROOT="$here" CARGO_TARGET_DIR="$here/sim/target" RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
repo="${DISSIM_REPO:-/repo}"
mkdir -p "$here/sim/target"
exec 9>"$here/sim/target/.build-lock"
flock 9
# cargo goes by modification times; make it go by contents
sum() { find "$@" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.sh' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum; }
for part in "open-dis-rust $repo/src $repo/Cargo.toml" "dissim $here/sim/src $here/sim/Cargo.toml $here/sim/rustc-wrap.sh" "seams $here/sim/seams"; do
    set -- $part -- "$@"
    pkg=$1; shift; dirs=()
    while [ "$1" != "--" ]; do dirs+=("$1"); shift; done
    shift
    now="$(sum "${dirs[@]}")"
    if [ "$now" != "$(cat "$here/sim/target/.sum-$pkg" 2>/dev/null)" ]; then
        for profile in dev shipped plain; do
            (cd "$here/sim" && cargo clean --offline --quiet --profile $profile -p "$pkg") >/dev/null 2>&1
        done
        echo "$now" >"$here/sim/target/.sum-$pkg"
    fi
done
builds=()
for profile in dev shipped plain; do
    : >"$here/sim/target/build-$profile.log"
    (cd "$here/sim" && cargo build --offline --quiet --profile $profile) >"$here/sim/target/build-$profile.log" 2>&1 &
    builds+=($!)
done
for b in "${builds[@]}"; do
    if ! wait "$b"; then
        wait
        grep -l "^error" "$here/sim/target/build-"*.log | head -1 | xargs -r cat >&2
        echo "check.sh: the simulator does not build against /repo" >&2
        exit 2
    fi
done
exec 9>&-
bin="$here/sim/target/debug/dissim"
case "${1:-}" in
--build) exit 0 ;;
--replay) exec "$bin" replay "${2:?file}" ;;
C[0-9][0-9]) exec "$bin" check "$1" ;;
*) echo "usage: check.sh PROPERTY | --replay FILE | --build" >&2; exit 2 ;;
esac
