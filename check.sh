#!/bin/bash
# check.sh <property> <quick|thorough>   builds the simulator against /repo's working tree and runs one check
# check.sh build                         builds only
# check.sh replay <file>                 replays a violation
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
# the hooks; and, where the processor has it, carry-less multiplication (30 times faster proofs)
RUSTFLAGS="--cfg vsim"
grep -qs pclmulqdq /proc/cpuinfo && RUSTFLAGS="$RUSTFLAGS -C target-feature=+pclmulqdq"
export RUSTFLAGS
src=/repo
# build [simmpc|simnet ...]: skipped when neither /repo's nor the simulator's files have changed since (cargo
# itself decides by file times, which copies of the tree do not keep)
files() { find . \( -name target -o -name .git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; }
build() {
    mkdir -p "$CARGO_TARGET_DIR"
    local h log="$CARGO_TARGET_DIR/build.log" p todo=""
    h=$( (cd "$src" && files; cd "$here/sim" && files; echo "$RUSTFLAGS"; rustc -V) | sha256sum | cut -d' ' -f1)
    for p in "$@"; do
        [ -x "$CARGO_TARGET_DIR/release/$p" ] && [ "$(cat "$CARGO_TARGET_DIR/.built-$p" 2>/dev/null)" = "$h" ] || todo="$todo -p $p"
    done
    [ -z "$todo" ] && return 0
    if [ "$(cat "$CARGO_TARGET_DIR/.source-hash" 2>/dev/null)" != "$h" ]; then
        (cd "$here/sim" && for p in iris-mpc mpc-net plain-reference simcore simmpc simnet simstore; do cargo clean --release --offline -p $p >/dev/null 2>&1; done)
    fi
    rm -f "$CARGO_TARGET_DIR"/.built-*
    echo "$h" >"$CARGO_TARGET_DIR/.source-hash"
    if ! (cd "$here/sim" && cargo build --release --offline $todo >"$log" 2>&1); then
        rm -f "$CARGO_TARGET_DIR/.source-hash"
        tail -60 "$log" >&2
        echo "check.sh: the simulator does not build against $src" >&2
        return 1
    fi
    for p in $todo; do [ "$p" = -p ] || echo "$h" >"$CARGO_TARGET_DIR/.built-$p"; done
}
bin_for() {
    case "$1" in
    C14 | C15 | C16 | C17 | C18 | C19 | C20) echo "$CARGO_TARGET_DIR/release/simnet" ;;
    C24 | C25) echo "$CARGO_TARGET_DIR/release/simstore" ;;
    *) echo "$CARGO_TARGET_DIR/release/simmpc" ;;
    esac
}
case "${1:-}" in
build)
    # one after another when they do not all build: the checks of the others still work
    build simmpc simnet simstore && exit 0
    rc=2
    for p in simmpc simnet simstore; do build $p && rc=0; done
    exit $rc
    ;;
replay)
    id=$(grep -o '"property": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')
    build "$(basename "$(bin_for "$id")")" || exit 2
    exec "$(bin_for "$id")" replay "$2"
    ;;
C*)
    build "$(basename "$(bin_for "$1")")" || exit 2
    exec "$(bin_for "$1")" check "$1" "${2:-quick}"
    ;;
*)
    sed -n 2,5p "$0"
    exit 2
    ;;
esac
