#!/bin/bash
# Usage: check.sh <property> [quick|thorough]
# Builds the checker against /repo's current working tree and runs the check of one property.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR="$V" CARGO_NET_OFFLINE=true
export RUST_MIN_STACK=
unset RUST_MIN_STACK
mkdir -p "$V/target" "$V/evidence" "$V/replays"
LOG="$V/target/build.$$.log"
trap 'rm -f "$LOG"' EXIT
build() { # <dir> <rustflags>
    (cd "$V/mc" && RUSTFLAGS="$2" CARGO_TARGET_DIR="$V/target/$1" \
        cargo build --release --offline --locked >"$LOG" 2>&1)
}
if build hook "--cfg zippity_verif"; then
    BIN="$V/target/hook/release/mc"
elif build nohook ""; then
    # The hook no longer fits the code: explore bounded trees without recognising states
    echo "note: building with the state hook failed, going on without it"
    BIN="$V/target/nohook/release/mc"
else
    cat "$LOG"
    echo "the checker does not build against /repo"
    exit 2
fi
rm -f "$V/evidence/$ID.json"
"$BIN" "$ID" "$TIER"
rc=$?
case $rc in
    0 | 1 | 2) exit $rc ;;
    132 | 134 | 135 | 136 | 139)
        # Aborts and stack overflows can't be caught in the process
        R="$V/replays/$ID-crash.json"
        printf '{"property":"%s","tier":"%s","section":"crash","choices":[],"signature":"crash","what":"the process exploring the code died with status %s"}\n' "$ID" "$TIER" $rc >"$R"
        echo "what:    the process exploring the code died with status $rc"
        echo "VIOLATION property=$ID replay=$R"
        exit 1
        ;;
    *)
        echo "the checker died with status $rc"
        exit 2
        ;;
esac
