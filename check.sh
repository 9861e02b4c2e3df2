#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FAMILY#CASE]
# Builds the check of one property against /repo's working tree and runs it.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1} MC_VERIF=$here
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# nothing from the caller's environment may change what is built
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR MC_CHILD MC_SINGLE MC_SUMMARY MC_ALSO
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
# Heavy explorations are worth optimizing, the others compile faster than they run
profile=light
[ "$tier" = thorough ] && profile=release
case " $(cat "$here/mc/optimized") " in *" $prop "*) profile=release;; esac
cd "$here/mc" || exit 2
scratch=$(mktemp -d) || exit 2
trap 'rm -r "$scratch"' EXIT
log=$scratch/log

# build PROFILE
build() {
    # cargo tells by time stamps whether a dependency changed; a restored or copied
    # tree can fool it, so the library under test is always built again
    cargo clean --offline --profile "$1" -p sqrid >"$log" 2>&1
    cargo build --offline --profile "$1" --bin "$bin" >"$log" 2>&1 && return
    cat "$log" >&2
    # The check names the constants of the position types. If the library itself
    # is fine but the compiler finds such a constant impossible to compute (as
    # it does for an overflow), that is what the property rules out.
    case " $(cat "$here/mc/constants") " in *" $prop "*)
        if grep -q '^error\[E0080\]' "$log" && ! grep -q '^error: could not compile `sqrid`' "$log"; then
            mkdir -p "$here/replays"; cp "$log" "$here/replays/$prop.log"
            echo "VIOLATION property=$prop replay=$here/replays/$prop.log"
            exit 1
        fi;;
    esac
    echo "check.sh: cannot build the check of $prop against /repo" >&2
    exit 2
}

if [ "${1:-}" = "--replay" ]; then
    build "$profile"
    MC_SINGLE=$2 "target/$profile/$bin"
    exit
fi
# Some properties also depend on what is left when the run-time checks are not
# compiled in, the thorough tier looks at all of them.
case " $(cat "$here/mc/plain") thorough=$tier " in *" $prop "*|*thorough=thorough*)
    build plain
    MC_SUMMARY=$scratch/plain "target/plain/$bin" || exit
    export MC_ALSO=$scratch/plain;;
esac
build "$profile"
"target/$profile/$bin"
