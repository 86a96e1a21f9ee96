#!/bin/bash
# check.sh ID [quick|thorough]   decide one property (exit 0 held, 1 violated, 2 error)
# check.sh replay FILE           run the case of a replay file again
# check.sh build                 build everything
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings CARGO_TERM_COLOR=never
export PBT_VERIF=$here
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

# build VARIANT; prints the path of the program
build() {
    local dir profile out feats=()
    case $1 in
        strict)    dir=$here/target;           profile=release ;;  # debug assertions, overflow checks
        plain)     dir=$here/target;           profile=plain ;;    # as released
        unchecked) dir=$here/target-unchecked; profile=plain; feats=(--features unchecked) ;;
        *) return 2 ;;
    esac
    mkdir -p "$dir"
    # the sources of the crate decide, not their modification times
    (
        flock 9
        stamp=$(cd /repo && cat Cargo.toml $(find src -type f | LC_ALL=C sort) | sha256sum)
        if [ "$(cat "$dir/$profile.stamp" 2>/dev/null)" != "$stamp" ]; then
            find "$dir/$profile/.fingerprint" -maxdepth 1 -name 'sudoku-*' -exec rm -r -- {} + 2>/dev/null
        fi
        cd "$here/harness" || exit 2
        cargo build -q --offline --locked --profile "$profile" "${feats[@]}" --target-dir "$dir" >&2 || exit 2
        echo "$stamp" > "$dir/$profile.stamp"
    ) 9>"$dir/.lock" || return 2
    echo "$dir/$profile/pbt"
}

variant() {
    case $1 in
        S05) echo unchecked ;;
        B01 | B02) echo plain ;;
        *)   echo strict ;;
    esac
}

# a smaller part of the cases is run with another build as well
other() {
    case $1 in
        S05) ;;
        B01) echo strict 0.3 ;;
        B02) echo strict 1 ;;
        *)   echo plain 0.05 ;;
    esac
}

case ${1:-} in
    build)
        for v in strict plain unchecked; do build $v || exit 2; done
        ;;
    replay)
        id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
        built=$(sed -n 's/.*"build": *"\([a-z]*\)".*/\1/p' "$2" | head -1)
        exe=$(build "${built:-$(variant "$id")}") || { echo "error: build failed" >&2; exit 2; }
        exec "$exe" replay "$2"
        ;;
    [A-Z][0-9][0-9])
        tier=${2:-${VERIF_TIER:-quick}}
        main=$(variant "$1")
        exe=$(build "$main") || { echo "error: build failed" >&2; exit 2; }
        rc=0
        read -r second scale <<< "$(other "$1")"
        if [ -n "${second:-}" ]; then
            exe2=$(build "$second") || { echo "error: build failed" >&2; exit 2; }
            aside=$here/target/aside-$1-$$.json
            out=$(PBT_BUILD=$second PBT_EVIDENCE=$aside PBT_SCALE=$(awk "BEGIN { print $scale * ${PBT_SCALE:-1} }") "$exe2" check "$1" --tier "$tier")
            rc=$?
            if [ $rc -eq 1 ]; then
                echo "$out"
                mkdir -p "$here/evidence"
                mv "$aside" "$here/evidence/$1.json" 2>/dev/null
                exit 1
            fi
        fi
        PBT_BUILD=$main PBT_ASIDE=${aside:-} "$exe" check "$1" --tier "$tier"
        rc2=$?
        [ -z "${aside:-}" ] || rm -f "$aside"
        [ $rc2 -ne 0 ] && exit $rc2
        exit $rc
        ;;
    *)
        echo "usage: check.sh ID [quick|thorough] | replay FILE | build" >&2
        exit 2
        ;;
esac
