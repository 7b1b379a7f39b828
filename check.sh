#!/bin/bash
# check.sh <property> [--replay <file>] | check.sh --setup
# Builds the monitors against /repo's current working tree and runs those of one property.
# Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: no verdict.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
mkdir -p "$HERE/evidence" "$HERE/replays"

# Content fingerprint of everything the harness is built from, so that a build product older or
# newer than its sources is never trusted by its timestamp.
fingerprint() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum
     cd "$HERE/harness" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

# build <target-dir> <toolchain> <cc> <cflags> <rustflags> <cargo args...>
build() {
    local dir=$1 tc=$2 cc=$3 cflags=$4 rf=$5
    shift 5
    local fp; fp=$(fingerprint)
    local hooks="--cfg bip324_verif"
    local log="$dir/build.log"
    mkdir -p "$dir"
    if [ "$(cat "$dir/fingerprint" 2>/dev/null)" != "$fp" ]; then
        find "$dir" -maxdepth 5 -type d \( -name 'bip324-*' -o -name 'bip324-traffic-*' -o -name 'vh-*' \) -path '*/.fingerprint/*' -exec rm -rf {} + 2>/dev/null
        rm -f "$dir/hooks"
    fi
    if [ "$(cat "$dir/hooks" 2>/dev/null)" != off ]; then
        if (cd "$HERE/harness" && env ${cc:+CC="$cc"} ${cflags:+CFLAGS="$cflags"} RUSTFLAGS="$hooks $rf" \
            cargo $tc build --release --offline --target-dir "$dir" "$@") >"$log" 2>&1; then
            echo "$fp" >"$dir/fingerprint"; echo on >"$dir/hooks"
            return 0
        fi
    fi
    # The hooks refer to private items: without them less is observed, but a verdict is possible.
    if (cd "$HERE/harness" && env ${cc:+CC="$cc"} ${cflags:+CFLAGS="$cflags"} RUSTFLAGS="$rf" \
        cargo $tc build --release --offline --target-dir "$dir" "$@") >"$log" 2>&1; then
        echo "$fp" >"$dir/fingerprint"; echo off >"$dir/hooks"
        echo "NOTE: built without hooks"
        return 0
    fi
    tail -40 "$log"
    echo "ERROR the code under test does not build with the harness"
    return 3
}
HOST=x86_64-unknown-linux-gnu
build_plain() { build "$HERE/harness/target" "" "" "" ""; }
build_asan() { build "$HERE/harness/target-asan" +nightly clang "-fsanitize=address,undefined -fsanitize-trap=undefined -g" "-Zsanitizer=address" --target $HOST; }
build_tsan() { build "$HERE/harness/target-tsan" +nightly clang "-fsanitize=thread -g" "-Zsanitizer=thread" -Zbuild-std --target $HOST; }
build_msan() { build "$HERE/harness/target-msan" +nightly clang "-fsanitize=memory -fsanitize-memory-track-origins -g" "-Zsanitizer=memory -Zsanitizer-memory-track-origins" -Zbuild-std --target $HOST; }
# The interpreter has its own crate: the C library cannot run in it, a toy in Rust stands in. A
# failure here is no verdict, the code is built by the other lanes as well.
build_miri() {
    local dir="$HERE/miri/target" fp
    fp=$(fingerprint; cd "$HERE/miri" && find src secp256k1-sys Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
    fp=$(echo "$fp" | sha256sum | cut -d' ' -f1)
    mkdir -p "$dir"
    if [ "$(cat "$dir/fingerprint" 2>/dev/null)" != "$fp" ]; then
        find "$dir" -maxdepth 5 -type d \( -name 'bip324-*' -o -name 'bip324-traffic-*' -o -name 'um-*' -o -name 'secp256k1-sys-*' \) -path '*/.fingerprint/*' -exec rm -rf {} + 2>/dev/null
        rm -f "$dir/hooks"
    fi
    local rf
    for rf in "--cfg bip324_verif" ""; do
        if (cd "$HERE/miri" && RUSTFLAGS="$rf" MIRIFLAGS="-Zmiri-disable-isolation" \
            timeout -k 5 240 cargo +nightly miri run --offline --target-dir "$dir" -- nothing) >"$dir/build.log" 2>&1; then
            echo "$fp" >"$dir/fingerprint"; echo "$rf" >"$dir/hooks"
            return 0
        fi
    done
    rm -f "$dir/hooks"
    echo "NOTE: no interpreter lane: $(tail -3 "$dir/build.log" | tr '\n' ' ')"
    return 1
}

if [ "${1:-}" = --setup ]; then
    build_plain || exit 3
    build_asan || exit 3
    build_tsan || exit 3
    build_msan || exit 3
    build_miri
    exit 0
fi
ID=${1:?property id}
shift
ARGS=()
if [ "${1:-}" = --replay ]; then
    R=${2:?replay file}
    fam=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["family"])' "$R") || exit 3
    idx=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["index"])' "$R") || exit 3
    SEED=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["seed"])' "$R") || exit 3
    TIER=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["tier"])' "$R") || exit 3
    ARGS=(--replays "$HERE/replays/again")
    [ "$fam" = "*" ] || ARGS+=(--only "$fam" "$idx")
else
    ARGS=(--evidence "$HERE/evidence/$ID.json" --replays "$HERE/replays")
fi
if [ "$ID" = C19 ]; then
    . "$HERE/c19.sh"
    exit $?
fi
build_plain || exit 3
LIMIT=860
[ "$TIER" = thorough ] && LIMIT=3600
timeout -k 5 $LIMIT "$HERE/harness/target/release/vh" "$ID" --tier "$TIER" --seed "$SEED" --known "$HERE/known-findings.txt" "${ARGS[@]}"
rc=$?
if [ $rc -eq 132 ] || [ $rc -eq 134 ] || [ $rc -eq 135 ] || [ $rc -eq 136 ] || [ $rc -eq 139 ]; then
    # The process died under the workload: a verdict for the property that forbids it.
    if [ "$ID" = C10 ]; then
        R="$HERE/replays/C10-crash.json"
        echo "{\"property\": \"C10\", \"family\": \"*\", \"index\": 0, \"seed\": $SEED, \"tier\": \"$TIER\", \"observed\": \"process killed by signal $((rc - 128))\"}" >"$R"
        echo "VIOLATION property=C10 replay=$R"
        exit 1
    fi
fi
case $rc in
    0 | 1) exit $rc ;;
    2) exit 2 ;;
    *) echo "ERROR no verdict (exit $rc)"; exit 3 ;;
esac
