#!/bin/bash
# run.sh ID [quick|thorough]   build what the check needs from /repo's working tree and run it
# run.sh replay FILE           run again the case a violation was reported for
# run.sh build                 build only
# Exit: 0 the property held, 1 VIOLATION, anything else: no answer.
cd /verif || exit 4
. /verif/env.sh
mkdir -p work

# build NAME COMMAND...: one at a time, quiet if it succeeds
try() {
    local log=work/build-$1.log
    shift
    flock work/build.lock "$@" >"$log" 2>&1
}
build() {
    try "$@" && return
    local log=work/build-$1.log
    grep -E '^error' -A8 "$log" | head -60
    echo "error: /repo does not build, or the harness does not build against it (see $log)"
    exit 4
}
cargo_harness="cd harness && exec cargo build --offline -q"
# harness ID: when the whole of it does not build, because of an interface that is no more, then
# the check it is for may still
harness() {
    try harness bash -c "$cargo_harness" && return
    local part
    case "$1" in
    P0[1-6]) part=parsing ;;
    P07) part=text ;;
    P08 | P09 | P1[0-3]) part=server ;;
    P14 | P28) part=wire ;;
    P15 | P16 | P17 | P18) part=files ;;
    P19 | P20) part=analysis ;;
    P21 | P22) part=project ;;
    P24) part=session ;;
    P25) part=typed ;;
    P26 | P27) part=extension ;;
    P29) part=helpers ;;
    *) part=sanitized ;;
    esac
    build harness bash -c "$cargo_harness --no-default-features --features $part"
}
# the binary the user runs, without hooks
server() {
    build server env RUSTFLAGS= CARGO_TARGET_DIR=/verif/target/plain bash -c \
        'cd /repo && exec cargo build --offline -q --locked -p move_language_server --bin move_language_server'
}

# the extension of the editor, in one file
extension() { build extension node editor/build.js work/extension.js; }

# the harness with sanitizers, and checked and compiled for Miri; in miri/ with some
# dependencies repaired (see DESIGN.md)
sanitizers() {
    export XDG_CACHE_HOME=/verif/target/cache
    local t=x86_64-unknown-linux-gnu
    build asan env RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/target/san/asan \
        RUSTFLAGS="$RUSTFLAGS -Zsanitizer=address" \
        bash -c "cd harness && exec cargo build --offline -q --target $t"
    build tsan env RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/target/san/tsan \
        RUSTFLAGS="$RUSTFLAGS -Zsanitizer=thread" \
        bash -c "cd miri && exec cargo build --offline -q --target $t -Zbuild-std"
    build miri env RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/target/san/miri \
        MIRIFLAGS="-Zmiri-disable-isolation" \
        bash -c "cd miri && exec cargo miri run --offline -q -- list"
}

case "$1" in
build)
    harness
    server
    extension
    sanitizers
    ;;
replay)
    harness "$(grep -o '"property": "P[0-9]*"' "$2" | grep -o 'P[0-9]*' | head -1)"
    grep -q '"property": "P\(14\|28\)"' "$2" && server
    grep -q '"property": "P2[67]"' "$2" && extension
    grep -q '"property": "P23"' "$2" && sanitizers
    exec target/debug/harness replay "$2"
    ;;
P23)
    harness "$1"
    sanitizers
    exec target/debug/harness check "$1" $2
    ;;
P26 | P27)
    harness "$1"
    extension
    exec target/debug/harness check "$1" $2
    ;;
P14 | P28)
    harness "$1"
    server
    exec target/debug/harness check "$1" $2
    ;;
*)
    harness "$1"
    exec target/debug/harness check "$1" $2
    ;;
esac
