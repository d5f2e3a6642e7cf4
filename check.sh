#!/bin/bash
# check.sh build          build everything from /repo's current tree
# check.sh ID             build, then run the check of one property
# check.sh replay FILE    build, then run the case of a replay file
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${NGV_REPO:-/repo}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
export NGV_ROOT=$here NGV_BIN=$here/target/repo/debug
mkdir -p "$here/target" "$here/evidence" || exit 3

driver() {
    local d=$here/target/cpp f="-g -O1 -fsanitize=address -I$here/headers -I$repo/gmatlib -I$repo/geqslib"
    mkdir -p "$d" && cd "$here/headers" || return 1
    gcc -std=c11 $f -c plain.c -o "$d/plain.o" &
    g++ -std=c++17 $f -c other.cpp -o "$d/other.o" &
    g++ -std=c++17 $f -c driver.cpp -o "$d/driver.o" || { wait; return 1; }
    wait
    g++ $f "$d/plain.o" "$d/other.o" "$d/driver.o" -o "$here/target/driver" -L"$NGV_BIN" -lgeqslib -lgmatlib -Wl,-rpath,"$NGV_BIN" -lpthread -ldl
    local r=$?
    command rm -f "$d/plain.o" "$d/other.o" "$d/driver.o"
    return $r
}

build() {
    # cargo decides by modification times; the contents decide here
    local now old
    now=$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' -o -name '*.lock' -o -name '*.h' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$here/target/stamp" 2>/dev/null)
    if [ "$now" != "$old" ]; then
        command rm -f "$here/target/stamp"
        if [ -d "$here/target/harness" ]; then
            (cd "$here/harness" && CARGO_TARGET_DIR=$here/target/harness cargo clean -q --offline -p gmatlib -p geqslib -p nexsys -p neapolitan) 2>/dev/null
        fi
        if [ -d "$here/target/repo" ]; then
            (cd "$repo" && CARGO_TARGET_DIR=$here/target/repo cargo clean -q --offline -p gmatlib -p geqslib -p nexsys -p neapolitan) 2>/dev/null
        fi
    fi
    (cd "$here/harness" && CARGO_TARGET_DIR=$here/target/harness cargo build -q --offline --locked) || return 1
    (cd "$repo" && CARGO_TARGET_DIR=$here/target/repo cargo build -q --offline --locked -p nexsys -p neapolitan --bins) || return 1
    (cd "$repo" && CARGO_TARGET_DIR=$here/target/repo cargo build -q --offline --locked -p gmatlib -p geqslib --lib) || return 1
    if [ "$now" != "$old" ] || [ ! -x "$here/target/driver" ] || [ -n "$(find "$here/headers" -newer "$here/target/driver")" ]; then
        # only the check of the headers needs it, and reports what does not compile
        driver > "$here/target/driver.log" 2>&1 || command rm -f "$here/target/driver"
    fi
    echo "$now" > "$here/target/stamp"
}

(
    flock 9
    build
) 9>"$here/target/lock" >"$here/target/build.log" 2>&1 || { cat "$here/target/build.log" >&2; echo "build failed" >&2; exit 3; }

case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$here/target/harness/debug/ngv" replay "$2" ;;
    *) exec "$here/target/harness/debug/ngv" check "$1" ;;
esac
