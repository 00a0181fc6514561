#!/bin/bash
# check.sh build | check.sh ID [quick|thorough] | check.sh replay FILE
# Builds the simulator against /repo's working tree and runs one check.
# Exit 0: held; 1: VIOLATION line printed; 2: the check itself could not run.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
export VERIF_DIR="$(cd .. && pwd)"
mkdir -p ../work
want=$1
[ "$want" = replay ] && grep -q '"property": *"C17"' "$2" && want=C17
bin=./target/debug/ysim
[ "$want" = C17 ] && bin=./target/comment/debug/ysim
(
    # one build at a time; rebuild whenever the library's text changed, whatever its time stamps say
    flock 9
    now=$(cd ../../repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    one() { # TARGET-DIR CARGO-ARGUMENTS: rebuild of what changed
        dir=$1
        shift
        if [ "$now" != "$(cat "$dir/library.sum" 2>/dev/null)" ] && [ -d "$dir" ]; then
            cargo clean --quiet --offline --target-dir "$dir" -p yam-core -p yam-serde 2>/dev/null
        fi
        if ! cargo build --quiet --offline --target-dir "$dir" "$@" 2>../work/build.log; then
            tail -40 ../work/build.log >&2
            echo "build failed" >&2
            exit 2
        fi
        echo "$now" >"$dir/library.sum"
    }
    one target
    # C17 compares the library as it is with the library built to report comments
    case "$want" in build | C17) one target/comment --features comment ;; esac
) 9>../work/build.lock || exit 2
case "$1" in
build) exit 0 ;;
replay) exec $bin replay "$2" ;;
*) exec $bin check "$1" ${2:+"$2"} ;;
esac
