#!/bin/bash
# Builds the simulator against the current working tree of /repo and runs the check of one property.
# usage: check.sh <property>            (VERIF_SEED, VERIF_TIER)
#        check.sh --build               only build
#        check.sh --replay <file>       repeat a recorded failure
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true VERIF_ROOT="$here"
export VERIF_OUT="${VERIF_OUT:-$here}"
build() {
    (cd "$here/sim" && cargo build --release --offline --locked --quiet) >"$here/sim/build.log" 2>&1 || {
        # a lock file may have to follow the manifests of /repo
        (cd "$here/sim" && cargo build --release --offline --quiet) >"$here/sim/build.log" 2>&1
    } || {
        cat "$here/sim/build.log" >&2
        echo "the simulator does not build" >&2
        exit 2
    }
}
case "$1" in
    --build) build ;;
    --replay) build; exec "$here/sim/target/release/rgb-sim" replay "$2" ;;
    *) build; exec "$here/sim/target/release/rgb-sim" check "$1" ;;
esac
