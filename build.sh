#!/bin/bash
# Builds /verif/sim (with the hooks of /repo switched on) from /repo's current working tree, twice:
# checked (debug assertions and overflow checks on) and plain (without them, as shipped).
vdir=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
sim_checked="$vdir/sim/target/release/tpmsim"
sim_plain="$vdir/sim/target/p/plain/tpmsim"
build_sim() { # profile, target directory
    ( cd "$vdir/sim" && RUSTFLAGS='--cfg verif_sim' CARGO_TARGET_DIR="$2" CARGO_INCREMENTAL=0 \
        cargo build --profile "$1" --offline ) > "$vdir/sim/.build.$1.log" 2>&1
}
mkdir -p "$vdir/sim/target/p"
build_sim plain "$vdir/sim/target/p" & plain_pid=$!
build_ok=1
build_sim release "$vdir/sim/target" || build_ok=0
wait "$plain_pid" || build_ok=0
if [ $build_ok = 0 ]; then
    cat "$vdir/sim/.build.release.log" "$vdir/sim/.build.plain.log" >&2
    echo "build of the simulation harness failed" >&2
    if [ "${BASH_SOURCE[0]}" = "$0" ]; then exit 3; fi
    return 3
fi
