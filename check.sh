#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the simulation harness against /repo's working tree and runs one property's batch: an eighth
# of it in the plain build, all of it in the checked one.
# exit 0: held on everything explored; 1: VIOLATION line printed; 3: error of the check itself
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: check.sh PROPERTY TIER}
tier=${2:-${VERIF_TIER:-quick}}
. "$here/build.sh" || exit 3
export VERIF_DIR="$here"
VERIF_SHARE=8 "$sim_plain" check "$prop" "$tier" | grep -v '^KNOWN-FINDING'
rc=${PIPESTATUS[0]}
[ "$rc" = 0 ] || exit "$rc"
VERIF_PLAIN_RUNS=$(sed -n 's/.*"runs_of_the_plain_build": \([0-9]*\).*/\1/p' "$here/evidence/$prop.json")
export VERIF_PLAIN_RUNS
exec "$sim_checked" check "$prop" "$tier"
