#!/bin/bash
# usage: replay.sh FILE   -- re-executes a recorded violation exactly (exit 1 if it occurs again)
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath -- "${1:?usage: replay.sh FILE}") || exit 3
. "$here/build.sh" || exit 3
export VERIF_DIR="$here"
sim=$sim_checked
grep -q '^build=plain$' "$file" && sim=$sim_plain
exec "$sim" replay "$file"
