#!/bin/bash
# replay.sh <file>: run a recorded history again
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
export DSIM_VERIF="$here"
exec "$here/sim/target/release/dsim" replay "$1"
