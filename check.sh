#!/bin/bash
# check.sh <property id>: build from /repo's working tree, then simulate.
# Exit 0 held, 1 violation (with a VIOLATION line), 2 no answer.
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || { echo "build failed" >&2; exit 2; }
export DSIM_VERIF="$here"
exec "$here/sim/target/release/dsim" check "$1"
