#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and runs one check.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: no answer.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export JV_ROOT="$here"
bash "$here/build.sh" || { echo "ERROR: the harness does not build against /repo's tree"; exit 2; }
exec "$here/harness/target/debug/jv" check "$id"
