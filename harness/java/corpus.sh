#!/bin/bash
# corpus.sh OUT SEED quick|thorough: writes the pack of compiled classes.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
exec java -Xmx4g -Xshare:auto "$here/Corpus.java" "$1" "$2" "$3" /repo
