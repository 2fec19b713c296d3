#!/bin/bash
# Builds all check binaries once (each check rebuilds incrementally from /repo's working tree).
cd "$(dirname "$0")" || exit 3
export VERIF_BUILD_ALL=1
exec ./run.sh ALL
