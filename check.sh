#!/bin/sh
# check.sh PROPERTY: analyses /repo's current sources for one property.
cd "$(dirname "$0")" || exit 2
dir=$(pwd)
[ -x bin/analyzer ] || sh tools/build.sh || exit 2
VERIF_DIR="$dir" exec ./bin/analyzer "$@"
