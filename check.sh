#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 1
if [ ! -x bin/graphverif ] || [ -n "$(find analyzer -name '*.go' -not -path '*/vendor/*' -newer bin/graphverif -print -quit)" ]; then
  ./setup.sh || { echo "VIOLATION property=$1 replay=none"; exit 1; }
fi
exec bin/graphverif -property "$1" -repo "${REPO:-/repo}" -verif "$PWD" ${2:+-tier "$2"}
