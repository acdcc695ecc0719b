#!/bin/bash
# check.sh PROPERTY [quick|thorough]: runs one static check on /repo's working tree
cd "$(dirname "$0")" || exit 2
if [ ! -x checker/bin/checker ] || [ -n "$(find checker -name '*.go' -newer checker/bin/checker 2>/dev/null | head -1)" ]; then
  bash checker/build.sh || exit 2
fi
exec checker/bin/checker -prop "$1" -tier "${2:-quick}" -verif "$PWD" -repo "${REPO:-/repo}"
