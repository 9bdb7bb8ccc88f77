#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
# Exit 0: it held on everything explored; 1: VIOLATION line(s) printed.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOSUMDB=off
mkdir -p "$here/evidence" "$here/.bin"
bin=$(mktemp "$here/.bin/verify.XXXXXX") || exit 2
trap 'unlink "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin" ./cmd/verify) || exit 2
"$bin" -prop "$1" -root "$here" ${2:+-tier "$2"}
