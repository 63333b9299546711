#!/bin/bash
# replay.sh FILE : rebuilds the driver from /repo and replays the script of a replay file; exit 1 if the failure is reproduced
D=$(cd "$(dirname "$0")" && pwd); O=$(mktemp -d); trap 'rm -rf "$O"' EXIT
bash "$D/build.sh" "${VERIF_REPO:-/repo}" "$O" || exit 2
A=$(sed -n 's/^# api=\([a-z]*\) .*/\1/p' "$1" | head -1)
[ -n "$A" ] || { echo "no concrete input in this file"; exit 2; }
"$O/driver" replay "$1" --api "$A"
