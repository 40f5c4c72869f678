#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the simulator around /repo's current tree and searches for violations.
set -uo pipefail
here="$(cd "$(dirname "$0")" && pwd)"
prop="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$tier" in
  quick) secs=240 ;;
  thorough) secs="${VERIF_SECS:-720}" ;;
  *) echo "unknown tier $tier" >&2; exit 2 ;;
esac
tmp="$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX")" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
if ! "$here/build.sh" "$tmp" /repo; then
  echo "check.sh: building the simulator around /repo failed" >&2
  exit 2
fi
mkdir -p "$here/evidence"
"$tmp/simrun" search -prop "$prop" -seed "$seed" -tier "$tier" -secs "$secs" -workers 8 \
  -evidence "$here/evidence/$prop.json" -replays "$here/evidence/replays" -known "$here/known-findings.txt"
