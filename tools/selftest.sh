#!/bin/bash
# Determinism of the simulator: the same stories give the same execution digest
# whatever the number of workers, and when told twice.
set -uo pipefail
here="$(cd "$(dirname "$0")/.." && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf -- "$tmp"' EXIT
"$here/build.sh" "$tmp" /repo || exit 2
bad=0
for p in C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C26; do
  d=""
  for w in 8 3 8; do
    x=$("$tmp/simrun" search -prop $p -seed ${1:-7} -n ${2:-400} -secs 300 -workers $w -replays "$tmp" | sed -n 's/.*digest \([0-9a-f]*\).*/\1/p')
    [ -n "$d" ] && [ "$d" != "$x" ] && { echo "$p: digest $d and $x with $w workers"; bad=1; }
    d="$x"
  done
  echo "$p $d"
done
exit $bad
