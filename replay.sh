#!/bin/bash
# usage: replay.sh FILE   Rebuilds around /repo and repeats a recorded violation (exit 1: reproduced).
set -uo pipefail
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX")" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
"$here/build.sh" "$tmp" /repo || exit 2
"$tmp/simrun" replay "$1"
