#!/bin/bash
# Builds the simulator around /repo's current working tree.
# usage: build.sh OUTDIR [REPO]   -> OUTDIR/simrun
set -euo pipefail
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mkdir -p "$1" && cd "$1" && pwd)"
repo="${2:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
export GOFLAGS="-mod=mod -buildvcs=false -trimpath"
: "${HOME:=/root}"; export HOME
: "${GOCACHE:=$HOME/.cache/go-build}"; export GOCACHE
w="$out/w"
rm -rf "$w"; mkdir -p "$w"
cp -r "$here/sim/zsim" "$w/zsim"
cp -r "$here/sim/simrun" "$w/simrun"
( cd "$here/sim/rewrite" && GOFLAGS="-mod=readonly -buildvcs=false -trimpath" go build -o "$w/rewrite" . )
"$w/rewrite" "$repo" "$w/repo" "$w/zsim"
mod=$(sed -n 's/^ *"module": "\(.*\)",*$/\1/p' "$w/repo/rewrite.json")
( cd "$w" && python3 - "$mod" <<'P'
import json,sys
mod=sys.argv[1]
d=json.load(open('repo/rewrite.json'))
o=['package main','','import (']
for i,p in enumerate(d['reset']): o.append('\tr%d "%s"'%(i,p))
o.append('\tmaincmd "%s/cmd/mnemonikey"'%mod)
o+=[')','','func resetAll() {']
for i,p in enumerate(d['reset']): o.append('\tr%d.SimReset()'%i)
o+=['}','','func simMain() { maincmd.SimMain() }','']
o.append('var vocabList = []string{%s}'%','.join(json.dumps(x) for x in d['vocab']))
open('simrun/glue_gen.go','w').write('\n'.join(o)+'\n')
# go.mod files
import re
gm=open('repo/go.mod').read()
reqs=re.findall(r'^\s*(?:require\s+)?(\S+\.\S+/\S+)\s+(v\S+)',gm,re.M)
s='module simrun\n\ngo 1.24\n\nrequire (\n\t%s v0.0.0\n\tzsim v0.0.0\n'%mod
z='module zsim\n\ngo 1.24\n\nrequire (\n'
for p,v in reqs:
    if p==mod: continue
    s+='\t%s %s\n'%(p,v); z+='\t%s %s\n'%(p,v)
s+=')\n\nreplace %s => ../repo\n\nreplace zsim => ../zsim\n'%mod
z+=')\n'
open('simrun/go.mod','w').write(s)
open('zsim/go.mod','w').write(z)
t=open('repo/go.sum').read()
open('simrun/go.sum','w').write(t); open('zsim/go.sum','w').write(t)
P
)
( cd "$w/simrun" && go build -o "$out/simrun" . )
rm -rf "$w"
