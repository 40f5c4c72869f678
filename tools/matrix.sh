#!/bin/bash
# matrix.sh OUT [ids...]: for each seeded bug run its own check
out=$1; shift
ids="$@"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
for b in $ids; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
 rm -rf /tmp/mx; git clone -q /repo /tmp/mx; git -C /tmp/mx apply /verif/seeded/$b/patch.diff || { echo $b PATCHFAIL; continue; }
 /verif/build.sh /tmp/mxo /tmp/mx || { echo $b BUILDFAIL; continue; }
 s=$(date +%s)
 r=$(/tmp/mxo/simrun search -prop $p -seed 1 -tier quick -secs 240 -workers 8 -replays /tmp/mxo/rp -known /verif/known-findings.txt 2>&1)
 rc=$?
 echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$r" | grep -v '^  \|^VIOL\|^C' | head -2 | cut -c1-90 | tr '\n' '|') $(echo "$r" | grep stories, | sed 's/.*: \([0-9]* stories\).*/\1/')"
done | tee $out
rm -rf /tmp/mx /tmp/mxo
