#!/bin/bash
# detect.sh id [prop]: run the property's check against the bug in a private mount namespace
i=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
w=/tmp/bw/$i.run; rm -rf $w /tmp/bw/$i.v; cp -a /repo $w; cp -a /verif /tmp/bw/$i.v; rm -rf /tmp/bw/$i.v/seeded
git -C $w apply /verif/seeded/$i/patch.diff || exit 9
s=$(date +%s)
unshare -Urm bash -c "mount --bind $w /repo && mount --bind /tmp/bw/$i.v /verif && cd /verif && SIM_WORKERS=${SIM_WORKERS:-8} VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 sim/run.py check $p" > /tmp/bw/$i.$p.log 2>&1; rc=$?
e=$(date +%s)
echo "$i $p rc=$rc $((e-s))s $(grep -E '^seed|VIOLATION|held|ERROR' /tmp/bw/$i.$p.log | cut -c1-220 | head -3 | tr '\n' '~')"
mkdir -p /tmp/bw/replays; cp /tmp/bw/$i.v/replays/*.json /tmp/bw/replays/ 2>/dev/null
rm -rf $w /tmp/bw/$i.v
