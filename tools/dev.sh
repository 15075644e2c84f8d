#!/bin/bash
# dev.sh c05 [args]: build and run a harness directly
p=$1; shift
cmake -S /verif/harness -B /verif/build/asan -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DREPO_DIR=${VERIF_REPO:-/repo} > /tmp/cm.log 2>&1 || { tail /tmp/cm.log; exit 2; }
ninja -C /verif/build/asan $p 2>&1 | grep -E "error|FAILED|warning: unused" | head -20
mkdir -p /tmp/w/$p
/verif/build/asan/$p --tmp /tmp/w/$p --out /tmp/w/$p.json --replay-out /tmp/w/$p.replay.json "$@" | cut -c1-1500 | head -30
python3 - <<P
import json
r=json.load(open("/tmp/w/$p.json"));
r.pop("samples");r.pop("rule")
print(r)
P
