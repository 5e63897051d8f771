#!/bin/bash
# Warms the build caches; the checks build whatever they need themselves, so nothing here is required.
cd "$(dirname "$0")"
for t in cargo python3 taskset; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence target
python3 - <<'P'
import sys
sys.path.insert(0,'lib')
import plan
print(len(plan.PLAN),'checks planned')
P
