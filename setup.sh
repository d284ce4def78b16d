#!/bin/bash
# builds the analyser; the checks do the same when its output is missing
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.argv = ["setup"]
import check, props
check.sysroot()
check.build_engine()
props.srcscan(check)
for t in sorted({c["target"] for c in check.CFG.values() if c["target"]}):
    check.build_core(t)
P
