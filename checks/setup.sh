#!/bin/bash
# Builds the MIR exporter and warms the dependency caches (all offline).
set -e
cd "$(dirname "$0")/.."
python3 - <<'PY'
import sys
sys.path.insert(0, "engine")
import dump
dump.build_driver()
for tag, feats, prof in (("default", None, "dev"), ("noserde", [], "dev"), ("release", None, "release")):
    d = dump.run_dump(feats, tag=tag, profile=prof)
    print(tag, len(d["bodies"]), "bodies")
print("model", len(dump.spec_dump()["bodies"]), "bodies")
PY
