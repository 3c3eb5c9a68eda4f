#!/bin/bash
# Builds what does not depend on the tree under test and warms the cargo build.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/java evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build/java tla/java/*.java
python3 - <<'PY'
import sys
sys.path.insert(0, "bin")
import check
check.build_java()
for exe in (None, "t17", "t20", "s18", "s20", "s21"):
    try:
        print(check.build_harness(exe))
    except check.ToolError as e:
        if exe is None:
            raise
        print(e)
PY
