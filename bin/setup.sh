#!/bin/bash
# Nothing to install: checks the tools, and that library, harness and specification compile.
set -e
cd "$(dirname "$0")/.."
for j in 8 11 17 21 25; do test -x /usr/lib/jvm/java-$j-openjdk-amd64/bin/java; done
test -r /opt/veriftools/tla/tla2tools.jar
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'bin')
import vp
c = vp.Ctx('setup', 'quick', 1)
try:
    c.build(['seq', 'args'])
    c.overrides()
finally:
    c.close()
P
echo ready
