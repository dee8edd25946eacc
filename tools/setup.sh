#!/bin/bash
# everything is built by the checks themselves; verify that the tools are there
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
g++ --version >/dev/null
for m in spec/*.tla; do
    java -DTLA-Library=spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
