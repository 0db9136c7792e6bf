#!/bin/sh
# Every check compiles the Java operator overrides itself; this only confirms the tools are there.
set -e
cd "$(dirname "$0")"
command -v javac >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d "$d" spec/java/*.java
echo ok
