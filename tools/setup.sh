#!/bin/bash
# Nothing is kept between runs: every check builds its drivers from /repo. Only verify the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
command -v g++ java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
echo ok
