#!/bin/sh
# Nothing to build ahead of the checks: each builds what it needs from /repo.
set -e
cd "$(dirname "$0")"
command -v java g++ python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
