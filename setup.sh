#!/bin/bash
# Nothing is installed: the checks build what they need from /repo.  This only
# verifies that the tools are there and that every specification module parses.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
command -v java g++ python3 >/dev/null
d=$(mktemp -d)
cp spec/*.tla "$d"
cd "$d"
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY *.tla > sany.log 2>&1 || { tail -30 sany.log; exit 1; }
if grep -q '\*\*\* Errors' sany.log; then grep -A5 '\*\*\* Errors' sany.log; exit 1; fi
cd /
/bin/rm -rf "$d"
echo setup ok
