#!/bin/sh
# tools/fixed.sh PROP "what failed": record the last commit of /repo as a fix
echo "fixed: property=$1 $(git -C "${UDAPI_REPO:-/repo}" log -1 --format=%h) $2" >> "$(dirname "$0")/../known_findings.txt"
