#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's current tree
cd "$(dirname "$(readlink -f "$0")")" || exit 3
exec python3 -m ka.check "$@"
