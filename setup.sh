#!/bin/bash
# builds the fact extractor (checks build it themselves when it is missing)
cd "$(dirname "$(readlink -f "$0")")" || exit 3
exec python3 -c 'from ka.core import build_tool; print(build_tool())'
