#!/bin/bash
# Nothing to install: checks build what they need. Verifies the toolchain.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p .build evidence replays
g++ --version >/dev/null && python3 -c 'import json' && ls /usr/include/opencv4 >/dev/null
