#!/bin/sh
# Nothing is kept: every check stages the code under test and builds its helper itself.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
gcc --version >/dev/null && /opt/venv/bin/python -c "import psutil, asyncio" && python3 -c "import json" && gcc -O1 -Wall -o /dev/null vf/vh.c
