#!/bin/bash
# Prepares the checks: builds /repo's extensions once and proves that the test libraries import.
. /opt/vp/env.sh
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec python -m pbt.main --setup
