#!/bin/bash
# usage: run.sh <property id> [replay-file]      (tier from VERIF_TIER, seed from VERIF_SEED)
. /opt/vp/env.sh
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
exec python -m pbt.main "$@"
