#!/bin/bash
# usage: bash check.sh C01            (VERIF_SEED, VERIF_TIER from the environment)
#        bash check.sh --replay evidence/replays/C01-0.json
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
exec python3 -m harness.main "$@"
