#!/bin/bash
# check.sh ID TIER
cd "$(dirname "$0")" || exit 3
exec node --stack-size=3900 lib/run.js "$1" "${2:-${VERIF_TIER:-quick}}"
