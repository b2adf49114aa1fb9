#!/bin/bash
# Warm the build cache: compiles the instrumenter and both builds of the harness once.
cd "$(dirname "$0")" || exit 1
export VERIF_TIER=quick
bash check.sh C02 --deadline 120 -only warm-nothing >/dev/null 2>&1
rm -f evidence/C02.json
exit 0
