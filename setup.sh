#!/bin/bash
# Builds the framework from the committed files and warms Go's build cache.
cd "$(dirname "$0")" || exit 2
VERIF_RUNS=400 ./check.sh C14 quick
