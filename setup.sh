#!/bin/bash
# Builds everything once, so that the checks only rebuild what changed in /repo.
. "$(dirname "${BASH_SOURCE[0]}")/lib.sh"
cd "$VERIF_ROOT" || exit 2
build_harness || exit 1
build_program
