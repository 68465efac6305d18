#!/bin/bash
# check.sh <ID> [--thorough | --replay FILE]: builds the harness against /repo's working tree and runs one check.
# Exit 0: the property held on everything explored. 1: violation (a VIOLATION line). Else: the check could not run.
. "$(dirname "${BASH_SOURCE[0]}")/lib.sh"
cd "$VERIF_ROOT" || exit 2
ID="$1"
if [ "$PROFILE" = release ] && { [ "$VERIF_TIER" = thorough ] || [ "$2" = --thorough ]; }; then
    # first the quick check of the code as users build it, without its assertions
    VERIF_PROFILE=bare VERIF_TIER=quick "$VERIF_ROOT/check.sh" "$ID" || exit
fi
build_harness "$ID" || { echo "cannot build the harness against /repo" >&2; exit 2; }
if [[ "$ID" = C16 || "$ID" = C17 || "$ID" = C26 ]]; then
    if ! build_program 2>"$VERIF_ROOT/target/bin.log"; then
        tail -40 "$VERIF_ROOT/target/bin.log" >&2
        exit 2
    fi
fi
ulimit -v 24000000 2>/dev/null
ulimit -c 0
ERR="$VERIF_ROOT/target/stderr-$ID.$$"
"$HARNESS" "$@" 2>"$ERR"
CODE=$?
tail -c 4000 "$ERR" >&2
if [ $CODE -eq 134 ] || [ $CODE -eq 139 ] || [ $CODE -eq 136 ] || [ $CODE -eq 132 ]; then
    # the code under test took the whole process down (stack overflow, abort, failed allocation)
    mkdir -p "$VERIF_ROOT/replays"
    R="$VERIF_ROOT/replays/$ID-crash.txt"
    { echo "process ended with status $CODE; rerun: VERIF_SEED=${VERIF_SEED:-1} ./check.sh $*"; tail -c 4000 "$ERR"; } > "$R"
    echo "VIOLATION property=$ID replay=$R"
    CODE=1
fi
rm -f "$ERR"
exit $CODE
