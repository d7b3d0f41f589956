#!/bin/bash
# check.sh <property>: builds the property's harness from /repo's working tree and runs it.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
id="$1"; shift
h=$(harness_of "$id") || { echo "check error: unknown property $id" >&2; exit 2; }
build "$h" || { echo "check error: $h does not build" >&2; exit 2; }
timeout -k 10 "${VERIF_TIMEOUT:-$( [ "$VERIF_TIER" = thorough ] && echo 3600 || echo 600 )}" "$CARGO_TARGET_DIR/release/$h" "$id" "$@"
code=$?
case $code in 0|1) exit $code ;; *) echo "check error: ended with $code" >&2; exit 2 ;; esac
