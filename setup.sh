#!/bin/bash
# Builds every harness once, offline, from the committed files.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p evidence replays
for h in $HARNESSES; do
	build "$h" || exit 1
done
