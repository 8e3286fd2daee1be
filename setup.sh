#!/bin/bash
# Prebuilds every harness into /verif/target; the checks rebuild incrementally.
cd "$(dirname "$0")" || exit 1
VERIF_DIR=$PWD
. ./toolenv.sh
for ws in $(awk 'NF{print $2}' checks.txt | sort -u); do
  ( cd "$ws" || exit 1
    export CARGO_TARGET_DIR=$VERIF_DIR/target/$(basename "$ws")
    [ -f env.sh ] && . ./env.sh
    for pkg in $(awk -v w="$ws" '$2==w{print $3}' ../checks.txt | sort -u); do
      cargo build --offline -p "$pkg" --bins || exit 1
    done ) || exit 1
done
