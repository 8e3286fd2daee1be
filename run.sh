#!/bin/bash
# usage: run.sh ID [quick|thorough] [--replay FILE]
# Rebuilds the check of one property against /repo's working tree and runs it.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd); export VERIF_DIR
. "$VERIF_DIR/toolenv.sh"
id=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
export VERIF_TIER=$tier
line=$(grep "^$id " "$VERIF_DIR/checks.txt") || { echo "unknown property $id" >&2; exit 64; }
read -r _ ws pkg bin <<<"$line"
cd "$VERIF_DIR/$ws" || exit 65
export CARGO_TARGET_DIR=$VERIF_DIR/target/$(basename "$ws")
log=$VERIF_DIR/target/build-$id.log; mkdir -p "$VERIF_DIR/target"
[ -f env.sh ] && . ./env.sh
if ! cargo build --offline -p "$pkg" --bin "$bin" >"$log" 2>&1; then
  cat "$log" >&2; echo "build failed" >&2; exit 66
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$tier" "$@"
