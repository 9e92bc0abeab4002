#!/bin/bash
# check.sh <ID>                    decide one property on /repo's current tree
# check.sh <ID> --replay <file>    re-run one stored case
# environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), VERIF_SCALE (percent of the case counts)
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer (build or harness trouble)
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
id="$1"
[ -n "$id" ] || { echo "usage: check.sh <ID> [--replay <file>]"; exit 2; }
log="$(mktemp)"
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/harness/target"
case "$id" in C25|C26) only=num;; C27) only=asset;; C32) only=wire;; *) only=;; esac
if ! cargo build --release --offline --quiet >"$log" 2>&1 &&
   ! cargo build --release --offline --quiet --no-default-features --features "$only" >"$log" 2>&1; then
  tail -n 40 "$log"; rm -f "$log"
  echo "ERROR: the harness does not build against /repo's current tree"
  exit 2
fi
rm -f "$log"
if [ "$2" = "--replay" ]; then
  f="$3"; case "$f" in /*) ;; *) f="$OLDPWD/$f";; esac
  exec "$here/harness/target/release/halo-verif" replay "$id" "$f"
fi
exec "$here/harness/target/release/halo-verif" run "$id"
