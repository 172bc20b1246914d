#!/bin/bash
# check.sh ID [--only section:index]: build the harness against /repo's working tree, run one check.
cd "$(dirname "$0")" || exit 2
export SV_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
id="$1"
[ -n "$id" ] || { echo "usage: check.sh ID [--only section:index]"; exit 2; }
# a stale evidence file must not pass for this run's
[ "$2" = "--only" ] || rm -f "$PWD/evidence/$id.json"
mkdir -p work evidence replays
log="$PWD/work/build-$id.log"
if ! (cd harness && cargo build --release --offline) >"$log" 2>&1; then
  echo "INCONCLUSIVE property=$id: the harness does not build against /repo"
  tail -n 30 "$log"
  exit 2
fi
case "$id" in
  *) cd harness && exec "$CARGO_TARGET_DIR/release/sv-check" "$@" ;;
esac
