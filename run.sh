#!/bin/bash
# run.sh ID quick|thorough   builds the harness against /repo's working tree and runs one check
# run.sh replay FILE         executes a replay file again
cd /verif/harness || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
if ! cargo build --release --offline >/tmp/vp-build.$$ 2>&1; then
  tail -40 /tmp/vp-build.$$ >&2; rm -f "/tmp/vp-build.$$"
  echo "ERROR: the harness doesn't build against /repo" >&2
  exit 2
fi
rm -f "/tmp/vp-build.$$"
if [ "$1" = replay ]; then exec target/release/vp replay "$2"; fi
exec target/release/vp check "$1" "${2:-${VERIF_TIER:-quick}}"
