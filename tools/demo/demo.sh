#!/bin/bash
# exit 0: the property held; nonzero: it was violated (or the demonstration can't be built)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp "$here"/main.rs "$here"/kit.rs "$here"/wire.rs "$work"/ || exit 3
name=demo-$(echo "$(cat "$here"/*.rs)" | md5sum | cut -c1-10)
sed "s/DEMONAME/$name/" "$here"/Cargo.toml.in > "$work"/Cargo.toml
cp /repo/Cargo.lock "$work"/Cargo.lock
cd /repo || exit 3
export CARGO_TARGET_DIR=/repo/target
cargo build --offline --manifest-path "$work"/Cargo.toml > "$work"/build.log 2>&1 || { tail -30 "$work"/build.log; exit 3; }
timeout 200 /repo/target/debug/"$name"
rc=$?
rm -f "/repo/target/debug/$name" "/repo/target/debug/$name.d"
exit $rc
