#!/bin/bash
# testseed.sh COPY ID...: the stable tests in a copy of the repository with the change
r=$1; shift
. /opt/vp/env.sh; cd $r
for id in "$@"; do
git checkout -q -- . ; git apply /verif/seeded/$id/patch.diff || continue
cargo nextest run --workspace --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp > /tmp/test.$id.log 2>&1
echo "$id: $(grep -E 'FAIL|TIMEOUT|Summary|error' /tmp/test.$id.log | sort -u | tail -8 | tr '\n' ';' | cut -c1-400)" | tee -a /tmp/testseed.log
git checkout -q -- .
done
