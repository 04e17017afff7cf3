#!/bin/bash
# Builds the harness once so that later checks only rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_INCREMENTAL RUSTFLAGS
export CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence" "$here/target"
for c in "$here"/harness*/; do
  (cd "$c" && cargo build --release --offline --locked --target-dir "$here/target") || exit 1
done
bash "$here/tools/cli.sh" "$here/target/cli" || exit 1
