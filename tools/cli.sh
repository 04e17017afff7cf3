#!/bin/bash
# cli.sh <target dir>: builds the command line programs from /repo.
exec cargo build --release --offline --locked --manifest-path /repo/Cargo.toml \
  --bin rav1e --bin rav1e-ch --no-default-features \
  --features binaries,asm,threading,signal_support,channel-api,unstable,serialize \
  --target-dir "$1" \
  --config profile.release.lto=false --config profile.release.opt-level=1 \
  --config profile.release.incremental=false --config profile.release.debug=1 \
  --config profile.release.overflow-checks=true \
  --config profile.release.debug-assertions=true
