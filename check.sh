#!/bin/bash
# check.sh <property> [quick|thorough]: builds the harness against /repo's
# working tree and runs one check.  Exit 0: held; 1: VIOLATION; else: error.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export MC_ROOT=$here
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_INCREMENTAL RUSTFLAGS RAV1E_CPU_TARGET
export CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence" "$here/target"
# The assembler's include file is not among what the build script watches.
new=$(sha256sum < /repo/src/ext/x86/x86inc.asm)
if [ "$new" != "$(cat "$here/target/x86inc.sha256" 2>/dev/null)" ]; then
  rm -f "$here"/target/*/build/rav1e-*/out/asm.hash "$here"/target/cli/*/build/rav1e-*/out/asm.hash
  echo "$new" > "$here/target/x86inc.sha256"
fi
crate=harness
bin=mc-api
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! (cd "$here/$crate" && cargo build --release --offline --locked --bin $bin \
    --target-dir "$here/target") >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "build failed" >&2
  exit 3
fi
if [ "$id" = R16 ] && ! bash "$here/tools/cli.sh" "$here/target/cli" >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "build of the programs failed" >&2
  exit 3
fi
limit=850
[ "$tier" = thorough ] && limit=14400
timeout -k 5 $limit "$here/target/release/$bin" "$id" "$tier"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) echo "check ended with status $rc" >&2; exit 3 ;;
esac
