#!/bin/bash
# builds the model checker from /repo's working tree
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTC_WRAPPER="$here/rustc-wrapper.sh" CARGO_TARGET_DIR="$here/../target" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset CARGO_PROFILE_DEV_DEBUG
export RUSTFLAGS="-C target-feature=+avx"
cd "$here"
# cargo decides by modification times; decide by contents instead
mkdir -p "$CARGO_TARGET_DIR"
stamp="$(find /repo/program /repo/state /repo/instructions /repo/assertions /repo/no-padding /repo/interface /repo/rust-sdk -path '*/target/*' -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum; find "$here" -type f | sort | xargs sha256sum | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" != "$stamp" ]; then
  for c in swig swig-state swig-compact-instructions swig-assertions host-state host-assertions no-padding swig-interface swig-sdk solana-client solana-sdk harness; do
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/$c-*
  done
fi
# if a library function called directly has changed its signature, the checks
# that need it are left out (they report that they cannot run) and the rest stay
build() { cargo build --release --offline -p harness --no-default-features --features "$1"; }
if ! build lib,enc,cli,sdk; then
  [ -z "$MC_DEV" ]
  have=""
  build ""
  for f in lib enc cli sdk; do
    if build "${have:+$have,}$f"; then have="${have:+$have,}$f"; fi
  done
  build "$have"
fi
echo "$stamp" > "$CARGO_TARGET_DIR/.stamp"
