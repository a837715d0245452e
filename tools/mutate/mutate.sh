#!/bin/bash
# Builds, in /tmp/mut, a copy of the checker and of /repo in which every small
# change of an expression or statement is present behind a run-time switch.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
rm -rf /tmp/mut/repo /tmp/mut/verif
mkdir -p /tmp/mut/repo /tmp/mut/verif /tmp/mut/clean
cp -a /verif/ws /verif/KNOWN_FINDINGS.txt /tmp/mut/verif/
git -C /repo archive HEAD | tar -x -C /tmp/mut/repo
cargo build --release --offline --target-dir /tmp/mut-tool --manifest-path "$here/Cargo.toml" 2>/dev/null
cd /tmp/mut/repo
touch /tmp/mut/skip
sed -i 's/    std::process::exit(ck.finish());/    let rc = ck.finish();\n    if let Ok(p) = std::env::var("MC_COVER") { std::fs::write(p, (0..16384).filter(|i| MC_HIT[*i].load(std::sync::atomic::Ordering::Relaxed) != 0).map(|i| format!("{i} ")).collect::<String>()).unwrap(); }\n    std::process::exit(rc);/; s/^type Check/#[no_mangle]\npub static MC_HIT: [std::sync::atomic::AtomicU8; 16384] = [const { std::sync::atomic::AtomicU8::new(0) }; 16384];\n#[no_mangle]\npub static MC_MUT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\ntype Check/; s/^fn main() {/fn main() {\n    MC_MUT.store(std::env::var("MC_MUT").map_or(0, |x| x.parse().unwrap()), std::sync::atomic::Ordering::Relaxed);/' /tmp/mut/verif/ws/harness/src/main.rs
# MUT_CLIENT=1: the client libraries instead of the program
if [ -n "$MUT_CLIENT" ]; then dirs="interface/src rust-sdk/src"; else dirs="program/src state/src instructions/src assertions/src"; fi
files="$(find $dirs -name '*.rs' | grep -v -e error.rs -e constants.rs -e /tests/ | sort)"
cp -a /tmp/mut/repo /tmp/mut/repo.orig.$$
for round in $(seq 1 30); do
  for f in $files; do cp /tmp/mut/repo.orig.$$/$f $f; done
  /tmp/mut-tool/release/mutate /tmp/mut/list /tmp/mut/skip $files
  cd /tmp/mut/verif/ws
  . /opt/vp/env.sh 2>/dev/null || true
  unset CARGO_PROFILE_DEV_DEBUG
  if RUSTC_WRAPPER=/tmp/mut/verif/ws/rustc-wrapper.sh CARGO_TARGET_DIR=/tmp/mut/target CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-feature=+avx" cargo build --release --offline --message-format=json >/tmp/mut/build.json 2>/tmp/mut/build.err; then echo built; break; fi
  python3 "$here/blame.py" || { echo stuck; tail -30 /tmp/mut/build.err; exit 1; }
  cd /tmp/mut/repo
done
rm -rf /tmp/mut/repo.orig.$$
