#!/bin/bash
# assemble.sh ID: (re)creates seeded/ID's kit (emulated runtime) and demo.sh; seeded/ID/main.rs holds the scenario
set -e
top="$(cd "$(dirname "$0")/../.." && pwd)"; d="$top/seeded/$1"
rm -rf "$d/kit"; mkdir -p "$d/kit/prog" "$d/kit/demo/src"
mkdir -p "$d/kit/shims"; for f in pinocchio-token pinocchio shank; do cp -r "$top/ws/shims/$f" "$d/kit/shims/"; done
cp "$top/ws/rustc-wrapper.sh" "$top/tools/demokit/Cargo.lock" "$d/kit/"
rm -rf "$d"/kit/shims/*/target
sed 's#^members = .*#members = ["demo", "prog", "shims/shank", "shims/pinocchio-token", "shims/pinocchio"]#; s#opt-level = 2#opt-level = 0#; s#codegen-units = 16#codegen-units = 64#' "$top/ws/Cargo.toml" > "$d/kit/Cargo.toml"
sed 's#"../../../repo/#"/repo/#g' "$top/ws/swig/Cargo.toml" > "$d/kit/prog/Cargo.toml"
sed 's#"../../../repo/#"/repo/#g; s#"../swig"#"../prog"#; s#name = "mc"#name = "demo"#; s#name = "harness"#name = "demo"#' "$top/ws/harness/Cargo.toml" | sed '/^\[features\]/,/^$/d; /optional = true/d; /^host-state/d; /^solana-program/d; s#, features = \["client"\]##' > "$d/kit/demo/Cargo.toml"
for f in shims/pinocchio-token shims/pinocchio shims/shank; do sed -i 's#"\.\./\.\./\.\./\.\./repo/#"/repo/#g; s#"\.\./\.\./\.\./repo/#"/repo/#g' "$d/kit/$f/Cargo.toml"; done
for f in vm progs sw align; do cp "$top/ws/harness/src/$f.rs" "$d/kit/demo/src/"; done; cp "$top/tools/demokit/d.rs" "$d/kit/demo/src/"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Runs one scenario (main.rs) of the real program in the emulated runtime of kit/.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t="$(mktemp -d)"
trap '/bin/rm -rf "$t"' EXIT
cp -r "$here/kit/." "$t/"
cp "$here/main.rs" "$t/demo/src/main.rs"
export RUSTC_WRAPPER="$t/rustc-wrapper.sh" CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-feature=+avx"
unset CARGO_PROFILE_DEV_DEBUG
chmod +x "$t/rustc-wrapper.sh"
cd "$t"
cargo build --release --offline -p demo >"$t/log" 2>&1 || { tail -30 "$t/log"; echo "the demonstration does not build"; exit 3; }
"$CARGO_TARGET_DIR/release/demo"
D
chmod +x "$d/demo.sh"
