#!/bin/bash
# Builds the model-checking harness from /repo's current working tree.
# Output binary: /verif/target/build/release/mc ; log: /verif/target/build.log
set -u
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target/build
# unstable but purely build-speed flag (parallel front end)
export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zthreads=8 -Awarnings"
H=/verif/harness
mkdir -p /verif/target
exec 9>/verif/target/.lock; flock 9
LOG=/verif/target/build.log
LITE=/verif/target/osmosis-std-lite
SRC=$(ls -d "${CARGO_HOME:-/root/.cargo}"/registry/src/*/osmosis-std-0.22.0 2>/dev/null | head -1)
# osmosis-std takes >70 s to compile in full; build the verbatim subset of its modules that the
# workspace uses.  If anything needs more than that, fall back to the full crate.
make_lite() {
  [ -n "$SRC" ] || return 1
  [ -f "$LITE/.done" ] && return 0
  rm -rf "/verif/target/osmosis-std-lite"
  mkdir -p "$LITE/src/types/osmosis" "$LITE/src/types/cosmos/base" || return 1
  cp "$SRC/Cargo.toml" "$SRC/README.md" "$LITE/" || return 1
  cp "$SRC"/src/*.rs "$LITE/src/" || return 1
  cp "$SRC/src/types/OSMOSIS_COMMIT" "$LITE/src/types/"
  [ -d "$SRC/src/serde" ] && cp -r "$SRC/src/serde" "$LITE/src/"
  for m in accum concentratedliquidity cosmwasmpool gamm lockup.rs poolmanager tokenfactory; do cp -r "$SRC/src/types/osmosis/$m" "$LITE/src/types/osmosis/" || return 1; done
  for m in auth bank crypto; do cp -r "$SRC/src/types/cosmos/$m" "$LITE/src/types/cosmos/" || return 1; done
  for m in query v1beta1; do cp -r "$SRC/src/types/cosmos/base/$m"* "$LITE/src/types/cosmos/base/" || return 1; done
  printf 'pub mod cosmos;\npub mod osmosis;\n' > "$LITE/src/types/mod.rs"
  printf 'pub mod %s;\n' accum concentratedliquidity cosmwasmpool gamm lockup poolmanager tokenfactory > "$LITE/src/types/osmosis/mod.rs"
  printf 'pub mod %s;\n' auth bank base crypto > "$LITE/src/types/cosmos/mod.rs"
  grep -E 'pub mod (query|v1beta1);' "$SRC/src/types/cosmos/base/mod.rs" > "$LITE/src/types/cosmos/base/mod.rs"
  touch "$LITE/.done"
}
cd "$H" || exit 2
cp -f /repo/Cargo.lock "$H/Cargo.lock" 2>/dev/null
chmod u+w "$H/Cargo.lock" 2>/dev/null
if make_lite && cargo build --release --offline --config "patch.crates-io.osmosis-std.path=\"$LITE\"" >"$LOG" 2>&1; then
  exit 0
fi
echo "--- lite build failed, trying the full osmosis-std" >>"$LOG"
cp -f /repo/Cargo.lock "$H/Cargo.lock" 2>/dev/null
if cargo build --release --offline >>"$LOG" 2>&1; then exit 0; fi
# the checks of pools and math call public functions of those crates directly; should such a
# signature have changed, the checks which go through contract messages can still be built
echo "--- building without the math checks" >>"$LOG"
if make_lite && cargo build --release --offline --no-default-features --config "patch.crates-io.osmosis-std.path=\"$LITE\"" >>"$LOG" 2>&1; then exit 0; fi
tail -40 "$LOG" >&2
exit 2
