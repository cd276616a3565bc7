#!/bin/bash
# build.sh OUT.wasm: builds a standard library for wasm32 from its source, which comes with the toolchain, and the
# checks with that. (None is installed for it, nor for any other 32 bit target.)
set -u
here=$(cd "$(dirname "$0")" && pwd)
dir=${CARGO_TARGET_DIR:?}/w32
src=$(rustc --print sysroot)/lib/rustlib/src/rust/library
[ -f "$src/Cargo.lock" ] && [ -d "$src/vendor" ] || { echo "no source of the standard library"; exit 3; }
t=wasm32-unknown-unknown
sr=$dir/sysroot
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true
if [ ! -f "$sr/done" ]; then
  rm -rf "$dir/sys"
  mkdir -p "$dir/sys/src" "$dir/sys/.cargo" "$sr/lib/rustlib/$t/lib"
  cp "$src/Cargo.lock" "$dir/sys/"
  printf '#![feature(no_core)]\n#![no_core]\n' > "$dir/sys/src/lib.rs"
  cat > "$dir/sys/Cargo.toml" <<T
[package]
name = "custom-local-sysroot"
version = "0.0.0"
edition = "2021"
[lib]
path = "src/lib.rs"
[dependencies.std]
path = "$src/std"
[dependencies.sysroot]
path = "$src/sysroot"
[profile.release]
opt-level = 2
debug = false
[workspace]
T
  for p in core alloc std; do
    printf '[patch.crates-io.rustc-std-workspace-%s]\npath = "%s/rustc-std-workspace-%s"\n' $p "$src" $p >> "$dir/sys/Cargo.toml"
  done
  [ -d "$src/windows-sys" ] && printf '[patch.crates-io.windows-sys]\npath = "%s/windows-sys"\n' "$src" >> "$dir/sys/Cargo.toml"
  cat > "$dir/sys/.cargo/config.toml" <<T
[source.crates-io]
replace-with = "vendored"
[source.vendored]
directory = "$src/vendor"
T
  (
    cd "$dir/sys" || exit 1
    export CARGO_TARGET_DIR=$dir/sys/target RUSTC_BOOTSTRAP=1 __CARGO_DEFAULT_LIB_METADATA=x
    RUSTFLAGS="-Zforce-unstable-if-unmarked -Cpanic=unwind" cargo build --offline --release --target $t -q
  ) || exit 3
  cp "$dir/sys/target/$t/release/deps/"*.rlib "$sr/lib/rustlib/$t/lib/" || exit 3
  touch "$sr/done"
fi
cd "$here/.." || exit 3
export CARGO_TARGET_DIR=$dir/target RUSTC_BOOTSTRAP=1 CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS="--sysroot $sr -Cpanic=unwind -Clink-arg=-zstack-size=268435456"
cargo build --offline -q --target $t -p verif-w32 || exit 2
cp "$dir/target/$t/debug/verif_w32.wasm" "$1"
