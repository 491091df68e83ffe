#!/bin/bash
# usage: ffi_dump.sh OUT.json [REPO]   — dumps the MIR of the C interface crate (rs_ffi).
# The crate's flatbuffers module is generated code that is not in the repository (and its generator is not
# installed): a stand-in with the same types and accessors is written from fbs/ into a scratch copy.
set -e
V=$(cd "$(dirname "$0")" && pwd)
OUT=$(realpath -m "$1"); REPO=$(realpath ${2:-/repo})
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
unset RUSTUP_TOOLCHAIN RUSTFLAGS RUSTC_WRAPPER
B=$V/.build; mkdir -p $B
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
DH=$(sha256sum $V/driver/main.rs | cut -c1-16)
if [ ! -x $B/driver-$DH ]; then
  rustc +nightly -O -Awarnings --edition 2021 $V/driver/main.rs -o $B/driver-$DH.tmp.$$ >&2
  mv $B/driver-$DH.tmp.$$ $B/driver-$DH
fi
W=$(mktemp -d $B/ffi.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -r $REPO/rs_ffi/src $W/src
cp -r $V/ffi/flatbuffers $W/flatbuffers
cp $REPO/Cargo.lock $W/Cargo.lock
python3 $V/ffi/standin.py $REPO > $W/src/consolidated_generated.rs
cat > $W/Cargo.toml <<T
[package]
name = "draviavemal-openxml_office_ffi"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
draviavemal-openxml_office = { path = "$REPO/rs" }
flatbuffers = { path = "flatbuffers" }
anyhow = "1.0.90"
T
T=${OXO_TARGET:-$B/target}-ffi
rm -rf "$T"/debug/.fingerprint/draviavemal-openxml_office*
cd $W
rm -f "$OUT"
CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 OXO_DUMP="$OUT" OXO_CRATE=draviavemal_openxml_office_ffi RUSTC_WORKSPACE_WRAPPER=$B/driver-$DH \
  cargo +nightly check -q --color never --offline --lib --target-dir $T >&2
test -s "$OUT"
