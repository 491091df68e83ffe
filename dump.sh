#!/bin/bash
# usage: dump.sh OUT.json [REPO]   — builds the driver if needed, dumps the MIR of the core crate
set -e
V=$(cd "$(dirname "$0")" && pwd)
OUT=$(realpath -m "$1"); REPO=${2:-/repo}
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
unset RUSTUP_TOOLCHAIN RUSTFLAGS RUSTC_WRAPPER
B=$V/.build; mkdir -p $B
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
DH=$(sha256sum $V/driver/main.rs | cut -c1-16)
if [ ! -x $B/driver-$DH ]; then
  rustc +nightly -O -Awarnings --edition 2021 $V/driver/main.rs -o $B/driver-$DH.tmp.$$ >&2
  mv $B/driver-$DH.tmp.$$ $B/driver-$DH
fi
T=${OXO_TARGET:-$B/target}
# force the workspace crate to be re-checked (cargo would skip the wrapper on a fresh target)
rm -rf "$T"/debug/.fingerprint/draviavemal-openxml_office-* "$T"/debug/build/draviavemal-openxml_office
cd $REPO
rm -f "$OUT"
CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 OXO_DUMP="$OUT" OXO_CRATE=draviavemal_openxml_office RUSTC_WORKSPACE_WRAPPER=$B/driver-$DH \
  cargo +nightly check -q --color never --offline --locked -p draviavemal-openxml_office --lib --target-dir $T >&2
test -s "$OUT"
