#!/bin/bash
# Rebuilds the driver if needed and dumps the MIR of everything the contract programs reach.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
B="$V/build"; mkdir -p "$B"
export CARGO_NET_OFFLINE=true
SYS=$(rustc +nightly --print sysroot)
( cd "$V/driver" && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --release --quiet )
export LD_LIBRARY_PATH="$SYS/lib"
export MIRDUMP_CRATE=contracts MIRDUMP_OUT="$B/mir" MIRDUMP_TARGETS="srp;spake2;aucpace"
export MIRDUMP_DESCEND="$(tr '\n' ';' < "$V/vcgen/descend.txt")"
rm -rf "$B/mir"; mkdir -p "$B/mir"
export RUSTC_WORKSPACE_WRAPPER="$B/driver/release/mirdump"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Coverflow-checks=on --cap-lints=allow"
export CARGO_TARGET_DIR="$B/mirtarget"
touch "$V/contracts/src/lib.rs"
( cd "$V/contracts" && cargo +nightly check --quiet --offline )
