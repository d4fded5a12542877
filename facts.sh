#!/bin/bash
# Build the extractor if needed and dump MIR facts of /repo's current tree.  usage: facts.sh OUTDIR
set -euo pipefail
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
OUT="$1"
CACHE="${MFV_CACHE:-$V/.cache}"
mkdir -p "$CACHE" "$OUT"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTFLAGS= CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec 9>"$CACHE/lock"; flock 9
(cd "$V/driver" && CARGO_TARGET_DIR="$CACHE/driver" cargo build --offline --locked -q)
SYS="$(rustc --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
export CARGO_TARGET_DIR="$CACHE/target" RUSTC_WORKSPACE_WRAPPER="$CACHE/driver/debug/mirfacts" MIRFACTS_OUT="$OUT"
rm -rf "$CACHE/target/debug/.fingerprint/"markdown-fmt-* "$CACHE/target/debug/build/markdown-fmt" "$CACHE/target/debug/incremental"
cd "$REPO"
CARGO_INCREMENTAL=0 cargo check -q --offline --locked --lib --bins --features build-binary
ls "$OUT"/markdown_fmt-lib.json "$OUT"/markdown_fmt-bin.json >/dev/null
