#!/bin/bash
# usage: extract.sh OUTDIR   -- type-check /repo's current tree with the mirx driver and
# write one JSON per workspace crate into OUTDIR.  Needs no network; writes nothing in /repo.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
OUT=$(realpath -m -- "$1")
REPO=${REPO:-/repo}
WORK=${MIRX_WORK:-$HERE/.work}
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
mkdir -p "$WORK" "$OUT"
SYSROOT=$(rustc --print sysroot) || exit 3
DRV="$WORK/driver-target/debug/mirx"
( cd "$HERE/driver" && CARGO_TARGET_DIR="$WORK/driver-target" cargo build --offline --locked -q ) || { echo "extract: driver build failed" >&2; exit 3; }
export LD_LIBRARY_PATH="$SYSROOT/lib"
T="$WORK/target"
# cargo's freshness cache would skip the wrapper on a warm target directory: drop the
# workspace members' units (both build-directory layouts), never the dependencies'.
for d in "$T"/debug/.fingerprint/xsd-* "$T"/debug/.fingerprint/wsdl-* "$T"/debug/build/xsd-* "$T"/debug/build/wsdl-*; do
  [ -d "$d" ] && find "$d" -depth -delete
done
find "$OUT" -maxdepth 1 -name '*.json' -delete
MIRX_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$DRV" cargo check --workspace --offline --locked -q \
  --manifest-path "$REPO/Cargo.toml" --target-dir "$T" || { echo "extract: cargo check of $REPO failed" >&2; exit 4; }

# The reference functions (spec/) are type-checked against the repository's crates and exported the same
# way.  They need only public types; when those change shape the comparison rules report "undecided".
for SPEC in "$HERE"/spec*/; do
  N=$(basename "$SPEC")
  [ -f "$SPEC/Cargo.toml.in" ] || continue
  SP="$WORK/$N"
  mkdir -p "$SP/src"
  find "$SP/src" -name '*.rs' -delete
  cp "$SPEC"/src/*.rs "$SP/src/"
  sed "s#@REPO@#$REPO#g" "$SPEC/Cargo.toml.in" > "$SP/Cargo.toml"
  cp "$REPO/Cargo.lock" "$SP/Cargo.lock"
  C=$(sed -n 's/^name = "\(.*\)"$/\1/p' "$SPEC/Cargo.toml.in" | head -1)
  for d in "$T"/debug/.fingerprint/$C-* "$T"/debug/build/$C*; do
    [ -d "$d" ] && find "$d" -depth -delete
  done
  MIRX_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$DRV" cargo check --offline -q \
    --manifest-path "$SP/Cargo.toml" --target-dir "$T" 2>"$WORK/$N.log" || {
    echo "extract: the reference functions of $N do not type-check against this tree" >&2
    grep -m5 -A6 '^error' "$WORK/$N.log" >&2
  }
done
exit 0
