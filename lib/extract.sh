#!/bin/bash
# extract.sh OUTDIR: dump MIR facts of /repo's current working tree (all workspace crates) to OUTDIR.
set -e
OUT=$1
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
unset RUSTFLAGS RUSTC_WRAPPER RUSTUP_TOOLCHAIN
W=$(mktemp -d "${TMPDIR:-/tmp}/mirfacts.XXXXXX")
trap 'rm -rf "$W"' EXIT
if [ ! -x "$V/driver/target/release/mirfacts" ] || [ "$V/driver/src/main.rs" -nt "$V/driver/target/release/mirfacts" ]; then
  (cd "$V/driver" && cargo +nightly build --release --offline -q) >&2
fi
mkdir -p "$OUT"
cd "$REPO"
VALUE_BAG_CAPTURE_FALLBACK=1 MIRFACTS_CRATES=nora_ssh_core,nora_ssh,nora_sshd,nora_scp MIRFACTS_OUT="$OUT" \
  RUSTC_WRAPPER="$V/driver/target/release/mirfacts" CARGO_TARGET_DIR="$W/t" \
  cargo +nightly check --workspace --offline -q --locked >"$W/log" 2>&1 || { cat "$W/log" >&2; exit 3; }
