#!/bin/bash
# Builds the two canisters of /repo's working tree as wasm into /verif/build (ignored by git), with the
# same flags for every check. Prints nothing on success. The release profile is the repository's, except
# that link-time optimisation is off and the optimisation level lower, so that a rebuild takes seconds.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${REPO:-/repo}"
mkdir -p "$V/build"
exec 9>"$V/build/.lock"; flock 9
. /opt/vp/env.sh
export CARGO_INCREMENTAL=1 CARGO_TARGET_DIR="$V/build/t2"
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_STRIP=true
cd "$REPO"
sum() { (find src Cargo.toml Cargo.lock wasm -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum "$V/bin/build.sh") | sha256sum | cut -d' ' -f1; }
H=$(sum)
rel="$V/build/t2/wasm32-unknown-unknown/release"
if [ "$(cat "$V/build/.sum" 2>/dev/null)" != "$H" ] || [ ! -f "$rel/core_nft.wasm" ] || [ ! -f "$rel/index_icrc7.wasm" ]; then
  rm -f "$V/build/.sum"
  # Cargo goes by modification times; the tree may have been replaced by files with old ones.
  find "$rel/.fingerprint" -maxdepth 1 \( -name 'core_nft-*' -o -name 'index_icrc7-*' -o -name 'bity*nft*' \) -exec rm -rf {} + 2>/dev/null || true
  for c in core_nft index_icrc7; do
    cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p $c -- -C panic=abort >"$V/build/$c.log" 2>&1 || { tail -40 "$V/build/$c.log" >&2; exit 2; }
  done
  echo "$H" > "$V/build/.sum"
fi
