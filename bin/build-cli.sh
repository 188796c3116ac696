#!/bin/bash
# Builds the command line tool of /repo's working tree with a stand-in for ic-agent (rust/ic-agent), so
# that it can be run whole against the simulated ledger. Its sources are compiled where they are.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${REPO:-/repo}"
mkdir -p "$V/build/cli"
exec 9>"$V/build/.lock-cli"; flock 9
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$V/build/t3" CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_STRIP=true
sum() { (cd "$REPO"; find src cmdline Cargo.toml Cargo.lock wasm -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V"; find rust bin/build-cli.sh -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; echo "$REPO") | sha256sum | cut -d' ' -f1; }
H=$(sum)
if [ "$(cat "$V/build/.sum-cli" 2>/dev/null)" != "$H" ] || [ ! -x "$V/build/t3/debug/cli" ]; then
  rm -f "$V/build/.sum-cli"
  find "$V/build/t3/debug/.fingerprint" -maxdepth 1 \( -name 'core_nft-*' -o -name 'origyn*' -o -name 'bity*nft*' -o -name 'ic-agent*' \) -exec rm -rf {} + 2>/dev/null || true
  cd "$V/build/cli"
  sed -e "s#^ic-agent *=.*#ic-agent = { path = \"$V/rust/ic-agent\" }#" -e "s#path = \"../#path = \"$REPO/#" "$REPO/cmdline/Cargo.toml" > Cargo.toml
  printf '\n\n[[bin]]\nname = "cli"\npath = "%s/cmdline/src/main.rs"\n\n[workspace]\n' "$REPO" >> Cargo.toml
  cp "$REPO/Cargo.lock" Cargo.lock
  cargo build --offline > "$V/build/cli.log" 2>&1 || { tail -40 "$V/build/cli.log" >&2; exit 2; }
  echo "$H" > "$V/build/.sum-cli"
fi
