#!/bin/bash
# extract.sh OUT.json : build the driver if needed, check velato with it, write the facts
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
B="$HERE/build"; mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
SYS="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
# the compiled driver and dependencies are cached in cache/ (pure speed-up: rebuilt from source when absent or stale)
H="$( (cat "$HERE/driver/driver.rs"; rustc +nightly -vV) | sha256sum | cut -c1-16)"
if [ "$(cat "$B/vdriver.key" 2>/dev/null)" != "$H" ] || [ ! -x "$B/vdriver" ]; then
  if [ -f "$HERE/cache/vdriver.$H.zst" ] && zstd -dqfc "$HERE/cache/vdriver.$H.zst" >"$B/vdriver.tmp" 2>/dev/null; then
    chmod +x "$B/vdriver.tmp"
  else
    rustc +nightly --edition 2024 -O "$HERE/driver/driver.rs" -o "$B/vdriver.tmp" >"$B/driver.log" 2>&1 || { cat "$B/driver.log"; exit 3; }
  fi
  mv "$B/vdriver.tmp" "$B/vdriver"; echo "$H" >"$B/vdriver.key"
fi
if [ ! -d "$B/target" ] && [ -f "$HERE/cache/deps.tar.zst" ]; then
  (cd "$B" && zstd -dqc --long=27 "$HERE/cache/deps.tar.zst" | tar xf -) || rm -rf "$B/target"
fi
OUT="$1"
rm -f "$OUT"
T="$B/target"
rm -rf "$T"/debug/build/velato "$T"/debug/build/velato-* "$T"/debug/.fingerprint/velato-* "$T"/debug/incremental/velato-*
cd /repo || exit 3
export CARGO_TARGET_DIR="$T" CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow"
export RUSTC_WORKSPACE_WRAPPER="$B/vdriver" VELATO_FACTS_CRATE=velato VELATO_FACTS_OUT="$OUT"
cargo +nightly check --offline --locked -p velato --lib --all-features >"$B/check.log" 2>&1
rc=$?
if [ ! -s "$OUT" ]; then tail -40 "$B/check.log"; exit 4; fi
exit $rc
