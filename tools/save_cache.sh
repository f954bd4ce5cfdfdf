#!/bin/bash
# refresh cache/ from build/ (after a change of driver.rs); `save_cache.sh deps` also refreshes the dependencies
set -eu
HERE="$(cd "$(dirname "$0")/.." && pwd)"; B="$HERE/build"
H="$(cat "$B/vdriver.key")"
mkdir -p "$HERE/cache"; rm -f "$HERE"/cache/vdriver.*.zst
zstd -q -19 -f "$B/vdriver" -o "$HERE/cache/vdriver.$H.zst"
if [ "${1:-}" = deps ]; then
  (cd "$B" && tar cf - --exclude='velato*' --exclude=incremental target | zstd -q -T8 -19 --long=27 -f -o "$HERE/cache/deps.tar.zst")
fi
