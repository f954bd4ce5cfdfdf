#!/bin/bash
# build the extractor and warm the dependency cache
set -e
cd "$(dirname "$0")/.."
bash tools/extract.sh "$PWD/build/setup.json"
rm -f "$PWD/build/setup.json"
