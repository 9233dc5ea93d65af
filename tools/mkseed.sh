#!/bin/bash
# mkseed.sh ID : take the difference of the scratch tree ${SW:-/tmp/sw/repo} as seeded/ID/patch.diff
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
mkdir -p "$HERE/seeded/$1"
git -C ${SW:-/tmp/sw/repo} diff > "$HERE/seeded/$1/patch.diff"
git -C ${SW:-/tmp/sw/repo} checkout -q -- .
wc -l "$HERE/seeded/$1/patch.diff"
