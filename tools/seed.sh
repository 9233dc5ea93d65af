#!/bin/bash
# seed.sh ID [check|full] : verify the planted bug seeded/ID in a private mount namespace
#   (a patched copy of /repo is bound over /repo for these commands only).
#   demo on the clean and on the patched tree, the check of its property on the patched
#   tree, and with "full" also the build and the stable tests.
# The demo is run from a copy of its folder without the patch.
ID=$1; MODE=${2:-check}
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
W=$(mktemp -d /tmp/seed-XXXXXX)
S=$HERE/seeded/$ID
cp -a /repo "$W/repo"; git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: does not apply"; rm -rf "$W"; exit 1; }
mkdir "$W/demo"; cp -a "$S/." "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
mkdir "$W/verif"; cp -a "$HERE/." "$W/verif/"; rm -rf "$W/verif/seeded"
PROP=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$S/meta.json")
(cd /repo && timeout 300 bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1); echo "$ID ($PROP): demo on the clean tree: $?"
export W PROP MODE
unshare -m bash <<'IN'
mount --bind $W/repo /repo || exit 1
mount --bind $W/verif /verif || exit 1
cd /repo
timeout 300 bash $W/demo/demo.sh </dev/null >$W/bug.log 2>&1; echo "   demo with the bug: $?"; tail -2 $W/bug.log
if [ "$MODE" = full ] || [ "$MODE" = tests ]; then
  bash /opt/vp/build.sh >$W/build.log 2>&1; echo "   build: $?"
  bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
print("   stable tests lost:", sorted(set(b['stable'])-set(o['passed']))[:5])
P
fi
if [ "$MODE" != tests ] && [ "$MODE" != demo ]; then
s=$(date +%s)
VERIF_SEED=${VERIF_SEED:-1} bash /verif/run.sh $PROP quick </dev/null >$W/check.log 2>&1; echo "   check: $? in $(( $(date +%s) - s )) s"; grep -E "VIOLATION|^family|harness" $W/check.log | cut -c1-300 | head -6
fi
IN
cd /; rm -rf "$W"
