#!/bin/bash
# tools/seed.sh ID [CHECK...]: confirms one planted bug in a scratch copy of /repo
# (builds, tests pass, demo passes without and fails with it), then runs the check
# of its property (or the given checks) against the changed copy.
ID=$1; shift
D=${VROOT:-/verif}/seeded/$ID
S=${SEED_COPY:-/tmp/seedcopy}
if [ ! -d "$S/.git" ]; then rm -rf "$S"; cp -a /repo "$S"; fi
git -C "$S" checkout -q -- . && git -C "$S" fetch -q /repo main && git -C "$S" reset -q --hard FETCH_HEAD
bld() { cmake -S /opt/vp/cmake -B "$S/_build" -G Ninja -DREPO="$S" -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error >/tmp/seed.$$.log 2>&1 && ninja -C "$S/_build" >>/tmp/seed.$$.log 2>&1 || { tail -20 /tmp/seed.$$.log; return 1; }; }
if [ ! -f "$S/.fresh" ]; then rm -rf "$S/_build"; touch "$S/.fresh"; fi
T=$(mktemp -d); cp -a "$D/." "$T/"; rm -f "$T"/*.diff "$T/meta.json"
if [ -z "$SKIP_CLEAN" ]; then
bld || { echo "$ID: clean build fails"; exit 2; }
(cd "$S" && timeout 300 bash "$T/demo.sh" >/tmp/seed.$$.demo 2>&1) || { echo "$ID: demo FAILS on the clean tree"; tail -5 /tmp/seed.$$.demo; exit 2; }
fi
git -C "$S" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
bld || { echo "$ID: build with the patch fails"; exit 2; }
ctest --test-dir "$S/_build" -j8 --timeout 300 >/tmp/seed.$$.t 2>&1 || { echo "$ID: tests FAIL with the patch"; grep -E "Failed|\*\*\*" /tmp/seed.$$.t | head; git -C "$S" checkout -q -- .; exit 2; }
(cd "$S" && timeout 300 bash "$T/demo.sh" >/tmp/seed.$$.demo 2>&1) && { echo "$ID: demo PASSES with the patch"; git -C "$S" checkout -q -- .; exit 2; }
tail -1 /tmp/seed.$$.demo
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ $# = 0 ] && set -- $P
for c in "$@"; do
  s=$(date +%s)
  VERIF_REPO=$S VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 ${VROOT:-/verif}/check.py $c --tier quick >/tmp/seed.$$.c 2>&1; r=$?
  echo "$ID: check $c exit $r in $(( $(date +%s)-s )) s  $(grep -E '^VIOLATION' /tmp/seed.$$.c | head -1)"
  grep -v -E '^(VIOLATION|KNOWN)' /tmp/seed.$$.c | tail -3
done
git -C "$S" checkout -q -- .
rm -rf "$T" /tmp/seed.$$.*
