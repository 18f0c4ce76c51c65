#!/bin/bash
# plant.sh ID [check...]: confirms the planted change seeded/ID in a scratch copy of /repo
# (demo passes without, fails with; builds; stable tests pass).  Not used by any check.
set -u
id=$1; d=/verif/seeded/$id; s=/tmp/plant.$id
rm -rf "$s"; cp -a /repo "$s"; cd "$s" || exit 2
git checkout -q -- .
. /opt/vp/env.sh
b() { cargo build --workspace --offline >"$s.log" 2>&1; }
b || { echo "clean build failed"; exit 2; }
mkdir "$s.d"; cp -a "$d"/. "$s.d"; rm -f "$s.d"/*.diff "$s.d"/meta.json
bash "$s.d/demo.sh" >"$s.log" 2>&1 || { echo "$id: DEMO FAILS CLEAN"; tail -5 "$s.log"; rm -rf "$s" "$s.d"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: does not apply"; rm -rf "$s" "$s.d"; exit 1; }
b || { echo "$id: DOES NOT BUILD"; tail -20 "$s.log"; rm -rf "$s" "$s.d"; exit 1; }
bash "$s.d/demo.sh" >"$s.log" 2>&1 && { echo "$id: DEMO PASSES WITH PATCH"; rm -rf "$s" "$s.d"; exit 1; }
( cargo test --workspace --no-fail-fast --offline -- --test-threads 8; cd tests && cargo test --no-fail-fast --offline -- --test-threads 8 ) >"$s.log" 2>&1
python3 - "$s.log" "$id" <<'P'
import re,sys
t=open(sys.argv[1]).read()
ok=len(re.findall(r'^test .* \.\.\. ok$',t,re.M)); bad=re.findall(r'^test (.*) \.\.\. FAILED$',t,re.M)
print(sys.argv[2],'tests ok',ok,'failed',bad[:5], 'errors',re.findall(r'^error.*$',t,re.M)[:3])
P
rm -rf "$s" "$s.d" "$s.log"
