#!/bin/bash
# mkseed.sh <id>: (re)completes /verif/seeded/<id> with the common demo files, then confirms in a
# scratch copy of /repo: patch applies, builds, stable tests pass, demo 0 without / nonzero with it.
id=$1
verif=$(cd "$(dirname "$0")/.." && pwd)
d=$verif/seeded/$id
cp -r "$verif/tools/demo/vendor" "$verif/tools/demo/Cargo.lock" "$verif/tools/demo/Cargo.toml.in" "$verif/tools/demo/demo.sh" "$d/" || exit 1
mkdir -p "$d/src"
cp "$verif/tools/demo/src/vm.rs" "$verif/tools/demo/src/rt.rs" "$d/src/"
if grep -q '^mod br;' "$d/src/main.rs"; then
  cp "$verif/tools/demo-bridge/Cargo.toml.in" "$verif/tools/demo-bridge/Cargo.lock" "$d/" && cp "$verif/tools/demo-bridge/src/br.rs" "$d/src/"
fi
if grep -q 'serde_json' "$d/src/main.rs"; then cp "$verif/tools/demo-json/Cargo.toml.in" "$verif/tools/demo-json/Cargo.lock" "$d/"; fi
. /opt/vp/env.sh
r=/tmp/seedrepo
[ -d $r ] || cp -a /repo $r
git -C $r checkout -q -- . && git -C $r pull -q /repo HEAD 2>/dev/null
cd $r || exit 1
export DEMO_TARGET=/tmp/seeddemo
bash "$d/demo.sh"; a=$?
git apply "$d/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash "$d/demo.sh"; b=$?
unset DEMO_TARGET
cargo test --workspace --no-run --offline --features "$FEATURES,nifty-asset/test-sbf" >/tmp/seed.log 2>&1 || { tail -20 /tmp/seed.log; echo "BUILD FAILS"; }
cargo test --workspace --no-fail-fast --offline --features "$FEATURES" -- --test-threads 8 >/tmp/seed.log 2>&1
python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log
python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
want=base.get('passed') or base.get('pass') or base.get('stable') or base
got=set(r.get('passed') or r.get('pass') or [])
want=set(want if isinstance(want,list) else want.keys())
print('stable tests', 'ALL PASS' if want<=got else ('MISSING %s'%sorted(want-got)))
P
git checkout -q -- .
echo "$id: demo clean=$a patched=$b"
