#!/bin/bash
# mkseedjs.sh <id>: completes /verif/seeded/<id> with the stand-ins and confirms it (JavaScript clients).
id=$1
verif=$(cd "$(dirname "$0")/.." && pwd)
d=$verif/seeded/$id
cp "$verif"/js/*.cjs "$verif/tools/demo-js/demo.sh" "$d/" || exit 1
r=/tmp/seedrepo
[ -d $r ] || cp -a /repo $r
git -C $r checkout -q -- . && git -C $r pull -q /repo HEAD 2>/dev/null
cd $r || exit 1
bash "$d/demo.sh"; a=$?
git apply "$d/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash "$d/demo.sh"; b=$?
git checkout -q -- .
echo "$id: demo clean=$a patched=$b"
