#!/bin/bash
# Asks the JavaScript clients of the repository in the current directory (exit 0: as expected).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
node "$here/demo.cjs" requests "$tmp/q" && node "$here/driver.cjs" "$PWD" "$tmp/q" "$tmp/a" && node "$here/demo.cjs" judge "$tmp/q" "$tmp/a"
rc=$?
rm -f "$tmp/q" "$tmp/a"
rmdir "$tmp"
exit $rc
