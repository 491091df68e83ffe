#!/bin/bash
# tools/try.sh PATCH ID...   run checks against a scratch copy of /repo with PATCH applied (development aid)
p=$(realpath "$1"); shift
W=/tmp/tryw.$$; rm -rf "$W"; mkdir "$W"
(cd ${BASE:-/repo} && git ls-files | grep -v -e TestFiles -e "^docs" | tar c -T -) | tar x -C "$W"
( cd "$W" && git init -q . 2>/dev/null && git apply --recount "$p" ) || { echo "patch does not apply"; rm -rf "$W"; exit 2; }
cd "$(dirname "$(realpath "$0")")/.."
flock /tmp/try.lock env OXO_TARGET=/tmp/try-target ./dump.sh "$W.json" "$W" >"$W.log" 2>&1 || { tail -5 "$W.log"; }
for i in "$@"; do OXO_DUMPFILE="$W.json" OXO_REPO="$W" ./check "$i" 2>&1 | grep -v -e "^$i:" -e "^KNOWN-FINDING" | cut -c1-260 | head -${LINES_MAX:-6}; done
rm -rf "$W" "$W.json" "$W.log"
