#!/bin/bash
# try.sh PATCH CHECK...: runs checks against a scratch copy of /repo with the patch applied
patch=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/try-XXXXXX)
trap 'rm -rf "$d"' EXIT
. /opt/vp/env.sh
mkdir "$d/out"
cp -a /repo "$d/repo"
cd "$d/repo" || exit 2
git apply "$patch" || { echo "does not apply"; exit 2; }
go build ./... || { echo "does not build"; exit 2; }
if [ -z "$NOTEST" ]; then
  go test ./... 2>&1 | grep -E '^(---|FAIL|panic)' | head -5
fi
for c in "$@"; do
  VERIF_REPO="$d/repo" VERIF_OUT="$d/out" timeout 900 /verif/bin/check "$c" > "$d/log" 2>&1
  echo "$c: exit $? $(grep -v '^VIOLATION' "$d/log" | head -1 | cut -c1-300)"
done
