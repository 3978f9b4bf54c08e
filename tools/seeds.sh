#!/bin/bash
# seeds.sh [ID...]: runs the check of its property against every planted bug and says which are caught
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here/seeded" || exit 2
for id in ${@:-*}; do
  p=$(python3 -c "import json,sys; print(json.load(open('$id/meta.json'))['property'])")
  NOTEST=1 "$here/tools/try.sh" "$id/patch.diff" "$p" 2>&1 | sed "s/^/$id: /" | tail -1 | cut -c1-200
done
