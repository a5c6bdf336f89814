#!/bin/bash
# trybug.sh BUG...: run the check of each planted bug's property against a patched scratch copy
for b in "$@"; do
  d=$(mktemp -d /tmp/tryXXXX)
  cp -a /repo "$d/repo"
  (cd "$d/repo" && git apply "/verif/seeded/$b/patch.diff") || { echo "$b: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  out=$(env -u ROWAN_REUSE -u ROWAN_REUSE_SPEC ROWAN_REPO="$d/repo" ROWAN_CACHE="$d/cache" /verif/check ${P:-$p} 2>&1 | tail -4)
  echo "$b [$p] $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | head -1 | cut -c1-${W:-200})"
  rm -rf "${d:?}"
done
