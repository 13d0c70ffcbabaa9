#!/bin/bash
# tools/runseeded.sh [ID...] : run each planted bug's check on a patched copy
# of /repo and record the failing obligation in tools/seeded_results.json.
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here"
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  t=$(mktemp -d /tmp/seeded.XXXXXX); cp -a /repo "$t/repo"
  git -C "$t/repo" apply "$here/seeded/$id/patch.diff" || { echo "$id PATCH"; continue; }
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  SYMX_REPO="$t/repo" /opt/venv/bin/python check.py $p > "$t/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s"
  /opt/venv/bin/python - "$id" "$p" $rc "$t/out" <<'P'
import json,sys,os
i,p,rc,o=sys.argv[1:]
f="tools/seeded_results.json"
d=json.load(open(f)) if os.path.exists(f) else {}
l=[x for x in open(o) if x.startswith("  fails: ")]
d[i]=(f"{p}: "+l[0][9:].split(": [[")[0]) if rc=="1" and l else f"{p}: MISSED (exit {rc})"
json.dump(d,open(f,"w"),indent=1,sort_keys=True)
P
  rm -rf "$t"
done
