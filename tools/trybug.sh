#!/bin/sh
# trybug.sh ID...: which checks report a planted bug (on a scratch copy)
for id in "$@"; do
 w=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo "$w/repo"
 git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || echo "patch fails"
 p=${PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
 SVB_REPO="$w/repo" timeout 900 ${SVB:-/tmp/svb} -prop "$p" -out "$w/o" > "$w/log" 2>&1; rc=$?
 echo "== $id ($p): rc=$rc"; grep -E 'held|VIOLATION|violat|^ ' "$w/log" | cut -c1-${W:-260} | head -${N:-4}
 rm -rf "$w"
done
