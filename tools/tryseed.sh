#!/bin/bash
# Development tool: tools/tryseed.sh ID [CHECK...] applies seeded/ID to a private copy of /repo
# (bound over /repo in a mount namespace, with a copy of /verif), builds, runs the stable tests,
# the demonstration and the named checks (default: the seed's property).
if [ -z "$IN_NS" ]; then
  w=$(mktemp -d /tmp/tryseed.XXXXXX); cp -a /repo "$w/repo"; mkdir "$w/verif"; cp -a /verif/. "$w/verif/"
  IN_NS=$w unshare -Urm bash -c 'mount --bind "$IN_NS/repo" /repo && mount --bind "$IN_NS/verif" /verif && cd /verif && exec bash tools/tryseed.sh "$@"' x "$@" > "$w/log" 2>&1
  echo "== $1"; cat "$w/log"; [ -n "$KEEP" ] && cp "$w"/verif/out/*.replay /tmp/ 2>/dev/null; rm -rf "${w:?}"; exit 0
fi
id=$1; shift; d=/verif/seeded/$id; rm -f /verif/out/*
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /verif/tools/demo.sh "$d" >"$IN_NS/demo0.log" 2>&1; echo "demo unchanged: $?"
git -C /repo apply "$d/patch.diff" || exit 2
bash /opt/vp/test.sh "$IN_NS/o.json" >"$IN_NS/test.log" 2>&1
python3 - "$IN_NS/o.json" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; p = set(json.load(open(sys.argv[1]))['passed'])
print("tests:", len([t for t in b if t in p]), "of", len(b), "missing", [t for t in b if t not in p][:6])
P
bash /verif/tools/demo.sh "$d" >"$IN_NS/demo1.log" 2>&1; echo "demo patched: $? $(tail -1 "$IN_NS/demo1.log")"
for c in ${@:-$prop}; do VERIF_SEED=${VERIF_SEED:-1} bash check.sh $c ${TIER:-quick} > "$IN_NS/chk.log" 2>&1; echo "check $c: $? $(grep -a -o 'VIOLATION.*' "$IN_NS/chk.log" | head -1) $(grep -a '^# class' out/$c.replay 2>/dev/null | head -1)"; done
