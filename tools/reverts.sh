#!/bin/bash
# Development tool: takes back every repair listed in known-findings.txt, one at a time, in a
# private copy of /repo (mount namespace), and runs the check of its property.
if [ -z "$IN_NS" ]; then
  w=$(mktemp -d /tmp/reverts.XXXXXX); cp -a /repo "$w/repo"; mkdir "$w/verif"; cp -a /verif/. "$w/verif/"
  IN_NS=$w unshare -Urm bash -c 'mount --bind "$IN_NS/repo" /repo && mount --bind "$IN_NS/verif" /verif && cd /verif && exec bash tools/reverts.sh' ; rm -rf "${w:?}"; exit 0
fi
git config --global --add safe.directory '*' 2>/dev/null
grep '^fixed:' known-findings.txt | while read -r _ prop hash rest; do
  p=${prop#property=}
  git -C /repo diff "$hash" "$hash^" -- src include > "$IN_NS/r.diff"
  if ! git -C /repo apply --3way "$IN_NS/r.diff" >/dev/null 2>&1; then echo "CONFLICT $p $hash $rest"; git -C /repo checkout -qf HEAD -- . ; continue; fi
  bash check.sh "$p" quick > "$IN_NS/chk.log" 2>&1; rc=$?
  echo "$([ $rc = 1 ] && echo caught || echo MISSED) $p $hash rc=$rc $(grep -a '^# class' out/$p.replay 2>/dev/null | head -1) | $rest"
  rm -f out/*; git -C /repo checkout -qf HEAD -- .
done
