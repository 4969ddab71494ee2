#!/bin/bash
# Runs a demonstration as the final check does: cwd /repo, its folder laid elsewhere.
t=$(mktemp -d); cp -a "$1"/. "$t"/; rm -f "$t"/*.diff "$t"/*.patch "$t"/meta.json
cd /repo && timeout 300 bash "$t/demo.sh"; rc=$?; rm -rf "${t:?}"; exit $rc
