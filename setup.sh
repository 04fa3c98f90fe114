#!/bin/bash
# Unpacks hypothesis (+ sortedcontainers) from the offline wheelhouse into
# /verif/.deps (git-ignored).  Idempotent and safe to race.
here="$(cd "$(dirname "$0")" && pwd)"
deps="$here/.deps"
[ -e "$deps/.ok" ] && exit 0
tmp="$(mktemp -d "$here/.deps.XXXXXX")" || exit 1
/opt/venv/bin/python - "$tmp" <<'P' || exit 1
import glob, sys, zipfile
out = sys.argv[1]
for pat in ('hypothesis-*-cp312-*', 'sortedcontainers-*'):
    whl = sorted(glob.glob('/opt/veriftools/wheels/' + pat + '.whl'))[-1]
    zipfile.ZipFile(whl).extractall(out)
open(out + '/.ok', 'w').write('ok')
P
mv -T "$tmp" "$deps" 2>/dev/null || { [ -e "$deps/.ok" ] && rm -rf "$tmp"; }
[ -e "$deps/.ok" ]
