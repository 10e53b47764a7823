#!/bin/bash
# mkseed.sh <id>: seeded/<id>/ holds edit.py-produced patch; confirm patch, tests, demo in a scratch copy
set -e
ID=$1; D=/verif/seeded/$ID; W=/tmp/seedwt-$ID
git -C ${R:-/repo} worktree prune
rm -rf "/tmp/seedwt-$ID"; cp -a ${R:-/repo} "$W"
cd "$W"
git apply --check "$D/patch.diff"
cp -r "$D" "/tmp/seeddemo-$ID"
run() { sed "s#/repo#$W#g" "/tmp/seeddemo-$ID/demo.sh" >/dev/null; (cd "$W" && bash "/tmp/seeddemo-$ID/demo.sh" >/tmp/seedout-$ID 2>&1); }
if run; then echo "$ID clean demo ok"; else echo "$ID DEMO FAILS ON CLEAN"; cat /tmp/seedout-$ID; fi
git apply "$D/patch.diff"
if run; then echo "$ID DEMO PASSES WITH PATCH"; else echo "$ID demo fails with patch (good)"; fi
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W/src/keri/db /opt/venv/bin/python -m pytest -q -p no:cacheprovider --confcutdir=tests/db --timeout=300 tests/db/test_webdbing.py tools/test_check_spec_examples.py 2>&1 | tail -2
cd /; rm -rf "/tmp/seedwt-$ID" "/tmp/seeddemo-$ID"
