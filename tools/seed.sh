#!/bin/bash
# seed.sh ID PROPERTY "needs" "what it breaks": turn the current uncommitted change of /repo into seeded/ID.
# demo.sh must already exist in seeded/ID.  Verifies build, tests and demo, then restores /repo.
set -u
ID=$1; P=$2; D=/verif/seeded/$ID
mkdir -p $D
git -C /repo diff -- src machines > $D/patch.diff
test -s $D/patch.diff || { echo "no change in /repo"; exit 1; }
python3 - "$P" "$3" "$4" > $D/meta.json <<'PY'
import json, sys
print(json.dumps({"property": sys.argv[1], "needs": sys.argv[2], "what_it_breaks": sys.argv[3]}, indent=1))
PY
bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || { echo "does not build"; git -C /repo checkout -q -- .; exit 1; }
bash /opt/vp/test.sh /tmp/seed-test.json > /tmp/seed-test.log 2>&1; tail -1 /tmp/seed-test.log
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/seed-demo.log 2>&1); echo "demo with patch: $? (want nonzero)"
python3 /verif/check.py $P | head -4; echo "check exit ${PIPESTATUS[0]} (want 1)"
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/seed-demo.log 2>&1); echo "demo without patch: $? (want 0)"
rm -f /tmp/seed-build.log /tmp/seed-test.log /tmp/seed-test.json /tmp/seed-demo.log
