#!/bin/bash
# try_bug.sh COPY ID...: validates planted changes in a scratch copy of /repo
# (COPY, a cp -a of it) bind-mounted over /repo in a mount namespace: applies,
# builds, runs the stable tests, runs the demo without and with the change.
copy=$1; shift
exec unshare -Urm bash -c '
mount --bind '$copy' /repo; mkdir -p '$copy'-log; mount --bind '$copy'-log /opt/vp/log
cd /repo
for id; do
  git checkout -q -- . ; d=/verif/seeded/$id; r=""
  bash $d/demo.sh >/tmp/try-$id.clean 2>&1 || r="$r DEMO-FAILS-CLEAN"
  git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  if bash /opt/vp/build.sh >/tmp/try-$id.build 2>&1; then
    rm -rf /tmp/try-$id.demo.d; cp -r $d /tmp/try-$id.demo.d; rm /tmp/try-$id.demo.d/{patch.diff,meta.json}
    bash /tmp/try-$id.demo.d/demo.sh >/tmp/try-$id.demo 2>&1 && r="$r DEMO-PASSES-WITH-BUG"
    rm -rf /tmp/try-$id.demo.d
    bash /opt/vp/test.sh /tmp/try-$id.json >/tmp/try-$id.test 2>&1
    r="$r $(python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); g=json.load(open(\"/tmp/try-$id.json\"))
p=set(g.get(\"passed\",[])) if isinstance(g,dict) else set()
m=sorted(b-p); print(\"tests ok\" if not m else \"TESTS BROKEN \"+str(m[:4]))")"
  else r="$r DOES-NOT-BUILD"; fi
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id:$r"
done' _ "$@"
