#!/bin/bash
# tryseed.sh ID [PID...]: build, test and demonstrate a planted change in /repo, run the given checks, undo it.
ID=$1; shift; D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
cp -a $D /tmp/demo_$ID; rm -f /tmp/demo_$ID/patch.diff /tmp/demo_$ID/meta.json
cd /repo
bash /opt/vp/build.sh >/tmp/bs.log 2>&1; timeout 300 bash /tmp/demo_$ID/demo.sh >/tmp/demo.clean.log 2>&1; echo "demo clean: $? (want 0)"
git apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -- .; rm -rf /tmp/demo_'$ID'; bash /opt/vp/build.sh >/tmp/bs.log 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/bs.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/bs.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/ts.log 2>&1; tail -1 /tmp/ts.log
timeout 300 bash /tmp/demo_$ID/demo.sh >/tmp/demo.bug.log 2>&1; echo "demo bug: $? (want nonzero)"; tail -3 /tmp/demo.bug.log
cd /verif; for p in "$@"; do timeout 900 python3 check.py $p >/tmp/ck.$p.log 2>&1; echo "$p rc=$?"; grep -a VIOLATION /tmp/ck.$p.log | head -2; done
