#!/bin/bash
# mkseed.sh ID [checks...] : the working tree of /repo holds the planted change (or seeded/ID/patch.diff is applied when
# the tree is clean); confirms build, tests, demo and runs the checks, then restores /repo.
ID=$1; shift; D=/verif/seeded/$ID
if [ -z "$(git -C /repo status --short)" ]; then git -C /repo apply $D/patch.diff || exit 1; else git -C /repo diff > $D/patch.diff; fi
[ -f $D/demo.py ] && { cp /verif/tools/demo/dax.py $D/; [ -f $D/demo.sh ] || printf '#!/bin/bash\nexec timeout 120 python3 -B "$(dirname "$0")/demo.py"\n' > $D/demo.sh; }
if [ -z "$NOTEST" ]; then bash /tmp/w/t.sh | grep MISSING; else bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED; fi
(cd /repo && bash $D/demo.sh > /tmp/w/demo.out 2>&1; echo "patched demo rc=$?"; tail -2 /tmp/w/demo.out)
for c in "$@"; do python3 /verif/check.py $c > /tmp/w/chk.out 2>&1; echo "check $c rc=$?"; grep -h "VIOLATION\|broken\|rror" /tmp/w/chk.out | head -3; done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $D/demo.sh > /tmp/w/demo.out 2>&1; echo "clean demo rc=$?"; tail -2 /tmp/w/demo.out)
