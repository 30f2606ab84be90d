#!/bin/bash
# tools/bugtest.sh <seeded id> [notest] [check]: confirm a planted bug in a private copy of /repo (mount namespace), never in /repo itself
ID=$1; shift
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug-XXXXXX)
cp -a /repo $W/repo
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -m bash -c "
mount --bind $W/repo /repo; cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1
bash $D/demo.sh >$W/d0.log 2>&1; echo \"$ID demo-clean=\$? \"
git apply $D/patch.diff || { echo APPLY-FAILED; exit; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo BUILD-FAILED; tail -5 $W/b1.log; exit; }
bash $D/demo.sh >$W/d1.log 2>&1; echo \"$ID demo-patched=\$? \"; tail -3 $W/d1.log
case ' $* ' in *' notest '*) ;; *) bash /opt/vp/test.sh $W/out.json >$W/t.log 2>&1
python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('$W/out.json'))['passed'])
print('$ID tests: missing', [t for t in b if t not in o][:8])\";; esac
case ' $* ' in *' check '*) cd /verif; export VC_EVIDENCE=$W/ev; CMD=\$(python3 -c \"
import json
print(next(c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$PROP'))\"); bash -c \"\$CMD\" >$W/c.log 2>&1; echo \"$ID check-exit=\$?\"; grep -E 'VIOLATION|failed obl|ERROR' $W/c.log | head -4;; esac
"
rm -rf "${W:?}"
