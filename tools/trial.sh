#!/bin/bash
# trial.sh SEED_DIR [tests|notests] [CHECK...]: try a planted change on a scratch copy of /repo, seen at /repo
# through a private bind mount: builds nothing in the real /repo. Prints: demo clean/patched, tests, checks.
set -u
seed=$(realpath "$1"); mode=${2:-tests}; shift 2
w=$(mktemp -d /tmp/trial.XXXXXX)
cp -a /repo "$w/repo"; cp -a /opt/vp "$w/vp"; cp -a /verif "$w/verif"
cat > "$w/in.sh" <<IN
mount --bind $w/repo /repo; mount --bind $w/vp /opt/vp; mount --bind $w/verif /verif
cd /repo
bash $seed/demo.sh >$w/demo0 2>&1; echo "demo clean: \$?"
git apply $seed/patch.diff || { echo APPLY FAILED; exit 1; }
bash $seed/demo.sh >$w/demo1 2>&1; echo "demo patched: \$?"; tail -3 $w/demo1
if [ $mode = tests ]; then bash /opt/vp/test.sh $w/out.json >$w/testlog 2>&1
/usr/bin/python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$w/out.json'))
def passed(d):
    for k in ("stable","passed"):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else {t for t,v in d[k].items() if v in ('pass','passed',True)}
    raise SystemExit(str(d.keys()))
B,P=passed(b),passed(o)
print('tests: baseline',len(B),'missing',len(B-P),sorted(B-P)[:8])
PY
fi
cd /verif
for c in $*; do bash check.sh \$c quick > $w/\$c.log 2>&1; echo "check \$c: \$?"; grep -h VIOLATION $w/\$c.log | head -3; done
IN
unshare -Urm bash "$w/in.sh"
cp $w/testlog /tmp/testlog.$(basename $seed) 2>/dev/null; rm -rf "$w"
