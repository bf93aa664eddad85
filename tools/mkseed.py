"""mkseed(id, property, edits, demo, needs, breaks): writes /verif/seeded/<id> from edits [(file, old, new)]."""
import json, os, subprocess, sys

DEMO_SH = '''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 2
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1
exec timeout 250 %s "$here/demo.py"
'''


def mkseed(sid, prop, edits, demo, needs, breaks, np_=1):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mkseed_wt'
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', w, 'HEAD'], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (f, s.count(old))
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], check=True, stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], check=True)
    open(d + '/patch.diff', 'wb').write(diff)
    run = '/opt/venv/bin/python' if np_ == 1 else 'mpiexec --allow-run-as-root --oversubscribe -n %d /opt/venv/bin/python' % np_
    open(d + '/demo.sh', 'w').write(DEMO_SH % run)
    open(d + '/demo.py', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(sid, len(diff))
