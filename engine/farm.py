"""A symlink view of /repo's working tree in a scratch folder.

Every file seen through it is /repo's current file; only the folders in which /repo's mesh generators
rewrite tracked files (.vtu) are real scratch folders, so that nothing in /repo is written."""
import os
import shutil
import tempfile

REPO = '/repo'
REAL = ['objects/miUsGrid/triangular/mesh/instances/samples',
        'objects/miUsGrid/triangular/mesh/instances/realtime']


def make(base=None):
    root = tempfile.mkdtemp(prefix='vfarm_', dir=base)
    want = set()
    for r in REAL:
        p = r.split('/')
        for i in range(1, len(p) + 1):
            want.add('/'.join(p[:i]))

    def fill(rel):
        src = os.path.join(REPO, rel) if rel else REPO
        dst = os.path.join(root, rel) if rel else root
        for e in sorted(os.listdir(src)):
            if e in ('.git', '__pycache__'):
                continue
            r = rel + '/' + e if rel else e
            if r in want and os.path.isdir(os.path.join(REPO, r)):
                os.mkdir(os.path.join(root, r))
                fill(r)
            elif rel in REAL and e.endswith('.vtu'):
                shutil.copy(os.path.join(src, e), os.path.join(dst, e))
            else:
                os.symlink(os.path.join(src, e), os.path.join(dst, e))
    fill('')
    return root


def remove(root):
    shutil.rmtree(root, ignore_errors=True)
