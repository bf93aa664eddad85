"""worker.py MODE CHECK HARNESS OUT.json [VALUES.json]
MODE symbolic: run one harness symbolically.  MODE concrete: replay inputs on the real code,
with numpy/scipy as they are (no engine in the process)."""
import sys
import os
import json
import signal
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def main():
    mode, check, hname, out = sys.argv[1:5]
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    from engine import farm
    root = farm.make(os.environ.get('VERIF_SCRATCH') or None)
    os.chdir(root)
    sys.path.insert(0, root)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    t0 = time.time()
    try:
        if mode == 'symbolic':
            sys.path.append(VT)
            from engine import shim
            shim.REPO = root + '/'
            shim.install()
        import importlib
        for n in ('objects.CSCG._3d.master', 'objects.CSCG._2d.master', 'objects.miUsGrid.triangular.master'):
            try:                      # in the order users do: the packages import each other
                importlib.import_module(n)
            except Exception:
                pass
        m = importlib.import_module('checks.' + check)
        h = [h for h in m.HARNESSES if h.name == hname][0]
        from engine import harness
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        if mode == 'symbolic':
            r = harness.run_symbolic(h, seed, deadline=t0 + h.timeout * 0.9)
        else:
            vals = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else {}
            r = harness.run_concrete(h, vals.get('values', {}), vals.get('seed', 0))
        r['wall_s'] = time.time() - t0
        with open(out + '.tmp', 'w') as f:
            json.dump(r, f, default=str)
        os.replace(out + '.tmp', out)
    finally:
        os.chdir('/')
        farm.remove(root)


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
