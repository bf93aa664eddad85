"""writes /verif/MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
nap = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(nap):
    NA = json.load(open(nap))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
NOTE = ('Bounded: every claim is decided by z3 for all values of the symbolic inputs within the stated bounds (degrees, layouts, '
        'meshes, parameter boxes); nothing is claimed outside. Floats are treated as reals with a tolerance covering rounding; '
        'numpy, the Python twins of scipy.sparse kernels and z3 are trusted. Counterexamples are replayed on the unpatched code.')
for q in props:
    i = q['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i,
                           technique='symbolic execution of the real Python code on symbolic values (own executor over numpy object arrays, path forking) + SMT (z3)',
                           level='other', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
