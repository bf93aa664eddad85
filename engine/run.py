"""run.py PROPERTY [quick|thorough] [--only SUBSTR] [-v]: decide one property."""
import sys
import os
import json
import time
import shutil
import subprocess
import tempfile
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
WORKERS = int(os.environ.get('VERIF_JOBS', '8'))


def spawn(mode, check, h, out, log, vals=None):
    cmd = [PY, os.path.join(HERE, 'worker.py'), mode, check, h.name, out]
    if vals:
        cmd.append(vals)
    if h.np > 1:
        cmd = ['mpiexec', '-n', str(h.np), PY, '-m', 'mpi4py'] + cmd[1:]
    return subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, 15)
        for _ in range(20):
            if p.poll() is not None:
                return
            time.sleep(0.1)
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass


def run_pool(jobs, until=None):
    """jobs: list of (key, h, mode, vals).  Returns {key: (result|None, log)}.  What has not finished
    at the wall-clock time `until` is stopped and has no result."""
    todo = list(jobs)
    live, res = [], {}
    while todo or live:
        late = until is not None and time.time() > until
        if late and todo:
            for j in todo:
                res[j[0]] = (None, 'not started: the time of this run is used up')
            todo = []
        used = sum(j[1].np for j in live)
        while todo and (used + todo[0][1].np <= WORKERS or not live):
            key, h, mode, vals, check, tmp = todo.pop(0)
            out = os.path.join(tmp, '%s.json' % len(res) + key.replace('/', '_') + mode)
            logp = out + '.log'
            vp = None
            if vals is not None:
                vp = out + '.vals'
                json.dump(vals, open(vp, 'w'))
            log = open(logp, 'w')
            p = spawn(mode, check, h, out, log, vp)
            live.append((key, h, p, out, logp, time.time(), log))
            used += h.np
        time.sleep(0.05)
        for j in list(live):
            key, h, p, out, logp, t0, log = j
            if p.poll() is None and time.time() - t0 < h.timeout + 30 and not late:
                continue
            to = p.poll() is None
            if to:
                kill(p)
            log.close()
            r = None
            if os.path.exists(out):
                try:
                    r = json.load(open(out))
                except Exception:
                    r = None
            txt = open(logp, errors='replace').read()[-3000:]
            if to:
                txt = 'TIMEOUT ' + txt
            res[key] = (r, txt)
            live.remove(j)
    return res


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))['findings']
    return []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, VERIF)
    tmp = tempfile.mkdtemp(prefix='vcheck_%s_' % prop)
    os.environ['VERIF_SCRATCH'] = tmp
    try:
        rc = decide(prop, tier, only, verbose, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(prop, tier, only, verbose, seed, t0, tmp):
    m = importlib.import_module('checks.' + prop)
    hs = [h for h in m.HARNESSES if (h.tier == 'quick' or tier == 'thorough') and (not only or only in h.name)]
    res = run_pool([(h.name, h, 'symbolic', None, prop, tmp) for h in hs], t0 + 540 if tier == 'quick' else None)
    byname = {h.name: h for h in hs}
    total = None
    violations, inconclusive, details, funcs, kernels = [], [], [], set(), set()
    keys = ('queries', 'branch_queries', 'claim_queries', 'solver_s', 'unsat', 'sat', 'unknown', 'claims',
            'claims_symbolic', 'paths', 'infeasible', 'witness', 'forks')
    total = {k: 0 for k in keys}
    notes = {}
    # candidates to replay
    jobs = []
    for h in hs:
        r, log = res[h.name]
        if r is None:
            inconclusive.append('%s: no result (%s)' % (h.name, log[-300:].replace('\n', ' | ')))
            if verbose:
                print(h.name, 'NO RESULT', log)
            for k in range(3):
                jobs.append(('%s#s%d' % (h.name, k), h, 'concrete', dict(values={}, seed=1000 * seed + k), prop, tmp))
            continue
        s = r['stats']
        for k in keys:
            total[k] += s[k]
        for k, v in s['notes'].items():
            notes[k] = notes.get(k, 0) + v
        funcs.update(s['functions'])
        kernels.update(s['kernels'])
        d = {k: s[k] for k in keys}
        d.update(name=h.name, wall_s=round(r['wall_s'], 2), solver_s=round(s['solver_s'], 3), params=repr(h.params)[:300])
        details.append(d)
        if verbose:
            print(json.dumps({k: d[k] for k in d if k != 'params'}))
        for i, v in enumerate(r['viol']):
            if verbose:
                print('  candidate', v['label'], v['what'])
            jobs.append(('%s#v%d' % (h.name, i), h, 'concrete', dict(values=v['values'], seed=seed, label=v['label'], what=v['what']), prop, tmp))
        for i, e in enumerate(r['errs']):
            if verbose:
                print('  engine', e['kind'], e['what'], '\n', e.get('tb', '')[-1200:] if i == 0 else '')
            jobs.append(('%s#e%d' % (h.name, i), h, 'concrete', dict(values=e.get('values', {}), seed=seed, what=e['what']), prop, tmp))
            if i == 0:
                for k in range(3):
                    jobs.append(('%s#s%d' % (h.name, k), h, 'concrete', dict(values={}, seed=1000 * seed + k), prop, tmp))
            inconclusive.append('%s: %s %s' % (h.name, e['kind'], e['what']))
        for i in r['inc']:
            inconclusive.append('%s: %s' % (h.name, i))
            if verbose:
                print('  inconclusive', i)
        if s['paths'] == 0 or s['claims'] == 0 or s['witness'] == 0:
            inconclusive.append('%s: vacuous (paths %d, claims %d, witness %d)' % (h.name, s['paths'], s['claims'], s['witness']))
    per = {}
    short = []
    for j in jobs:                    # a handful of replays per harness settles it
        n = per[j[1].name] = per.get(j[1].name, 0) + 1
        if n <= 6:
            short.append((n, j))
    jobs = [j for n, j in sorted(short, key=lambda x: x[0])]
    rr = run_pool(jobs, t0 + 820 if tier == 'quick' else None) if jobs else {}
    jd = {j[0]: j for j in jobs}
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    kf = [k for k in known() if k['property'] == prop]
    seen_known = set()
    unreproduced = []
    for key, (r, log) in rr.items():
        _, h, _, vals, _, _ = jd[key]
        if r is None:
            inconclusive.append('%s: replay gave no result: %s' % (key, log[-200:].replace('\n', ' | ')))
            if verbose:
                print('replay no result', key, log)
            continue
        if r['skipped'] or (not r['failed'] and not r['exc']):
            if '#v' in key:
                unreproduced.append('%s: candidate (%s: %s) did not reproduce on the real code' % (key, vals.get('label'), vals.get('what')))
            continue
        if not r['failed'] and not r.get('in_repo'):
            inconclusive.append('%s: the harness itself failed: %s' % (key, r['exc']))
            if verbose:
                print('harness failure', key, r.get('tb'))
            continue
        labels = [f[0] for f in r['failed']] or ['exception: ' + r['exc']]
        listed = None
        for k in kf:
            if k['harness'] == h.name and all(any(l.startswith(p) for p in k['labels']) for l in labels):
                listed = k
        if listed:
            if listed['id'] not in seen_known:
                seen_known.add(listed['id'])
                print('KNOWN-FINDING: property=%s %s' % (prop, listed['what']))
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%s.json' % (prop, key.replace('#', '_').replace('/', '_').replace(' ', '_')))
        json.dump(dict(property=prop, harness=h.name, values=r['values'], seed=vals.get('seed'),
                       observed=r['failed'], exception=r['exc'], traceback=r.get('tb'), claim=vals.get('label'), solver=vals.get('what'),
                       how='bash check.sh %s --replay %s' % (prop, path)), open(path, 'w'), indent=1)
        violations.append((key, path, labels, r))
    for u in unreproduced:
        if not any(v[0].split('#')[0] == u.split('#')[0] for v in violations):
            inconclusive.append(u)
    seen = {}
    for key, path, labels, r in violations:
        seen[key.split('#')[0]] = seen.get(key.split('#')[0], 0) + 1
        if seen[key.split('#')[0]] > 2 or len(seen) > 8:
            continue
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print(('   %s: %s %s' % (key, labels[0], r['failed'][:1] or r['exc']))[:400])
    for i in inconclusive[:12]:
        print('INCONCLUSIVE: ' + i[:300])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2),
              violations=len(violations), assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + COMMON,
              coverage=dict(
                  explanation='Bounded symbolic execution of the real code (imported from /repo through its public '
                              'interfaces, run on symbolic values) with the property asserted over the symbolic '
                              'inputs; every claim below was decided by an SMT query (z3) over all input values '
                              'within the bounds. ' + getattr(m, 'BOUNDS', ''),
                  bounds=getattr(m, 'BOUNDS', ''),
                  harnesses=details, harness_count=len(hs),
                  paths=total['paths'], forks=total['forks'], infeasible_paths=total['infeasible'],
                  reachability_witnesses=total['witness'],
                  claims=total['claims'], claims_symbolic=total['claims_symbolic'],
                  queries=total['queries'], branch_queries=total['branch_queries'],
                  claim_queries=total['claim_queries'], discharged_unsat=total['unsat'],
                  refuted_sat=total['sat'], unknown=total['unknown'], solver_s=round(total['solver_s'], 3),
                  functions_encoded=sorted(funcs), functions_encoded_count=len(funcs),
                  environment_models=sorted(kernels), notes=notes,
                  inconclusive=inconclusive, known_findings=sorted(seen_known)))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d harnesses, %d paths, %d claims (%d symbolic), %d queries (%.1fs solver), %d unsat, %d sat, %d unknown, '
          '%d inconclusive, %d violations, %.1fs' % (prop, tier, len(hs), total['paths'], total['claims'], total['claims_symbolic'],
                                                    total['queries'], total['solver_s'], total['unsat'], total['sat'], total['unknown'],
                                                    len(inconclusive), len(violations), time.time() - t0))
    if violations:
        return 1
    if total['claims'] == 0:
        print('ERROR: nothing was decided')
        return 2
    return 0


COMMON = [
    'floats are treated as reals on symbolic values; numerical coefficients are combined in IEEE doubles, and the '
    'claims carry an absolute tolerance that covers their rounding',
    'numpy is trusted; it is run on object arrays (np.zeros/ones/empty of /repo allocate object arrays while '
    'symbolic; elementary functions work entry by entry)',
    "scipy.sparse's compiled kernels are replaced by Python twins for object data (listed in environment_models)",
    'z3 is trusted',
]


if __name__ == '__main__':
    if '--replay' in sys.argv:
        path = sys.argv[sys.argv.index('--replay') + 1]
        prop = sys.argv[1]
        sys.path.insert(0, VERIF)
        m = importlib.import_module('checks.' + prop)
        d = json.load(open(path))
        h = [h for h in m.HARNESSES if h.name == d['harness']][0]
        tmp = tempfile.mkdtemp()
        os.environ['VERIF_SCRATCH'] = tmp
        r = run_pool([('r', h, 'concrete', dict(values=d['values'], seed=d.get('seed') or 0), prop, tmp)])['r']
        shutil.rmtree(tmp, ignore_errors=True)
        print(json.dumps(r[0], indent=1) if r[0] else r[1])
        sys.exit(0 if r[0] and not r[0]['failed'] and not r[0]['exc'] else 1)
    main()
