"""Harness contexts, path exploration, worker and check driver."""
import sys
import os
import json
import math
import time
import random
import traceback
import contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class H(object):
    """One harness: fn(ctx, **params)."""

    def __init__(self, name, fn, tier='quick', timeout=200, max_paths=400, np_=1, **params):
        self.name, self.fn, self.tier, self.timeout = name, fn, tier, timeout
        self.max_paths, self.params, self.np = max_paths, params, np_


class Skip(Exception):
    """Concrete replay: an assumption of the harness is not met by these inputs."""


# ----------------------------------------------------------------------------------- concrete side
class ConcreteCtx(object):
    symbolic = False

    def __init__(self, values=None, seed=0, tolscale=0.5):
        self.exist = not values or '__exist__' in values      # existential claims cannot be judged at special values
        self.values = dict(values or {})
        self.rng = random.Random(seed)
        self.failed = []
        self.checks = 0
        self.tolscale = tolscale

    def real(self, name, lo=-1.0, hi=1.0):
        if name not in self.values:
            self.values[name] = self.rng.uniform(lo, hi)
        return float(self.values[name])

    def reals(self, prefix, shape, lo=-1.0, hi=1.0):
        import numpy as np
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        return np.array([self.real('%s_%d' % (prefix, i), lo, hi) for i in range(n)], dtype=float).reshape(shape)

    def int(self, name, lo, hi):
        if name not in self.values:
            self.values[name] = self.rng.randint(lo, hi)
        return int(self.values[name])

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def symbolic_code(self):
        return contextlib.nullcontext()

    def assume(self, cond):
        import numpy as np
        if not np.all(cond):
            raise Skip()

    def equal(self, a, b, tol=1e-8, label='equal', deriv=False):
        import numpy as np
        self.checks += 1
        try:
            a, b = np.asarray(_dense(a), dtype=float), np.asarray(_dense(b), dtype=float)
        except (TypeError, ValueError) as e:
            self.failed.append((label + ' [type]', str(e)[:100], '', 0))
            return
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self.failed.append((label + ' [shape]', str(a.shape), str(b.shape), 0))
                return
        d = np.abs(a - b)
        t = tol * self.tolscale
        if deriv:
            t = max(1e-5, t) * (1 + np.maximum(np.abs(a), np.abs(b)))
        bad = ~(d <= t)
        if bad.any():
            k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            self.failed.append((label, float(a.reshape(-1)[k]), float(b.reshape(-1)[k]), k))

    def distinct(self, a, b, label='distinct', tol=1e-6):
        import numpy as np
        self.checks += 1
        d = np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float))
        if not (d > tol).any():
            self.failed.append((label, float(np.asarray(a, dtype=float).reshape(-1)[0]),
                                float(np.asarray(b, dtype=float).reshape(-1)[0]), 0))

    def all_distinct(self, a, label='all distinct', tol=1e-8):
        import numpy as np
        self.checks += 1
        v = np.sort(np.asarray(a, dtype=float).reshape(-1))
        if self.exist and len(v) > 1 and not (np.diff(v) > tol).all():
            k = int(np.argmin(np.diff(v)))
            self.failed.append((label, float(v[k]), float(v[k + 1]), 0))

    def claim(self, cond, label='claim'):
        import numpy as np
        self.checks += 1
        if not bool(np.all(cond)):
            self.failed.append((label, 0, 0, 0))

    def deriv(self, f, args, k):
        """d f(*args) / d args[k], by extrapolated central differences."""
        import numpy as np

        def at(h):
            a = list(args)
            a[k] = a[k] + h
            return np.asarray(f(*a), dtype=float)
        h = 1e-4
        d1 = (at(h) - at(-h)) / (2 * h)
        d2 = (at(h / 2) - at(-h / 2)) / h
        return (4 * d2 - d1) / 3

    def note(self, *a, **k):
        pass


# ----------------------------------------------------------------------------------- symbolic side
_SIGNS = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}}


class Explorer(object):
    def __init__(self, prefix, stats):
        import z3
        self.z3 = z3
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.noted = set()
        self.stats = stats
        self.polyconds = []
        self.known = []
        self.signs = {}
        self.nfork = 0

    def note_vars(self, vids):
        from . import sym
        new = [v for v in vids if v not in self.noted]
        if new:
            self.noted.update(new)
            for a in sym.axioms(new):
                self.solver.add(a)

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['queries'] += 1
        self.stats['branch_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r

    def _zero(self, p):
        """is p (up to a factor and rounding) known to be zero / non-zero on this path?"""
        a = self._root(p)
        if a is not None:
            p = a
        for q, m0, zero in self.known:
            if m0 not in p.t:
                continue
            f = q[m0] / float(p.t[m0])
            if all(abs(q.get(m, 0.) - f * float(c)) <= 1e-9 for m, c in p.t.items()) and \
                    all(m in p.t or abs(c) <= 1e-9 for m, c in q.items()):
                return zero
        return None

    def _root(self, p):
        """p is a multiple of a square root: its argument (zero at the same points)."""
        from . import sym
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and sym.W.vars[m[0]].kind == 'sqrt':
                return sym.W.vars[m[0]].arg
        return None

    def know(self, p, op, v):
        """remember that p == 0 (or not) on this path."""
        if op in ('==', '!='):
            m0 = max(p.t, key=lambda m: abs(float(p.t[m])))
            c0 = float(p.t[m0])
            self.known.append(({m: float(c) / c0 for m, c in p.t.items()}, m0, (op == '==') == v))

    def may_be_negative(self, p):
        """argument of a square root: a definite answer of the solver, else (unknown) taken as non-negative.  A long one
        that is not negative (up to rounding) at any of 60 points of the box is taken as non-negative without asking:
        an energy with rounded coefficients is a sum of squares only up to rounding."""
        from . import sym
        if p.t:
            rnd = random.Random(11)
            V = [sym.W.vars[i] for i in sorted(sym.used_vars(p))]
            V = [v for v in V if v.kind == 'in']
            low = scale = 0.
            for _ in range(60):
                try:
                    r = sym.evaluate(p, {v.name: rnd.uniform(v.lo, v.hi) for v in V})
                except Exception:
                    break
                low, scale = min(low, r), max(scale, abs(r))
            else:
                if low >= -1e-9 * max(scale, 1e-9):
                    n = self.stats.setdefault('notes', {})
                    n['square roots assumed real'] = n.get('square roots assumed real', 0) + 1
                    return False
        self.solver.set('timeout', 1000)
        r = self.check((p < 0).z3())
        self.solver.set('timeout', 4000)
        if r == self.z3.unknown:
            n = self.stats.setdefault('notes', {})
            n['square roots assumed real'] = n.get('square roots assumed real', 0) + 1
        return r == self.z3.sat

    def branch(self, sb):
        z3 = self.z3
        poly = isinstance(sb.f, tuple)
        if poly and sb.f[2] in ('==', '!='):
            # already decided on this path (the same polynomial up to a factor and rounding)
            zero = self._zero(sb.f[1])
            if zero is not None:
                return zero == (sb.f[2] == '==')
        sign = None
        if poly and len(sb.f[1].t) == 1 and sb.f[2] in _SIGNS:
            # a multiple of a monomial whose sign is known on this path
            (m, c), = sb.f[1].t.items()
            if m:
                true = {x if c > 0 else -x for x in _SIGNS[sb.f[2]]}
                have = self.signs.get(m, {-1, 0, 1})
                if have <= true:
                    return True
                if not have & true:
                    return False
                sign = (m, have, true)
        v = self.decide(sb, poly)
        if sign:
            m, have, true = sign
            self.signs[m] = have & true if v else have - true
        return v

    def decide(self, sb, poly):
        z3 = self.z3
        f = sb.z3()
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            rt = self.check(f) if not (poly and sb.f[2] == '!=') else z3.sat
            if rt == z3.unsat:
                v = False
                forced = True
            else:
                rf = self.check(z3.Not(f))
                v = True
                forced = rf == z3.unsat
            if not forced:
                self.nfork += 1
                self.alts.append(list(self.taken) + [not v])
        self.taken.append(v)
        if poly:
            self.polyconds.append((sb.f[1], sb.f[2], v))
            self.know(sb.f[1], sb.f[2], v)
        if poly and sb.f[2] in ('==', '!=') and v == (sb.f[2] == '!='):
            return v        # p != 0: kept out of the solver (weaker, hence sound); see _path_ok and known
        self.solver.add(f if v else z3.Not(f))
        return v

    def concretise(self, z):
        """pick a value for an integer term; the other values are explored on other paths."""
        z3 = self.z3
        from .sym import SB
        for _ in range(100000):
            k = len(self.taken)
            if k < len(self.prefix):
                # re-run: the recorded value is stored in the prefix
                v = self.prefix[k]
                if isinstance(v, tuple):
                    self.taken.append(v)
                    if v[0] == 'is':
                        self.solver.add(z == v[1])
                        return v[1]
                    self.solver.add(z != v[1])
                    continue
            r = self.check()
            if r != z3.sat:
                from .sym import PathAbort
                raise PathAbort('no value')
            val = self.solver.model().eval(z, model_completion=True).as_long()
            if self.check(z != val) != z3.unsat:
                self.nfork += 1
                self.alts.append(list(self.taken) + [('not', val)])
            self.taken.append(('is', val))
            self.solver.add(z == val)
            return val


class SymbolicCtx(object):
    symbolic = True

    def __init__(self, explorer, stats, world, seed=1):
        self.ex = explorer
        self.stats = stats
        self.world = world
        self.inputs = []
        self.iinputs = []
        self.viol = []
        self.inconclusive = []
        self.rng = random.Random(seed)

    # inputs ---------------------------------------------------------------------------------
    def real(self, name, lo=-1.0, hi=1.0):
        from . import sym
        v = self.world.by_name.get(name)
        if v is None:
            v = self.world.new_var(name, lo, hi)
            self.inputs.append(v)
        return sym._var(v)

    def reals(self, prefix, shape, lo=-1.0, hi=1.0):
        import numpy as np
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real('%s_%d' % (prefix, i), lo, hi)
        return out.reshape(shape)

    def int(self, name, lo, hi):
        import z3
        from . import sym
        z = z3.Int('i!' + name)
        self.ex.solver.add(z >= lo, z <= hi)
        self.iinputs.append((name, z))
        return sym.SI(z)

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def symbolic_code(self):
        from .shim import symbolic_mode
        return symbolic_mode()

    def note(self, key, n=1):
        self.stats.setdefault('notes', {})
        self.stats['notes'][key] = self.stats['notes'].get(key, 0) + n

    def assume(self, cond):
        from .sym import PathAbort, SB
        import numpy as np
        new = False
        for c in np.array([cond], dtype=object).reshape(-1):
            if isinstance(c, SB):
                if isinstance(c.f, tuple):
                    self.ex.polyconds.append((c.f[1], c.f[2], True))
                    self.ex.know(c.f[1], c.f[2], True)
                    if c.f[2] == '!=':
                        continue
                new = True
                self.ex.solver.add(c.z3())
            elif not c:
                raise PathAbort('assume')
        if new and self.ex.check() == self.ex.z3.unsat:
            raise PathAbort('assume')

    # claims ---------------------------------------------------------------------------------
    def _flat(self, a, b):
        import numpy as np
        from .sym import lift
        a, b = _dense(a), _dense(b)
        if a.shape != b.shape:
            a, b = np.broadcast_arrays(a, b)
        return [lift(i) for i in a.reshape(-1)], [lift(i) for i in b.reshape(-1)]

    def equal(self, a, b, tol=1e-8, label='equal', deriv=False):
        """claim: for all inputs on this path |a-b| <= tol, entrywise."""
        from . import sym
        import numpy as np
        try:
            raw_a, raw_b = _dense(a), _dense(b)
            A, B = self._flat(a, b)
            raw_a, raw_b = np.broadcast_arrays(raw_a, raw_b)
        except ValueError:
            self._violate(label + ' [shape]', [], tol, 'shapes %s and %s' % (np.shape(a), np.shape(b)))
            return
        except TypeError as e:
            self._violate(label + ' [type]', [], tol, 'not numbers: %s' % e)
            return
        sys_ = [isinstance(i, sym.S) or isinstance(j, sym.S) for i, j in zip(raw_a.reshape(-1), raw_b.reshape(-1))]
        res = []
        nt = 0
        for x, y, sy in zip(A, B, sys_):
            r = x - y
            if sy:
                nt += 1
            res.append(r)
        self.stats['claims'] += len(res)
        self.stats['claims_symbolic'] += nt
        consts, polys = [], []
        eqs = self._equations()
        for i, r in enumerate(res):
            if eqs and not r.is_const:
                for vid, q in eqs:
                    x = sym.subst(r, vid, q)
                    r = r if x is None else x
                res[i] = r
            if r.is_const:
                c = r.const()
                if not abs(c) <= tol:
                    consts.append((i, c))
            else:
                bad = [c for c in r.t.values() if not math.isfinite(float(c))]
                if bad:
                    consts.append((i, math.nan))
                else:
                    polys.append((i, r))
        if consts:
            self._violate(label, [r for i, r in enumerate(res) if i == consts[0][0]], tol,
                          'entry %d: constant mismatch %r' % consts[0], const=True)
        for k in range(0, len(polys), 24):
            self._discharge(polys[k:k + 24], tol, label)
        if not consts and not polys:
            # everything cancelled in the normal form: the claim is the ground formula "0 > tol"
            self._ground(label)

    def _equations(self):
        """input variables fixed by equations on this path: [(vid, expression)]."""
        from . import sym
        out = []
        for p, op, v in self.ex.polyconds:
            if (op == '==' and v) or (op == '!=' and not v):
                for vid, q in out:
                    x = sym.subst(p, vid, q)
                    p = p if x is None else x
                r = sym.solve_for(p)
                if r is not None:
                    out.append(r)
        return out

    def _ground(self, label):
        z3 = self.ex.z3
        s = z3.Solver()
        s.add(z3.RealVal(0) > z3.RealVal('1/100000000000'))
        t = time.time()
        assert s.check() == z3.unsat
        self.stats['queries'] += 1
        self.stats['claim_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        self.stats['unsat'] += 1

    def _discharge(self, polys, tol, label):
        from . import sym
        z3 = self.ex.z3
        L = sym.Linear()
        ors = []
        for i, r in polys:
            e = L.poly(r)
            q = sym.q_of(tol)
            ors.append(z3.Or(e > q, e < -q))
        s = z3.Solver()
        s.set('timeout', 60000)
        for c in L.cons:
            s.add(c)
        s.add(z3.Or(ors) if len(ors) > 1 else ors[0])
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['claim_queries'] += 1
        self.stats['solver_s'] += dt
        if r == z3.unsat:
            self.stats['unsat'] += 1
            return
        # the monomial abstraction admits a violation: look for a concrete one, then decide exactly
        model = s.model() if r == z3.sat else None
        self._refine(polys, tol, label, model, L)

    def _refine(self, polys, tol, label, model, L):
        from . import sym
        z3 = self.ex.z3
        w = None
        # with reciprocals cleared (an identity cancels)
        rest = []
        for i, r in polys:
            c = sym.clear_recips(r)
            if not c.t or self._linear_small(c, 1e-7 * sym.CLEARED[0]):
                self.stats['unsat'] += 1
            else:
                rest.append((i, r))
        polys = rest
        for i, r in sorted(polys, key=lambda p: -sym.magnitude(p[1])):
            w = self._search(r, tol, model, L)
            if w is not None:
                self.stats['sat'] += 1
                self._violate(label, [r], tol, 'entry %d: residual %.6g' % (i, sym.evaluate(r, w)), vals=w)
                return
        # exact
        for i, r in polys:
            s = z3.Solver()
            s.set('timeout', 20000)
            vids = sym.used_vars(r)
            for a in sym.axioms(vids):
                s.add(a)
            for a in self.ex.solver.assertions():
                s.add(a)
            e = sym.zpoly(r)
            q = sym.q_of(tol)
            s.add(z3.Or(e > q, e < -q))
            t = time.time()
            v = s.check()
            self.stats['queries'] += 1
            self.stats['claim_queries'] += 1
            self.stats['solver_s'] += time.time() - t
            if v == z3.unsat:
                self.stats['unsat'] += 1
                continue
            self.stats['unknown'] += 1
            self.inconclusive.append('%s: entry %d: %s after refinement' % (label, i, v))
            if len(self.inconclusive) > 20:
                return

    def _linear_small(self, p, tol):
        from . import sym
        z3 = self.ex.z3
        L = sym.Linear()
        e = L.poly(p)
        s = z3.Solver()
        s.set('timeout', 20000)
        for c in L.cons:
            s.add(c)
        q = sym.q_of(tol)
        s.add(z3.Or(e > q, e < -q))
        t = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['claim_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r == z3.unsat

    def _path_ok(self, vals):
        from . import sym
        for p, op, v in self.ex.polyconds:
            try:
                x = sym.evaluate(p, vals)
            except Exception:
                return False
            c = {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[op]
            if c != v:
                return False
        return True

    def _search(self, r, tol, model=None, L=None, n=60):
        """inputs of this path on which |r| > tol, or None."""
        from . import sym
        cands = []
        if model is not None:
            d = {}
            for v in self.inputs:
                z = L.y.get((v.vid,))
                x = None
                if z is not None:
                    q = model.eval(z, model_completion=True)
                    try:
                        x = float(q.as_fraction())
                    except Exception:
                        x = None
                d[v.name] = x if x is not None else self.rng.uniform(v.lo, v.hi)
            cands.append(d)
        for k in range(n):
            if k < 6:
                d = {v.name: self.rng.choice([v.lo, v.hi]) for v in self.inputs}
            else:
                d = {v.name: self.rng.uniform(v.lo, v.hi) for v in self.inputs}
            cands.append(d)
        best = None
        for d in cands:
            try:
                if self._path_ok(d):
                    x = abs(sym.evaluate(r, d)) if r is not None else 1
                    if x > tol and (best is None or x > best[0]):
                        best = (x, d)
                        if x > 1000 * tol:
                            break
            except Exception:
                continue
        if best:
            return best[1]
        # let the solver propose inputs of this path
        if any(v != (op == '!=') for _, op, v in self.ex.polyconds):
            m = self._model(r, tol)
            if m is not None and self._path_ok(m) and (r is None or abs(sym.evaluate(r, m)) > tol):
                return m
        return None

    def _model(self, r=None, tol=0):
        from . import sym
        z3 = self.ex.z3
        extra = []
        if r is not None:
            self.ex.note_vars(sym.used_vars(r))
            e = sym.zpoly(r)
            q = sym.q_of(tol)
            extra = [z3.Or(e > q, e < -q)]
        if self.ex.check(*extra) != z3.sat:
            return None
        return self._from_model(self.ex.solver.model())

    def _from_model(self, m):
        from . import sym
        d = {}
        for v in self.inputs:
            x = None
            if v.z is not None:
                q = m.eval(v.z, model_completion=False)
                x = _num(q)
            d[v.name] = x if x is not None else self.rng.uniform(v.lo, v.hi)
        for name, z in self.iinputs:
            q = m.eval(z, model_completion=True)
            d[name] = q.as_long()
        return d

    def _violate(self, label, rs, tol, what, vals=None, const=False):
        if len(self.viol) > 6:
            return
        if vals is None:
            vals = self.path_inputs()
        else:
            vals = dict(vals)
        self._ints(vals)
        self.viol.append(dict(label=label, what=what, values=vals))

    def _ints(self, vals):
        if self.iinputs and any(n not in vals for n, _ in self.iinputs):
            if self.ex.check() == self.ex.z3.sat:
                m = self.ex.solver.model()
                for n, z in self.iinputs:
                    vals.setdefault(n, m.eval(z, model_completion=True).as_long())

    def path_inputs(self):
        """some inputs that follow this path."""
        w = self._search(None, -1)
        if w is None:
            w = self._model()
        if w is None:
            w = {v.name: self.rng.uniform(v.lo, v.hi) for v in self.inputs}
        self._ints(w)
        return w

    def claim(self, cond, label='claim'):
        import numpy as np
        from .sym import SB
        z3 = self.ex.z3
        for c in np.array([cond], dtype=object).reshape(-1):
            self.stats['claims'] += 1
            if isinstance(c, SB):
                self.stats['claims_symbolic'] += 1
                f = c.z3()
                t = time.time()
                r = self.ex.solver.check(z3.Not(f))
                self.stats['queries'] += 1
                self.stats['claim_queries'] += 1
                self.stats['solver_s'] += time.time() - t
                if r == z3.unsat:
                    self.stats['unsat'] += 1
                elif r == z3.sat:
                    self.stats['sat'] += 1
                    vals = self._from_model(self.ex.solver.model())
                    self._violate(label, [], 0, 'claim refuted', vals=vals)
                else:
                    self.stats['unknown'] += 1
                    self.inconclusive.append('%s: unknown' % label)
            else:
                # ground on this path: when false, the path condition is the query
                if c:
                    self._ground(label)
                    continue
                self.stats['claim_queries'] += 1
                if self.ex.check() != z3.unsat:
                    self._violate(label, [], 0, 'claim false on this path')

    def distinct(self, a, b, label='distinct', tol=1e-6):
        """claim: some inputs make a and b differ (by more than tol)."""
        from . import sym
        z3 = self.ex.z3
        A, B = self._flat(a, b)
        self.stats['claims'] += 1
        self.stats['claims_symbolic'] += 1
        L = sym.Linear()
        ors = []
        q = sym.q_of(tol)
        for x, y in zip(A, B):
            e = L.poly(x - y)
            ors.append(z3.Or(e > q, e < -q))
        s = z3.Solver()
        for c in L.cons:
            s.add(c)
        s.add(z3.Or(ors))
        t = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['claim_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unsat:
            self.stats['sat'] += 1
            self._violate(label, [], 0, 'never differ', const=True)
            return
        self.stats['unsat'] += 1

    def all_distinct(self, a, label='all distinct', tol=1e-8):
        """claim: every two entries of a differ for some inputs.  One query: some inputs put the entries into a strict
        order (the order they have at a sample point); where it has no solution, the pairs which are close at the
        sample are asked one by one."""
        import random
        import numpy as np
        from . import sym
        z3 = self.ex.z3
        A = [sym.lift(x) for x in _dense(np.array(list(a), dtype=object)).reshape(-1)]
        if len(A) < 2:
            return
        rnd = random.Random(7)
        val = {}

        def value(k):
            if k not in val:
                v = sym.W.vars[k]
                if v.kind in ('sin', 'cos', 'exp'):
                    m, co = v.arg
                    val[k] = getattr(math, v.kind)(co * term(m))
                elif v.kind == 'recip':
                    val[k] = 1. / (at(v.arg) or 1e-9)
                elif v.kind == 'sqrt':
                    val[k] = math.sqrt(max(at(v.arg), 0.))
                else:
                    lo, hi = sym.W.bounds((k,))
                    lo, hi = max(lo, -2.), min(hi, 2.)
                    val[k] = (rnd.randint(-1000, 1000) / 1000 * (float(hi) - float(lo)) / 2 +
                              (float(lo) + float(hi)) / 2)
            return val[k]

        def term(m):
            t = 1.
            for k in m:
                t *= value(k)
            return t

        def at(p):
            return sum([float(c) * term(m) for m, c in p.t.items()], 0.)
        P = A
        V = [at(p) for p in P]
        o = sorted(range(len(A)), key=lambda i: V[i])
        close = [(o[k], o[k + 1]) for k in range(len(o) - 1) if V[o[k + 1]] - V[o[k]] <= 4 * tol]
        self.stats['claims'] += 1
        self.stats['claims_symbolic'] += 1
        L = sym.Linear()
        q = sym.q_of(tol)
        bad = close
        if not close:
            E = [L.poly(P[i]) for i in o]
            s = z3.Solver()
            s.add(*L.cons)
            for m, z in list(L.y.items()):      # the witness
                lo, hi = sym.W.bounds(m)
                s.add(z == sym.q_of(min(max(term(m), lo), hi)))
            s.add(*[E[k + 1] - E[k] > q for k in range(len(E) - 1)])
            if self._ask(s) == z3.sat:
                self.stats['unsat'] += 1
                return
            bad = [(o[k], o[k + 1]) for k in range(len(o) - 1)]
        for i, j in bad:
            e = L.poly(P[i] - P[j])
            s = z3.Solver()
            s.add(*L.cons)
            s.add(z3.Or(e > q, e < -q))
            if self._ask(s) == z3.unsat:
                self.stats['sat'] += 1
                vals = dict((sym.W.vars[k].name, v) for k, v in val.items() if sym.W.vars[k].kind == 'in')
                vals['__exist__'] = 1
                self._violate(label, [], 0, 'entries %d and %d never differ' % (i, j), vals=vals)
                return
        self.stats['unsat'] += 1

    def _ask(self, s):
        t = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['claim_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r

    def deriv(self, f, args, k):
        import numpy as np
        from . import sym
        y = f(*args)
        if isinstance(y, (list, tuple)):
            y = np.array(y, dtype=object)
        if isinstance(y, np.ndarray):
            out = np.empty(y.shape, dtype=object)
            o = out.reshape(-1)
            for i, e in enumerate(y.reshape(-1)):
                o[i] = sym.D(e, args[k])
            return out
        return sym.D(y, args[k])


def _num(q):
    try:
        return float(q.as_fraction())
    except Exception:
        pass
    try:
        return float(q.approx(20).as_fraction())
    except Exception:
        return None


def _dense(a):
    import numpy as np
    if hasattr(a, 'toarray'):
        a = a.toarray()
    if isinstance(a, np.ndarray):
        return np.asarray(a)
    if isinstance(a, (list, tuple)):
        return np.array([_dense(i) for i in a], dtype=object)
    out = np.empty((), dtype=object)
    out[()] = a
    return out


# --------------------------------------------------------------------------------------- running
def new_stats():
    return dict(queries=0, branch_queries=0, claim_queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0,
                claims=0, claims_symbolic=0, paths=0, infeasible=0, witness=0, forks=0, notes={})


class _Covered(object):
    """Functions of /repo entered during the symbolic runs."""

    def __init__(self, prefix='/repo/'):
        self.prefix = prefix
        self.names = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, 'verif')
        except ValueError:
            self.tool = None
            return self

        def cb(code, off):
            if code.co_filename.startswith(self.prefix):
                self.names.add(code.co_filename[len(self.prefix):] + '::' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, cb)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.tool is not None:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.free_tool_id(self.tool)


def run_symbolic(h, seed=1, deadline=None):
    from . import sym, shim
    from .sym import PathAbort, EngineUnsupported
    import z3
    stats = new_stats()
    viol, inc, errs = [], [], []
    work = [[]]
    seen = 0
    with _Covered(shim.REPO) as cov:
        while work:
            prefix = work.pop()
            seen += 1
            if seen > h.max_paths or (deadline and time.time() > deadline):
                inc.append('path bound (%d) or time reached with %d prefixes open' % (h.max_paths, len(work) + 1))
                break
            w = sym.World()
            sym.set_world(w)
            ex = Explorer(prefix, stats)
            w.explorer = ex
            ctx = SymbolicCtx(ex, stats, w, seed)
            try:
                h.fn(ctx, **h.params)
                stats['paths'] += 1
                # reachability twin: assert(false) at the end of the path must be violated
                r = ex.check()
                if r != z3.unsat:
                    stats['witness'] += 1
                else:
                    stats['infeasible'] += 1
            except PathAbort:
                stats['infeasible'] += 1
            except EngineUnsupported as e:
                stats['paths'] += 1
                errs.append(dict(kind='unsupported', what=repr(e)[:300], tb=traceback.format_exc()[-1800:]))
                if len(errs) > 3:
                    break
            except RecursionError as e:
                errs.append(dict(kind='unsupported', what=repr(e)[:300], tb=''))
            except MemoryError:
                errs.append(dict(kind='unsupported', what='memory', tb=''))
                break
            except Exception as e:
                stats['paths'] += 1
                try:
                    vals = ctx.path_inputs()
                except Exception:
                    vals = {}
                errs.append(dict(kind='exception', what=repr(e)[:300], values=vals,
                                 tb=traceback.format_exc()[-2500:]))
                if len(errs) > 3:
                    break
            stats['forks'] += ex.nfork
            work.extend(ex.alts)
            for v in ctx.viol:
                if len(viol) < 12:
                    viol.append(v)
            inc.extend(ctx.inconclusive[:5])
            if len(viol) >= 12:
                break
    stats['functions'] = sorted(cov.names)
    stats['kernels'] = sorted(shim.MODE.used)
    return dict(stats=stats, viol=viol, inc=inc, errs=errs)


def _raised_in_repo(e):
    """is the innermost frame outside the libraries one of the code under test?"""
    last = False
    tb = e.__traceback__
    cwd = os.getcwd()
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(cwd) or f.startswith('/repo/'):
            last = True
        elif f.startswith(VERIF):
            last = False
        tb = tb.tb_next
    return last


def _unusable(e):
    """did the code under test return something the check cannot calculate with (None, a list, another shape)?
    (On the unchanged tree it could. Calls that do not fit a signature and missing names are not this.)"""
    what = str(e)
    if isinstance(e, TypeError):
        return 'argument' not in what and any(q in what for q in ('unsupported operand', 'not subscriptable', 'not iterable', 'NoneType', 'cannot unpack'))
    if isinstance(e, AttributeError):
        return "'NoneType' object" in what
    if isinstance(e, ValueError):
        return any(q in what for q in ('broadcast', 'shape', 'unpack', 'mismatch', 'truth value'))
    return isinstance(e, (IndexError, ZeroDivisionError))


def run_concrete(h, values, seed=0):
    """Run a harness on concrete inputs with the real, unpatched code."""
    ctx = ConcreteCtx(values, seed)
    out = dict(skipped=False, failed=[], exc=None)
    try:
        h.fn(ctx, **h.params)
    except Skip:
        out['skipped'] = True
    except Exception as e:
        out['exc'] = repr(e)[:300]
        out['tb'] = traceback.format_exc()[-2500:]
        out['in_repo'] = _raised_in_repo(e) or _unusable(e)
    out['failed'] = ctx.failed[:10]
    out['checks'] = ctx.checks
    out['values'] = ctx.values
    return out
