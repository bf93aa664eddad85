"""C23: time marching and parameter sweeps do every step exactly once, in order, with the right times and inputs, whatever stops or interrupts them."""
import contextlib
import io
import os
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.C13 import S_, C
from checks.C22 import Dir

BOUNDS = ('time marching of up to 4 steps (step counts up to 6) with symbolic start, step and end times and solver results, stopped by the solver after any step, or '
          'interrupted at any step with any of the auto-saves done or not, and resumed; sweeps over ragged 2 x 3 x 2 inputs with any entries skipped; 1-3 simulated processes')
ASSUMPTIONS = ['a csv file returns the numbers written (a table kept in memory stands for it where values are symbolic)', 'several processes are simulated in one Python process',
               'the clock only advances; real-number arithmetic with the round-off of a time ratio as a symbolic perturbation']


class Crash(Exception):
    pass


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def tables(ctx, clock=None):
    """stand-ins: csv files hold values that may be symbols, and a clock of our own"""
    import pandas as pd
    import tools.iterators.base.monitor.do as D
    files = {}
    old = pd.DataFrame.to_csv, pd.read_csv, D.time
    if ctx.symbolic:
        def to_csv(self, name, header=True, **kw):
            files[name] = self.copy()

        def read_csv(name, index_col=0, **kw):
            if name not in files:
                raise FileNotFoundError(name)
            return files[name].copy()
        pd.DataFrame.to_csv, pd.read_csv = to_csv, read_csv
    if clock is not None:
        D.time = clock
    try:
        yield files
    finally:
        pd.DataFrame.to_csv, pd.read_csv, D.time = old


def make(log, outs, stop=None, reason=None, crash=None, base=0):
    def solver(tk, tk1):
        """
        Parameters
        ----------
        tk :
        tk1 :

        Returns
        -------
        exit_code :
        shut_down :
        message :
        first :
        second :

        """
        k = len(log) + base
        if crash is not None and k == crash:
            raise Crash()
        log.append((tk, tk1))
        down = (reason or 1) if stop is not None and k == stop else 0
        return 1, down, 'done %d' % k, outs[k][0], outs[k][1]
    return solver


def rows(R):
    return [(int(i), [R.loc[i].iloc[j] for j in range(R.shape[1])]) for i in R.index]


def table(ctx, R, t0, dt, init, outs, n, label):
    got = rows(R)
    ctx.claim([i for i, _ in got] == list(range(n + 1)), label + ': one row per step')
    ctx.claim(list(R.columns) == ['t', 'dt', 'first', 'second'], label + ': the columns')
    for i, r in got:
        ctx.equal(np.array(r, dtype=object if ctx.symbolic else float), np.array([t0 + i * dt, dt] + list(init if i == 0 else outs[i - 1]), dtype=object if ctx.symbolic else float),
                  1e-10, label + ': the row of a step')


def march(ctx, steps, n, reason=None):
    """(t0 + k dt, t0 + (k+1) dt) in turn, all results recorded, stopped where the solver says so"""
    from tools.iterators.simple import SimpleIterator
    t0, dt = ctx.real('t0', -10, 10), ctx.real('dt', 0.001, 5)
    outs = ctx.reals('o', (steps, 2))
    init = ctx.reals('i', (2,))
    stop = ctx.choice('stop', list(range(steps)) + [None])

    def go(r):
        log = []
        it = SimpleIterator(t0=t0, dt=dt, max_steps=steps, monitor_factor=0, auto_save_frequency=False)
        it(make(log, outs, stop, reason), list(init))
        it.run()
        return log, it.RDF, it.t, it.running_step, it.computed_steps, it.shut_down, it.shut_down_reason, it.message, it.exit_code, it.max_time
    with quiet(), ctx.symbolic_code():
        out = mpisim.run(n, go)
    m = steps if stop is None else stop + 1
    for r, (log, R, t, rs, cs, sd, why, msg, code, mt) in enumerate(out):
        ctx.claim(len(log) == m and rs == m + 1 and cs == m, 'the number of steps')
        for k, (a, b) in enumerate(log):
            ctx.equal(np.array([a, b]), np.array([t0 + k * dt, t0 + (k + 1) * dt]), 1e-10, 'the times of a step')
        ctx.equal(t, t0 + m * dt, 1e-10, 'the time at the end')
        ctx.equal(mt, t0 + steps * dt, 1e-10, 'the last time')
        ctx.claim(bool(sd) == (stop is not None) and why == (None if stop is None else reason or ''), 'whether and why it was stopped')
        ctx.claim(list(msg) == ['done %d' % (m - 1)] and code == 1, 'the message of the last step')
        if r == 0:
            table(ctx, R, t0, dt, init, outs, m, 'marching')


def count(ctx, kind):
    """the number of steps that reach the end time"""
    from tools.iterators.simple import SimpleIterator
    t0 = ctx.real('t0', -10, 10)
    if kind == 'whole':                # a whole number of steps, up to the round-off of the user's numbers
        dt = ctx.real('dt', 0.01, 5)
        n = ctx.choice('n', [1, 2, 3, 6])
        end = t0 + n * dt * (1 + ctx.real('e', -1e-13, 1e-13))
        with quiet(), ctx.symbolic_code():
            it = SimpleIterator(t0=t0, dt=dt, max_time=end, monitor_factor=0, auto_save_frequency=False)
        ctx.claim(it.max_steps == n, 'whole: no step is missing or too many')
        ctx.equal(it.dt, dt, 1e-12, 'whole: the step')
    elif kind == 'any':
        dt = ctx.real('dt', 0.5, 5)
        end = t0 + ctx.real('d', 0.1, 2.)
        with quiet(), ctx.symbolic_code():
            it = SimpleIterator(t0=t0, dt=dt, max_time=end, monitor_factor=0, auto_save_frequency=False)
        n = it.max_steps
        ctx.claim(isinstance(n, int) and n >= 1, 'any: a number of steps')
        ctx.claim(t0 + n * dt >= end - 1e-6, 'any: the end is reached')
        ctx.claim(t0 + (n - 1) * dt < end + 1e-6, 'any: not later than need be')
    else:
        n = ctx.choice('n', [1, 2, 3, 49])
        end = t0 + ctx.real('d', 0.1, 2.)
        with quiet(), ctx.symbolic_code():
            it = SimpleIterator(t0=t0, max_steps=n, max_time=end, monitor_factor=0, auto_save_frequency=False)
        ctx.claim(it.max_steps == n, 'step from the end time: the number of steps')
        ctx.equal(t0 + n * it.dt, end, 1e-10, 'step from the end time')
        ctx.equal(it.max_time, end, 1e-10, 'step from the end time: the end')


def ends(ctx):
    """numbers of steps for which steps * (end / steps) is not end in floating point"""
    from tools.iterators.simple import SimpleIterator
    with quiet():
        for n in (49, 98, 103, 107):
            it = SimpleIterator(t0=0, max_steps=n, max_time=1, monitor_factor=0, auto_save_frequency=False)
            ctx.claim(it.max_steps == n, 'step from the end time')
        for end, dt, n in ((1.1, 0.1, 11), (0.7, 0.1, 7), (0.3, 0.1, 3), (4.35, 0.05, 87)):
            it = SimpleIterator(t0=0, dt=dt, max_time=end, monitor_factor=0, auto_save_frequency=False)
            ctx.claim(it.max_steps == n, 'a whole number of steps')


def resume(ctx, steps, n, freq):
    """interrupted at any step, whichever auto-saves happened: what is in the file is not done again, the rest is"""
    from tools.iterators.simple import SimpleIterator
    t0, dt = ctx.real('t0', -10, 10), ctx.real('dt', 0.001, 5)
    outs = ctx.reals('o', (steps, 2))
    init = ctx.reals('i', (2,))
    crash = ctx.choice('crash', list(range(steps)))
    jumps = [ctx.choice('jump%d' % k, [0., 1e5]) for k in range(crash)]
    now = [0.]
    first = []

    def clock():
        import time
        return time.time() + now[0]

    def solver_of(log, **kw):
        return make(log, outs, **kw)

    def go(r):
        log = []
        it = SimpleIterator(t0=t0, dt=dt, max_steps=steps, monitor_factor=1, auto_save_frequency=freq, RDF_filename='table')
        s = make(log, outs, crash=crash)
        it(s, list(init))
        try:
            for_ = it.run()
        except Crash:
            pass
        return log

    with Dir(), quiet(), tables(ctx, clock):
        import tools.iterators.base.monitor.do as D
        G = D.IteratorMonitorDo.generate_graph_report
        A = D.IteratorMonitorDo.auto_save
        D.IteratorMonitorDo.generate_graph_report = lambda self: None

        def auto(self):
            k = self._monitor_._computed_steps_ - 1
            now[0] += jumps[k] if k < len(jumps) else 0.
            return A(self)
        D.IteratorMonitorDo.auto_save = auto
        try:
            with ctx.symbolic_code():
                a = mpisim.run(n, go)
            saved = None
            import pandas as pd
            try:
                saved = [i for i, _ in rows(pd.read_csv('table.csv', index_col=0))]
            except FileNotFoundError:
                saved = []
            jumps = []

            def again(r):
                log = []
                it = SimpleIterator(t0=t0, dt=dt, max_steps=steps, monitor_factor=1, auto_save_frequency=freq, RDF_filename='table')
                it(numbered(log, outs, [k for k in range(steps) if k + 1 not in saved]), list(init))
                it.run()
                return log, it.RDF, it.t
            with ctx.symbolic_code():
                b = mpisim.run(n, again)
            final = pd.read_csv('table.csv', index_col=0)
        finally:
            D.IteratorMonitorDo.generate_graph_report = G
            D.IteratorMonitorDo.auto_save = A
    left = [k for k in range(steps) if k + 1 not in saved]
    ctx.claim(saved == [] or saved == list(range(len(saved))), 'the file holds the first steps')
    ctx.claim(len(saved) <= crash + 1, 'nothing is saved that was not done')
    if freq is not False and crash > 0:
        ctx.claim(len(saved) >= 2, 'the first step is saved at once')
    for r in range(n):
        ctx.claim(len(a[r]) == crash, 'the steps before the interruption')
        log, R, t = b[r]
        ctx.claim(len(log) == len(left), 'the steps in the file are not done again, the others are')
        for k, (x, y) in zip(left, log):
            ctx.equal(np.array([x, y]), np.array([t0 + k * dt, t0 + (k + 1) * dt]), 1e-9, 'the times of a step after the interruption')
        ctx.equal(t, t0 + steps * dt, 1e-9, 'the time at the end')
        if r == 0:
            table(ctx, R, t0, dt, init, outs, steps, 'resumed')
    table(ctx, final, t0, dt, init, outs, steps, 'the file')


def numbered(log, outs, which):
    def solver(tk, tk1):
        """
        Parameters
        ----------
        tk :
        tk1 :

        Returns
        -------
        exit_code :
        shut_down :
        message :
        first :
        second :

        """
        k = which[len(log)]
        log.append((tk, tk1))
        return 1, 0, 'done', outs[k][0], outs[k][1]
    return solver


def sweep(ctx, n, shape, K, repeats=False):
    """every combination once, in the documented order, results next to their inputs"""
    from tools.run.runners._3d_matrix_inputs.main import ParallelMatrix3dInputRunner
    w0 = 0 if repeats else 1           # no repeated combinations unless asked for
    a = [[ctx.real('a%d_%d' % (i, j), w0 * (3 * i + j) - 1, w0 * (3 * i + j) - 0.5) for j in range(m)] for i, m in enumerate(shape)]
    b = [[ctx.real('b%d_%d' % (i, j), -1, 1) for j in range(m)] for i, m in enumerate(shape)]
    c = [ctx.real('c%d' % k, w0 * k - 1, w0 * k - 0.5) for k in range(K)]
    w = ctx.real('w', -1, 1)
    skip = ctx.choice('skip', [None] + [(i, j) for i, m in enumerate(shape) for j in range(m)])
    if skip is not None:
        a[skip[0]][skip[1]] = None
    todo = [(i, j, k) for k in range(K) for i in range(len(shape)) for j in range(max(shape)) if j < shape[i] and (i, j) != skip]

    done, once = [], []
    for i, j, k in todo if repeats else []:
        v = (a[i][j], b[i][j], c[k])
        if not any(v[0] == u[0] and v[1] == u[1] and v[2] == u[2] for u in done):
            done.append(v)
            once.append((i, j, k))
    if repeats:
        todo = once

    def go(r):
        calls = []

        def solver(p, q, s, w=0):
            """
            Parameters
            ----------
            p :
            q :
            s :

            Returns
            -------
            u :
            v :

            """
            calls.append((p, q, s, w))
            return p + 2 * q * s, q - s + w
        R = ParallelMatrix3dInputRunner(solver)
        R.iterate(a, b, c, w=w)
        return calls, R.results
    with quiet(), ctx.symbolic_code():
        out = mpisim.run(n, go)
    for calls, R in out:
        ctx.claim(len(calls) == len(todo), 'every combination is computed once')
        ctx.claim(len(R.index) == len(todo) and list(R.columns[:5]) == ['p', 'q', 's', 'u', 'v'], 'one row per combination')
        for m, (i, j, k) in enumerate(todo):
            p, q, s = a[i][j], b[i][j], c[k]
            ctx.equal(np.array(calls[m]), np.array([p, q, s, w]), 0, 'the inputs in their order')
            ctx.equal(np.array([R.iloc[m].iloc[x] for x in range(5)]), np.array([p, q, s, p + 2 * q * s, q - s + w]), 1e-12, 'the results next to their inputs')


HARNESSES = [
    S_('march 1', C(march, 4, 1)),
    S_('march 2', C(march, 2, 2, reason='converged')),
    S_('march reason', C(march, 3, 1, reason='steady')),
    S_('whole', C(count, 'whole')),
    S_('any', C(count, 'any')),
    S_('both', C(count, 'both'), C(ends)),
    S_('resume', C(resume, 3, 1, True)),
    S_('resume 2', C(resume, 3, 1, 2)),
    S_('resume ranks', C(resume, 2, 2, True)),
    S_('resume off', C(resume, 2, 1, False)),
    S_('sweep', C(sweep, 1, (3, 2), 2)),
    S_('sweep repeated', C(sweep, 1, (1, 2), 1, repeats=True), C(sweep, 1, (1,), 2, repeats=True)),
    S_('sweep ranks', C(sweep, 2, (1, 2), 2)),
    S_('sweep 3', C(sweep, 3, (2, 1), 1)),
]
