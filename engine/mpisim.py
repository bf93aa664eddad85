"""A deterministic simulation of SIZE MPI processes inside one Python process.

run(n, fn, ...) executes fn(rank) once per simulated rank.  Every module of the code under test that
holds RANK / SIZE / COMM (and the names derived from them) sees the values of the rank that is
running; control passes between the ranks only at communication calls.  The communicator implements
the part of mpi4py that the code uses, with the messages copied as pickling would do, and it checks
what MPI requires: all ranks enter the same collective operations in the same order with the same
root, every receive is matched, and nobody waits for ever.

It runs symbolic values (which real MPI could not ship) as well as numbers, so one symbolic execution
covers all ranks; a replay of a counterexample runs the same code on numbers."""
import copy
import sys
import threading

import numpy as np

NAMES = ('RANK', 'SIZE', 'COMM', 'SLAVE_RANKS', 'WORKER_RANKS', 'SECRETARY_RANK', 'MASTER_RANK')


class MPIError(Exception):
    """The ranks do not follow MPI's rules (mismatched collective, deadlock, unmatched message)."""


class _Stop(BaseException):
    pass


def _root():
    import os                          # the worker runs in its copy of /repo
    f = sys.modules['root.config.main'].__file__ if 'root.config.main' in sys.modules else None
    return (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(f)))) if f else os.getcwd()) + '/'


def _modules():
    root = _root()
    out = []
    for name, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and f.startswith(root):
            d = m.__dict__
            ks = [k for k in NAMES if k in d and not callable(d[k])]
            if ks:
                out.append((d, ks))
    return out


def _caches():
    """Module-level caches: every process has its own, so every simulated rank must, too."""
    root = _root()
    out = []
    for name, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and f.startswith(root):
            for k, v in list(m.__dict__.items()):
                if 'cache' in k.lower() and isinstance(v, (list, dict, set)):
                    out.append(v)
    return out


def _empty(v):
    if isinstance(v, dict):
        return {k: (type(x)() if isinstance(x, (list, dict, set)) else None) for k, x in v.items()} if _slots(v) else {}
    return type(v)()


def _slots(v):
    """a dict of fixed slots ({'key': [], 'cache': []}), not one filled at run time"""
    return bool(v) and all(isinstance(k, str) for k in v)


def _content(v):
    return dict(v) if isinstance(v, dict) else type(v)(v)


def _refill(v, content):
    v.clear()
    if isinstance(v, list):
        v.extend(content)
    else:
        v.update(content)


def _copy(x):
    if isinstance(x, (int, float, str, bytes, bool, type(None))):
        return x
    return copy.deepcopy(x)


def _op(op, xs):
    from mpi4py import MPI
    if op == MPI.LAND:
        r = True
        for x in xs:
            r = bool(x) and r
        return r
    if op == MPI.LOR:
        r = False
        for x in xs:
            r = bool(x) or r
        return r
    r = _copy(xs[0])
    for x in xs[1:]:
        if op == MPI.SUM:
            r = r + x
        elif op == MPI.MAX:
            r = max(r, x)
        elif op == MPI.MIN:
            r = min(r, x)
        elif op == MPI.PROD:
            r = r * x
        else:
            raise MPIError('reduction %s is not modelled' % op)
    return r


def _buf(b):
    if isinstance(b, (list, tuple)):
        b = b[0]
    assert isinstance(b, np.ndarray), 'buffer communication needs an array'
    return b


def _fill(dst, src):
    if dst.dtype != src.dtype and object not in (dst.dtype, src.dtype):
        raise MPIError('buffers of %s and %s' % (src.dtype, dst.dtype))
    if dst.size < src.size:
        raise MPIError('message truncated: %d entries into %d' % (src.size, dst.size))
    if dst.dtype != object and src.dtype == object:
        raise MPIError('symbolic data received into a numeric buffer')
    dst.reshape(-1)[:src.size] = src.reshape(-1)


class Comm(object):
    def __init__(self, sim):
        self.s = sim

    def __deepcopy__(self, memo):
        return self

    def Get_rank(self):
        return self.s.cur

    def Get_size(self):
        return self.s.n

    # ---- collectives
    def barrier(self):
        self.s.collective('barrier', None, None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return self.s.collective('bcast', root, obj, lambda v, r: v[root] if r == root else _copy(v[root]))

    def gather(self, obj, root=0):
        return self.s.collective('gather', root, obj,
                                 lambda v, r: [_copy(x) for x in v] if r == root else None)

    def allgather(self, obj):
        return self.s.collective('allgather', None, obj, lambda v, r: [_copy(x) for x in v])

    def scatter(self, obj=None, root=0):
        def f(v, r):
            if len(v[root]) != self.s.n:
                raise MPIError('scatter of %d items to %d ranks' % (len(v[root]), self.s.n))
            return _copy(v[root][r])
        return self.s.collective('scatter', root, obj, f)

    def alltoall(self, obj):
        def f(v, r):
            for x in v:
                if len(x) != self.s.n:
                    raise MPIError('alltoall of %d items between %d ranks' % (len(x), self.s.n))
            return [_copy(v[q][r]) for q in range(self.s.n)]
        return self.s.collective('alltoall', None, obj, f)

    def reduce(self, obj, op=None, root=0):
        from mpi4py import MPI
        return self.s.collective('reduce', root, obj, lambda v, r: _op(op or MPI.SUM, v) if r == root else None)

    def allreduce(self, obj, op=None):
        from mpi4py import MPI
        return self.s.collective('allreduce', None, obj, lambda v, r: _op(op or MPI.SUM, v))

    def Bcast(self, b, root=0):
        a = _buf(b)
        v = self.s.collective('Bcast', root, a.copy() if self.s.cur == root else None, lambda v, r: v[root])
        if self.s.cur != root:
            _fill(a, v)

    def Reduce(self, a, b, op=None, root=0):
        from mpi4py import MPI
        v = self.s.collective('Reduce', root, _buf(a).copy(), lambda v, r: _op(op or MPI.SUM, v) if r == root else None)
        if self.s.cur == root:
            _fill(_buf(b), v)

    def Allreduce(self, a, b, op=None):
        from mpi4py import MPI
        v = self.s.collective('Allreduce', None, _buf(a).copy(), lambda v, r: _op(op or MPI.SUM, v))
        _fill(_buf(b), v)

    def Gather(self, a, b, root=0):
        v = self.s.collective('Gather', root, _buf(a).copy(), lambda v, r: np.concatenate([x.reshape(-1) for x in v]) if r == root else None)
        if self.s.cur == root:
            _fill(_buf(b), v)

    # ---- point to point (sends are buffered)
    def send(self, obj, dest, tag=0):
        self.s.post(self.s.cur, dest, tag, _copy(obj))

    def recv(self, buf=None, source=None, tag=None):
        return self.s.fetch(source, tag)

    def Send(self, b, dest, tag=0):
        self.s.post(self.s.cur, dest, tag, _buf(b).copy())

    def Recv(self, b, source=None, tag=None):
        _fill(_buf(b), self.s.fetch(source, tag))


class Sim(object):
    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        self.comm = Comm(self)
        self.cur = 0
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.wait = [None] * n         # None: runnable; else a function that says whether it may go on
        self.calls = [[] for _ in range(n)]   # index of the collective -> (op, root, value)
        self.left = {}
        self.box = {}
        self.res = [None] * n
        self.err = None
        self.main = threading.Semaphore(0)
        self.nm = -1
        self.saved = []
        self.known = {}
        self.caches = {}               # id -> [the container, what it held before, {rank: content}]
        self.inside = None             # the rank whose caches are in the containers

    def _swap(self, r):
        for c in self.caches.values():
            if self.inside is not None:
                c[2][self.inside] = _content(c[0])
            if r is None:
                _refill(c[0], c[1])
            elif r in c[2]:
                _refill(c[0], c[2][r])
            else:
                _refill(c[0], _empty(c[1]))
        self.inside = r

    # ---- the modules see the rank that runs
    def _enter(self, r):
        self.cur = r
        if len(sys.modules) != self.nm:
            for d, ks in _modules():
                if id(d) not in self.known:
                    self.known[id(d)] = (d, ks)
                    self.saved.append((d, {k: d[k] for k in ks}))
                    for k in ks:
                        if k == 'SIZE':
                            d[k] = self.n
                        elif k == 'COMM':
                            d[k] = self.comm
                        elif k == 'SLAVE_RANKS':
                            d[k] = list(range(1, self.n))
                        elif k == 'WORKER_RANKS':
                            d[k] = [i for i in range(self.n) if i != min(1, self.n - 1)]
                        elif k == 'SECRETARY_RANK':
                            d[k] = min(1, self.n - 1)
            for v in _caches():
                if id(v) not in self.caches:
                    # a run of several ranks starts with empty caches everywhere
                    self.caches[id(v)] = [v, _content(v), {}]
            self.nm = len(sys.modules)
        if self.n > 1 and self.inside != r:
            self._swap(r)
        for d, ks in self.known.values():
            if 'RANK' in ks:
                d['RANK'] = r

    def _restore(self):
        if self.n > 1:
            self._swap(None)
        for d, old in self.saved:
            d.update(old)

    def _thread(self, r):
        self.sem[r].acquire()
        try:
            if self.err is None:
                self._enter(r)
                self.res[r] = self.fn(r)
        except _Stop:
            pass
        except BaseException as e:
            if self.err is None:
                self.err = e
        self.done[r] = True
        self._next(r, False)

    def _next(self, r, block=True):
        """Give control to another rank (in rank order) that can run."""
        if self.err is not None:
            for q in range(self.n):
                if not self.done[q]:
                    if q == r and block:
                        raise _Stop()
                    self.sem[q].release()
                    if block:
                        raise _Stop()
                    return
            self.main.release()
            return
        for k in range(1, self.n + 1):
            q = (r + k) % self.n
            if self.done[q] or not (self.wait[q] is None or self.wait[q]()):
                continue
            if q == r:
                return
            self.sem[q].release()
            if block:
                self._sleep(r)
            return
        if all(self.done):
            self.main.release()
            return
        waiting = [q for q in range(self.n) if not self.done[q]]
        self.err = MPIError('deadlock: ranks %s wait for ever (last calls %s)' % (
            waiting, [self.calls[q][-1][:2] if self.calls[q] else None for q in waiting]))
        self._next(r, block)

    def _sleep(self, r):
        self.sem[r].acquire()
        if self.err is not None:
            raise _Stop()
        self._enter(r)

    def _block(self, cond):
        r = self.cur
        self.wait[r] = cond
        if not cond():
            self._next(r)
        self.wait[r] = None

    def collective(self, op, root, value, f=None):
        r = self.cur
        i = len(self.calls[r])
        for q in range(self.n):
            if len(self.calls[q]) > i and self.calls[q][i][:2] != (op, root):
                raise MPIError('rank %d calls %s(root=%s) where rank %d calls %s(root=%s)' % (
                    (r, op, root, q) + self.calls[q][i][:2]))
        self.calls[r].append((op, root, value))
        # a rank that has already finished can never join
        self._block(lambda: all(len(self.calls[q]) > i for q in range(self.n)))
        v = [self.calls[q][i][2] for q in range(self.n)]
        out = f(v, r) if f else None
        self.left[i] = self.left.get(i, 0) + 1
        if self.left[i] == self.n:                     # free the values
            for q in range(self.n):
                self.calls[q][i] = self.calls[q][i][:2] + (None,)
        return out

    def post(self, src, dest, tag, obj):
        if not 0 <= dest < self.n:
            raise MPIError('send to rank %s of %d' % (dest, self.n))
        self.box.setdefault(dest, []).append((src, tag, obj))

    def _find(self, r, source, tag):
        any_ = (None, -1, -2)                    # MPI.ANY_SOURCE / ANY_TAG
        for k, (s, t, o) in enumerate(self.box.get(r, ())):
            if (source in any_ or s == source) and (tag in any_ or t == tag):
                return k
        return None

    def fetch(self, source, tag):
        r = self.cur
        self._block(lambda: self._find(r, source, tag) is not None)
        return self.box[r].pop(self._find(r, source, tag))[2]

    def run(self):
        old = threading.stack_size(256 * 2 ** 20)
        th = [threading.Thread(target=self._thread, args=(r,), daemon=True) for r in range(self.n)]
        threading.stack_size(old)
        try:
            old = threading.stack_size(256 * 2 ** 20)
            for t in th:
                t.start()
            threading.stack_size(old)
            self.sem[0].release()
            self.main.acquire()
            for t in th:
                t.join()
        finally:
            self._restore()
        if self.err is not None:
            raise self.err
        if any(self.box.values()):
            raise MPIError('messages were sent and never received: %s' % [
                (s, r, t) for r, b in self.box.items() for s, t, _ in b][:5])
        return self.res


def run(n, fn):
    """[fn(0), ..., fn(n - 1)], each executed as that rank of n."""
    return Sim(n, fn).run()
