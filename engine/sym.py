"""Symbolic values, path exploration and solver queries.

A symbolic real `S` is a multivariate polynomial in normal form over *variables*: the harness'
inputs, and opaque *atoms* for sin/cos/exp/sqrt/reciprocal of a polynomial.  The real code of /repo
runs on these values (held in numpy object arrays); arithmetic is exact in the reals, except that
numerical coefficients are combined in IEEE doubles (as the program itself does).  Every branch on a
symbolic condition forks the path; every claim is turned into an SMT query (z3).
"""
import dis
import math
import opcode
import sys
from fractions import Fraction
import numbers
import numpy as np
import z3

NUM = (int, float, np.integer, np.floating, Fraction)


class EngineUnsupported(Exception):
    """The engine met an operation it has no symbolic semantics for."""


class PathAbort(BaseException):
    """The current path is infeasible or cut (not an error)."""


# ------------------------------------------------------------------------------------- variables
class Var(object):
    __slots__ = ('vid', 'name', 'lo', 'hi', 'kind', 'arg', 'mate', 'rel', 'z')

    def __init__(self, vid, name, lo, hi, kind='in', arg=None, mate=None):
        self.vid, self.name, self.lo, self.hi = vid, name, lo, hi
        self.kind, self.arg, self.mate = kind, arg, mate
        self.rel = kind in _HASREL      # products with it may simplify, see _reduce_mono
        self.z = None


class World(object):
    """All variables/atoms/queries of the current path."""

    def __init__(self, max_terms=400000):
        self.vars = []
        self.atoms = {}
        self.by_name = {}
        self.max_terms = max_terms
        self.explorer = None
        self.funcs = {}

    def new_var(self, name, lo, hi, kind='in', arg=None):
        v = Var(len(self.vars), name, lo, hi, kind, arg)
        self.vars.append(v)
        self.by_name[name] = v
        return v

    def bounds(self, mono):
        lo, hi = 1.0, 1.0
        i = 0
        n = len(mono)
        while i < n:
            j = i
            while j < n and mono[j] == mono[i]:
                j += 1
            v = self.vars[mono[i]]
            a, b, e = v.lo, v.hi, j - i
            if e % 2 == 0 and a < 0 < b:
                pl, ph = 0.0, max(abs(a), abs(b)) ** e
            else:
                pl, ph = sorted((_powinf(a, e), _powinf(b, e)))
            c = [_mulinf(lo, pl), _mulinf(lo, ph), _mulinf(hi, pl), _mulinf(hi, ph)]
            lo, hi = min(c), max(c)
            i = j
        return lo, hi


def _powinf(a, e):
    try:
        return a ** e
    except OverflowError:
        return math.inf if (a > 0 or e % 2 == 0) else -math.inf


def _mulinf(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


W = World()


def set_world(w):
    global W
    W = w


def world():
    return W


# --------------------------------------------------------------------------------- S: polynomials
def _const(c):
    if isinstance(c, np.generic):
        c = c.item()
    s = S.__new__(S)
    s.t = {(): c} if c != 0 else {}
    return s


def _var(v):
    s = S.__new__(S)
    s.t = {(v.vid,): 1}
    return s


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, SI):
        raise EngineUnsupported('mixing symbolic integers with symbolic reals')
    if isinstance(x, NUM) or isinstance(x, (bool, np.bool_)):
        return _const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise TypeError(f'cannot lift {type(x)}')


def _reduce_mono(mono):
    """Rewrite sin^2 -> 1-cos^2, sqrt^2 -> arg, exp*exp(-) -> 1, x*(1/x) -> 1.  Returns None when irreducible, else
    (S) the equal polynomial."""
    vs = W.vars
    prev = -1
    for i, m in enumerate(mono):
        v = vs[m]
        k = v.kind
        if k == 'recip':
            if v.rel and v.mate in mono:
                l = list(mono)
                l.remove(m)
                l.remove(v.mate)
                return _mono(tuple(l))
            prev = m
            continue
        if k == 'in' or k == 'cos':
            prev = m
            continue
        if k == 'sin':
            if m == prev:
                rest = mono[:i - 1] + mono[i + 1:]
                c = v.mate
                return _mono(rest) - _mono(tuple(sorted(rest + (c, c))))
        elif k == 'sqrt':
            if m == prev:
                rest = mono[:i - 1] + mono[i + 1:]
                return _mono(rest) * v.arg
        elif k == 'exp':
            if v.mate is not None and v.mate in mono:
                l = list(mono)
                l.remove(m)
                l.remove(v.mate)
                return _mono(tuple(l))
        prev = m
    return None


def _mono(m):
    r = _reduce_mono(m)
    if r is not None:
        return r
    s = S.__new__(S)
    s.t = {m: 1}
    return s


_HASREL = {'sin', 'sqrt', 'exp'}


_PERCENT = [i for i, (n, o) in enumerate(opcode._nb_ops) if o == '%'][0]


def _formatting(frame):
    code = frame.f_code.co_code
    i = frame.f_lasti
    return dis.opname[code[i]] == 'BINARY_OP' and code[i + 1] == _PERCENT


class S(object):
    __slots__ = ('t',)
    __array_priority__ = 1000

    # -- construction -------------------------------------------------------------------------
    def __reduce__(self):
        return (_unpickle_S, (tuple((tuple(m), c) for m, c in self.t.items()),))

    @property
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0)

    def _num(self):
        if self.is_const:
            return self.const()
        raise EngineUnsupported('concrete number needed from a symbolic real')

    def __float__(self):
        if not self.is_const and _formatting(sys._getframe(1)):
            return math.nan         # '%.2e' % x: the text of a message
        return float(self._num())

    def __int__(self):
        return int(self._num())

    def __index__(self):
        c = self._num()
        if isinstance(c, int):
            return c
        raise TypeError('not an integer')

    def __complex__(self):
        return complex(self._num())

    def __repr__(self):
        return 'S<' + self.show() + '>'

    def __format__(self, spec):
        if self.is_const:
            return format(self.const(), spec)
        return repr(self)

    def show(self, n=6):
        if not self.t:
            return '0'
        out = []
        for m, c in list(self.t.items())[:n]:
            out.append('*'.join(['%s' % (repr(c))] + [W.vars[i].name for i in m]))
        return ' + '.join(out) + (' + ...' if len(self.t) > n else '')

    # numpy scalar look-alikes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- ring ---------------------------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, S):
            if isinstance(o, np.ndarray) and o.ndim:
                return _ew(o, lambda e: self + e)
            try:
                o = lift(o)
            except TypeError:
                return NotImplemented
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            d = r.get(m)
            if d is None:
                r[m] = c
            else:
                d = d + c
                if d == 0:
                    del r[m]
                else:
                    r[m] = d
        s = S.__new__(S)
        s.t = r
        return s

    __radd__ = __add__

    def __neg__(self):
        s = S.__new__(S)
        s.t = {m: -c for m, c in self.t.items()}
        return s

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not isinstance(o, S):
            if isinstance(o, np.ndarray) and o.ndim:
                return _ew(o, lambda e: self - e)
            try:
                o = lift(o)
            except TypeError:
                return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _ew(o, lambda e: e - self)
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, S):
            if isinstance(o, (np.generic,)) and not isinstance(o, np.bool_):
                o = o.item()
            if type(o) is float or type(o) is int:
                s = S.__new__(S)
                if o == 0:
                    s.t = {}
                elif o == 1:
                    return self
                else:
                    s.t = {m: c * o for m, c in self.t.items()}
                return s
            if isinstance(o, np.ndarray) and o.ndim:
                return _ew(o, lambda e: self * e)
            try:
                o = lift(o)
            except TypeError:
                return NotImplemented
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and () in a:
            return o * a[()]
        if len(b) == 1 and () in b:
            return self * b[()]
        if len(a) * len(b) > 4 * W.max_terms:
            raise EngineUnsupported('polynomial too large')
        r = {}
        rel = None
        vs = W.vars
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                if m1 and m2:
                    m = tuple(sorted(m))
                    for i in m:
                        if vs[i].rel:
                            q = _reduce_mono(m)
                            if q is not None:
                                q = q * (c1 * c2)
                                rel = q if rel is None else rel + q
                                m = None
                            break
                    if m is None:
                        continue
                d = get(m)
                r[m] = c1 * c2 if d is None else d + c1 * c2
        s = S.__new__(S)
        s.t = {m: c for m, c in r.items() if c != 0}
        if len(s.t) > W.max_terms:
            raise EngineUnsupported('polynomial too large')
        if rel is not None:
            s = s + rel
        return s

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, S):
            if isinstance(o, (np.generic,)):
                o = o.item()
            if isinstance(o, (float, int)):
                if o == 0:
                    if self.is_const:
                        return S_of(math.nan) if self.const() == 0 else S_of(math.copysign(math.inf, self.const()))
                    raise EngineUnsupported('division of a symbolic real by zero')
                s = S.__new__(S)
                s.t = {m: c / o for m, c in self.t.items()}
                return s
            if isinstance(o, np.ndarray) and o.ndim:
                return _ew(o, lambda e: self / e)
            try:
                o = lift(o)
            except TypeError:
                return NotImplemented
        if o.is_const:
            return self / o.const()
        return self * o.recip()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _ew(o, lambda e: e / self)
        return lift(o) / self

    def __pow__(self, n):
        if isinstance(n, S):
            n = n._num()
        if isinstance(n, np.generic):
            n = n.item()
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return (self ** (-n)).recip()
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if isinstance(n, float) and (2 * n) == int(2 * n):
            q = self.sqrt()
            return q ** int(2 * n)
        if self.is_const:
            return S_of(self.const() ** n)
        if isinstance(n, float) and 0 < n < 0.5 and math.log2(n) == int(math.log2(n)):
            q = self.sqrt()         # 1/4, 1/8, ...: square roots of square roots
            return q ** (2 * n)
        raise EngineUnsupported('power %r' % (n,))

    def __rpow__(self, o):
        if self.is_const:
            return S_of(o ** self.const())
        return (self * math.log(o)).exp()

    def __abs__(self):
        if self.is_const:
            return S_of(abs(self.const()))
        if bool(self >= 0):
            return self
        return -self

    def __floordiv__(self, o):
        if self.is_const:
            return S_of(self.const() // (o._num() if isinstance(o, S) else o))
        raise EngineUnsupported('floor division')

    def __mod__(self, o):
        if self.is_const:
            return S_of(self.const() % (o._num() if isinstance(o, S) else o))
        raise EngineUnsupported('modulo')

    # -- comparison ----------------------------------------------------------------------------
    def _cmp(self, o, op):
        if not isinstance(o, S):
            if isinstance(o, np.ndarray) and o.ndim:
                return _ew(o, lambda e: self._cmp(e, op))
            if o is None or isinstance(o, (str, tuple, list, dict)):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            try:
                if isinstance(o, (float, np.floating)) and math.isinf(o):
                    return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
                o = lift(o)
            except TypeError:
                return False if op == '==' else (True if op == '!=' else NotImplemented)
        d = self - o
        if d.is_const:
            c = d.const()
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        return SB(('poly', d, op))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __hash__(self):
        if self.is_const:
            return hash(self.const())
        return hash(frozenset(self.t.items()))

    def __bool__(self):
        if not self.t:
            return False
        if self.is_const:
            return True
        # scipy.sparse asks for the sparsity pattern: a symbolic entry is stored (an explicitly
        # stored zero has the same meaning)
        if '/scipy/sparse/' in sys._getframe(1).f_code.co_filename:
            return True
        return bool(self != 0)

    # -- numpy ufunc hooks -----------------------------------------------------------------------
    def sin(self):
        return _trig(self)[0]

    def cos(self):
        return _trig(self)[1]

    def tan(self):
        s, c = _trig(self)
        return s / c

    def exp(self):
        if self.is_const:
            return S_of(math.exp(self.const()))
        out = S_of(1.0)
        for m, c in self.t.items():
            if m == ():
                out = out * math.exp(c)
            else:
                out = out * _exp_atom(m, c)
        return out

    def tanh(self):
        return 1 - 2 / ((2 * self).exp() + 1)

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def sqrt(self):
        if self.is_const:
            return S_of(math.sqrt(self.const()))
        if len(self.t) == 1:
            # the square root of a positive multiple of the square of a monomial of known sign
            (m, c), = self.t.items()
            if c > 0 and len(m) % 2 == 0 and m[::2] == m[1::2]:
                q = S_of(math.sqrt(float(c)))
                for i in m[::2]:
                    q = q * _var(W.vars[i])
                lo, hi = interval(q)
                if lo >= 0:
                    return q
                if hi <= 0:
                    return -q
        key = ('sqrt', _key(self))
        v = W.atoms.get(key)
        if v is None:
            lo, hi = interval(self)
            if lo < 0 and W.explorer.may_be_negative(self) and not bool(self >= 0):
                raise EngineUnsupported('sqrt of a negative value')
            v = W.new_var('sqrt%d' % len(W.vars), math.sqrt(max(lo, 0)) if lo > 0 else 0.0,
                          math.sqrt(max(hi, 0)), 'sqrt', self)
            W.atoms[key] = v
        return _var(v)

    def recip(self):
        if self.is_const:
            return S_of(1 / self.const())
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if len(m) > 1:
                r = S_of(1 / c)
                for i in m:
                    r = r * _var(W.vars[i]).recip()
                return r
            v = W.vars[m[0]]
            if v.kind == 'exp':
                b, cc = v.arg
                return _exp_atom(b, -cc) / c
            if v.kind == 'recip':
                return v.arg / c
        # canonical: make the coefficient of the smallest monomial one
        m0 = min(self.t)
        c0 = self.t[m0]
        p = self / c0
        key = ('recip', _key(p))
        v = W.atoms.get(key)
        if v is None:
            lo, hi = interval(p)
            if lo > 0 or hi < 0:
                blo, bhi = sorted((1 / hi, 1 / lo))
            else:
                # the program divides by something that may vanish: fork (the zero side is a
                # ZeroDivision/inf in the program)
                if not bool(p != 0):
                    raise ZeroDivisionError('symbolic division by zero')
                blo, bhi = -math.inf, math.inf
            v = W.new_var('recip%d' % len(W.vars), blo, bhi, 'recip', p)
            if len(p.t) == 1 and len(m0) == 1:
                v.mate, v.rel = m0[0], True
            W.atoms[key] = v
        return _var(v) / c0

    reciprocal = recip

    def log(self):
        if self.is_const:
            return S_of(math.log(self.const()))
        raise EngineUnsupported('log')

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def arctan2(self, other):
        raise EngineUnsupported('arctan2')

    def arctan(self):
        if self.is_const:
            return S_of(math.atan(self.const()))
        raise EngineUnsupported('arctan')

    def arccos(self):
        if self.is_const:
            return S_of(math.acos(self.const()))
        raise EngineUnsupported('arccos')

    def arcsin(self):
        if self.is_const:
            return S_of(math.asin(self.const()))
        raise EngineUnsupported('arcsin')

    def rint(self):
        return S_of(round(self._num()))

    def _floor(self):
        """the integer part, decided on this path by comparisons"""
        if self.is_const:
            return math.floor(self.const())
        try:
            k = math.floor(evaluate(self, {v.name: (v.lo + v.hi) / 2 for v in W.vars if v.kind == 'in'}))
        except Exception:
            k = 0
        for _ in range(64):
            if self < k:
                k -= 1
            elif self < k + 1:
                return k
            else:
                k += 1
        raise EngineUnsupported('the integer part of an unbounded real')

    def floor(self):
        return S_of(self._floor())

    def ceil(self):
        return S_of(-(-self)._floor())

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def isnan(self):
        return self.is_const and self.const() != self.const()

    def __round__(self, n=None):
        c = self._num()
        return round(c, n)

    def __ceil__(self):
        return -(-self)._floor()

    def __floor__(self):
        return self._floor()


numbers.Number.register(S)


def S_of(c):
    return _const(c)


ZERO = S.__new__(S)
ZERO.t = {}
ONE = S.__new__(S)
ONE.t = {(): 1}


def _unpickle_S(items):
    s = S.__new__(S)
    s.t = {tuple(m): c for m, c in items}
    return s


def _ew(arr, f):
    out = np.empty(arr.shape, dtype=object)
    of, af = out.reshape(-1), arr.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return of.reshape(arr.shape)


def _key(p):
    return tuple(sorted((m, float('%.12g' % float(c))) for m, c in p.t.items()))


def interval(p):
    """Sound interval of a polynomial over the variable boxes (monomial-wise)."""
    lo = hi = 0.0
    for m, c in p.t.items():
        a, b = W.bounds(m) if m else (1.0, 1.0)
        x, y = _mulinf(c, a), _mulinf(c, b)
        lo += min(x, y)
        hi += max(x, y)
    return lo, hi


def magnitude(p):
    return sum(abs(float(c)) for c in p.t.values())


# ----------------------------------------------------------------------------------------- atoms
def _trig(p):
    if p.is_const:
        return S_of(math.sin(p.const())), S_of(math.cos(p.const()))
    s, c = None, None
    for m, co in sorted(p.t.items()):
        if m == ():
            s1, c1 = S_of(math.sin(co)), S_of(math.cos(co))
            # snap the values at multiples of pi/2
            s1 = S_of(_snap(s1.const()))
            c1 = S_of(_snap(c1.const()))
        else:
            s1, c1 = _trig_mono(m, co)
        if s is None:
            s, c = s1, c1
        else:
            s, c = s * c1 + c * s1, c * c1 - s * s1
    return s, c


def _snap(x):
    return float(round(x)) if abs(x - round(x)) < 1e-15 else x


def _trig_mono(m, co):
    """sin and cos of co*m, for a monomial m.  Frequencies that are small integer multiples (or
    divisors 2..) of one already present are expanded over the base atoms."""
    sgn = 1
    if co < 0:
        sgn, co = -1, -co
    bases = W.atoms.setdefault(('trigbase', m), [])
    for (b, vs, vc) in bases:
        r = co / b
        k = round(r)
        if 1 <= k <= 12 and abs(r - k) < 1e-12 * k:
            s, c = _var(vs), _var(vc)
            S1, C1 = s, c
            for _ in range(k - 1):
                s, c = s * C1 + c * S1, c * C1 - s * S1
            return s * sgn, c
    vs = W.new_var('sin%d' % len(W.vars), -1.0, 1.0, 'sin', (m, co))
    vc = W.new_var('cos%d' % len(W.vars), -1.0, 1.0, 'cos', (m, co))
    vs.mate = vc.vid
    vc.mate = vs.vid
    bases.append((co, vs, vc))
    return _var(vs) * sgn, _var(vc)


def declare_trig_base(s, co):
    """Pre-register the smallest frequency co for the variable s (so that multiples share it)."""
    (m, c), = s.t.items()
    _trig_mono(m, co)


def _exp_atom(m, co):
    bases = W.atoms.setdefault(('exp', m), {})
    for b, v in bases.items():
        r = co / b
        k = round(r)
        if 1 <= k <= 12 and abs(r - k) < 1e-12 * k:
            return _var(v) ** k
    big = max(abs(q) for q in W.bounds(m))
    for b, v in [(0.0, None)] + list(bases.items()):
        e = abs(co - b) * big
        if e <= 1e-2:       # exp(b m) times the Taylor polynomial of exp((co-b) m), to rounding accuracy
            z, term, out, n, size = S.__new__(S), S_of(1.0), S_of(1.0), 1, 1.0
            z.t = {m: co - b} if co != b else {}
            while size > 1e-22:
                term = term * z / n
                out = out + term
                size, n = size * e / n, n + 1
            return out if v is None else _var(v) * out
    lo, hi = interval_mono(m, co)
    v = W.new_var('exp%d' % len(W.vars), math.exp(lo), math.exp(hi), 'exp', (m, co))
    for b, u in bases.items():
        if abs(b + co) < 1e-12 * abs(co):
            v.mate, u.mate = u.vid, v.vid
    bases[co] = v
    return _var(v)


def interval_mono(m, co):
    a, b = W.bounds(m)
    x, y = _mulinf(co, a), _mulinf(co, b)
    return min(x, y), max(x, y)


# ------------------------------------------------------------------------------------ derivative
def D(p, x):
    """Exact derivative of p with respect to the input variable x (an S holding one variable)."""
    (xm, xc), = x.t.items()
    xv = xm[0]
    memo = {}
    return _D(lift(p), xv, memo)


def _D(p, xv, memo):
    out = ZERO
    for m, c in p.t.items():
        for i in range(len(m)):
            if i and m[i] == m[i - 1]:
                continue
            e = m.count(m[i])
            dv = _Dvar(m[i], xv, memo)
            if not dv.t:
                continue
            rest = list(m)
            rest.remove(m[i])
            r = S.__new__(S)
            r.t = {tuple(rest): c * e}
            out = out + r * dv
    return out


def _mono_S(m):
    s = S.__new__(S)
    s.t = {m: 1}
    return s


def _Dvar(i, xv, memo):
    if i == xv:
        return ONE
    if i in memo:
        return memo[i]
    v = W.vars[i]
    if v.kind == 'in':
        r = ZERO
    elif v.kind in ('sin', 'cos'):
        m, co = v.arg
        da = _D(_mono_S(m), xv, memo) * co
        mate = _var(W.vars[v.mate])
        r = da * mate if v.kind == 'sin' else -(da * mate)
    elif v.kind == 'exp':
        m, co = v.arg
        r = _D(_mono_S(m), xv, memo) * co * _var(v)
    elif v.kind == 'recip':
        r = -(_D(v.arg, xv, memo) * _var(v) * _var(v))
    elif v.kind == 'sqrt':
        r = _D(v.arg, xv, memo) * _var(v).recip() * 0.5
    else:
        raise EngineUnsupported('derivative of %s' % v.kind)
    memo[i] = r
    return r


def _poly(t):
    s = S.__new__(S)
    s.t = t
    return s


def solve_for(p):
    """(vid, expression) when p == 0 is solved by an input variable that occurs only once, linearly, with
    a constant coefficient; else None."""
    for m, c in p.t.items():
        if len(m) != 1 or W.vars[m[0]].kind != 'in':
            continue
        q = _poly({k: -v / c for k, v in p.t.items() if k != m})
        if m[0] not in used_vars(q):
            return m[0], q
    return None


def subst(p, vid, q):
    """p with input variable vid replaced by q; None if vid also occurs inside an atom of p."""
    keep, out = {}, None
    for m, c in p.t.items():
        for v in set(m):
            if W.vars[v].kind != 'in' and vid in used_vars(_var(W.vars[v])):
                return None
        if vid not in m:
            keep[m] = c
            continue
        term = _poly({tuple(v for v in m if v != vid): c})
        for v in m:
            if v == vid:
                term = term * q
        out = term if out is None else out + term
    r = _poly(keep)
    return r if out is None else r + out


CLEARED = [1.]       # bound of the product of the denominators of the last clear_recips


def clear_recips(p):
    """Multiply p by the denominators of its reciprocal atoms: p == 0 <=> result == 0 (denominators
    are non-zero on the path).  Returns the cleared polynomial."""
    CLEARED[0] = 1.
    for _ in range(200):
        todo = {}
        for m in p.t:
            for i in m:
                if W.vars[i].kind == 'recip':
                    todo[i] = max(todo.get(i, 0), m.count(i))
        if not todo:
            return p
        i = max(todo)
        K = todo[i]
        den = W.vars[i].arg
        CLEARED[0] *= max(1., magnitude(den)) ** K
        powers = [ONE]
        for _k in range(K):
            powers.append(powers[-1] * den)
        buckets = {}
        for m, c in p.t.items():
            k = m.count(i)
            mm = tuple(j for j in m if j != i)
            b = buckets.setdefault(k, {})
            b[mm] = b.get(mm, 0) + c
        out = ZERO
        for k, tt in buckets.items():
            s = S.__new__(S)
            s.t = tt
            out = out + s * powers[K - k]
        p = out
    raise EngineUnsupported('reciprocals do not clear')


# --------------------------------------------------------------------------------------- booleans
class SB(object):
    """A symbolic Boolean: lazily a z3 formula.  bool() of it forks the path."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def z3(self):
        f = self.f
        if isinstance(f, tuple) and f[0] == 'poly':
            return poly_rel(f[1], f[2])
        return f

    def __bool__(self):
        return W.explorer.branch(self)

    def __and__(self, o):
        if isinstance(o, SB):
            return SB(z3.And(self.z3(), o.z3()))
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SB):
            return SB(z3.Or(self.z3(), o.z3()))
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.z3()))

    def logical_not(self):
        return SB(z3.Not(self.z3()))

    def __add__(self, o):           # np.sum of conditions
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)


# ------------------------------------------------------------------------------ symbolic integers
class SI(object):
    """Symbolic integer (Python `int`, unbounded): a z3 integer term."""
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    @staticmethod
    def _l(o):
        if isinstance(o, SI):
            return o.z
        if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, float) and o == int(o):
            return z3.IntVal(int(o))
        if isinstance(o, (bool, np.bool_)):
            return z3.IntVal(int(o))
        return None

    def _b(self, o, f, mul=False):
        if isinstance(o, np.ndarray) and o.ndim:
            return _ew(o, lambda e: self._b(e, f))
        z = SI._l(o)
        if z is None:
            if isinstance(o, float):
                if mul:                      # an exact product with the double
                    q = Fraction(o)
                    return SQ(self * q.numerator, SI(z3.IntVal(q.denominator)))
                return f(float(self), o)
            return NotImplemented
        return SI(z3.simplify(f(self.z, z)))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a, True)
    def __neg__(self): return SI(-self.z)
    def __pos__(self): return self

    def __abs__(self):
        return SI(z3.If(self.z >= 0, self.z, -self.z))

    def __floordiv__(self, o):
        return self._div(o, False)

    def __mod__(self, o):
        return self._div(o, True)

    def __rfloordiv__(self, o):
        return SI(SI._l(o))._div(self, False)

    def __rmod__(self, o):
        return SI(SI._l(o))._div(self, True)

    def __divmod__(self, o):
        return self // o, self % o

    def _div(self, o, mod):
        z = SI._l(o)
        if z is None:
            return NotImplemented
        d = SI(z)
        if not z3.is_int_value(z3.simplify(z)) or z3.simplify(z).as_long() <= 0:
            if not bool(d > 0):
                raise EngineUnsupported('division by a non-positive symbolic integer')
        # z3's div/mod are floor/euclidean for a positive divisor = Python's
        return SI(z3.simplify(self.z % z if mod else self.z / z))

    def __truediv__(self, o):
        z = SI._l(o)
        if z is None:
            return NotImplemented
        if z3.is_int_value(self._simp()) and z3.is_int_value(z3.simplify(z)):
            return self._simp().as_long() / z3.simplify(z).as_long()
        return SQ(self, SI(z))

    def __pow__(self, n):
        r = SI(z3.IntVal(1))
        for _ in range(int(n)):
            r = r * self
        return r

    def _simp(self):
        return z3.simplify(self.z)

    def _cmp(self, o, f, name):
        if isinstance(o, np.ndarray) and o.ndim:
            return _ew(o, lambda e: self._cmp(e, f, name))
        z = SI._l(o)
        if z is None:
            if isinstance(o, float):
                if math.isinf(o):
                    return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[name]
                q = Fraction(o)
                b = z3.simplify(f(z3.ToReal(self.z), z3.Q(q.numerator, q.denominator)))
                return _zb(b)
            if name == 'eq':
                return False
            if name == 'ne':
                return True
            return NotImplemented
        return _zb(z3.simplify(f(self.z, z)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, 'lt')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, 'le')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, 'gt')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, 'ge')
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, 'eq')
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, 'ne')

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        s = self._simp()
        if z3.is_int_value(s):
            return s.as_long()
        return W.explorer.concretise(self.z)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return 'SI<%s>' % self.z

    def __round__(self, n=None):
        return self

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def ceil(self):
        return self

    def floor(self):
        return self

    def astype(self, *_a, **_k):
        return self


numbers.Number.register(SI)


class SQ(object):
    """Quotient a/b of symbolic integers, as a real; supports ceil/floor/int/compare."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __floor__(self):
        return self.a // self.b

    floor = __floor__

    def __ceil__(self):
        return -((-self.a) // self.b)

    ceil = __ceil__

    def __int__(self):
        return int(self.a // self.b)      # non-negative quotients only

    def is_integer(self):
        return (self.a % self.b) == 0

    def __mul__(self, o):
        if isinstance(o, float):
            o = Fraction(o)
            return SQ(self.a * o.numerator, self.b * o.denominator)
        return SQ(self.a * o, self.b)

    __rmul__ = __mul__

    def __float__(self):
        return int(self.a) / int(self.b)

    def __truediv__(self, o):
        return float(self) / float(o)

    def __rtruediv__(self, o):
        return float(o) / float(self)

    def __pow__(self, o):
        return float(self) ** o

    def _c(self, o, f):
        if isinstance(o, (int, SI)):
            if not bool(self.b > 0):
                raise EngineUnsupported('quotient sign')
            return f(self.a, self.b * o)
        raise EngineUnsupported('compare quotient')

    def __lt__(self, o): return self._c(o, lambda x, y: x < y)
    def __le__(self, o): return self._c(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._c(o, lambda x, y: x > y)
    def __ge__(self, o): return self._c(o, lambda x, y: x >= y)
    def __eq__(self, o): return self._c(o, lambda x, y: x == y)
    def __ne__(self, o): return self._c(o, lambda x, y: x != y)
    __hash__ = None


def _zb(b):
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SB(b)


# -------------------------------------------------------------------------------- z3 translation
def q_of(c):
    if isinstance(c, np.generic):
        c = c.item()
    if isinstance(c, int):
        return z3.RealVal(c)
    f = Fraction(c)
    return z3.Q(f.numerator, f.denominator)


class Linear(object):
    """Monomial abstraction: each non-linear monomial becomes a fresh real within its box."""

    def __init__(self):
        self.y = {}
        self.cons = []

    def mono(self, m):
        z = self.y.get(m)
        if z is None:
            z = z3.Real('m!' + '_'.join(map(str, m)))
            self.y[m] = z
            lo, hi = W.bounds(m)
            if not math.isinf(lo):
                self.cons.append(z >= q_of(lo))
            if not math.isinf(hi):
                self.cons.append(z <= q_of(hi))
        return z

    def poly(self, p):
        terms = []
        for m, c in p.t.items():
            if m == ():
                terms.append(q_of(c))
            else:
                terms.append(q_of(c) * self.mono(m))
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]


def zvar(v):
    if v.z is None:
        v.z = z3.Real('v!%d' % v.vid)
    return v.z


def used_vars(p, acc=None):
    """variables of p, closing over the arguments of atoms."""
    acc = set() if acc is None else acc
    for m in p.t:
        for i in m:
            _use(i, acc)
    return acc


def _use(i, acc):
    if i in acc:
        return
    acc.add(i)
    v = W.vars[i]
    if v.kind in ('recip', 'sqrt'):
        used_vars(v.arg, acc)
    elif v.kind in ('sin', 'cos', 'exp'):
        for j in v.arg[0]:
            _use(j, acc)
        if v.mate is not None:
            _use(v.mate, acc)


def zmono(m):
    r = None
    for i in m:
        z = zvar(W.vars[i])
        r = z if r is None else r * z
    return r if r is not None else z3.RealVal(1)


def zpoly(p):
    terms = [q_of(c) * zmono(m) if m else q_of(c) for m, c in p.t.items()]
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def axioms(vids):
    out = []
    for i in vids:
        v = W.vars[i]
        z = zvar(v)
        if not math.isinf(v.lo):
            out.append(z >= q_of(v.lo))
        if not math.isinf(v.hi):
            out.append(z <= q_of(v.hi))
        if v.kind == 'sin':
            c = zvar(W.vars[v.mate])
            out.append(z * z + c * c == 1)
        elif v.kind == 'recip':
            out.append(z * zpoly(v.arg) == 1)
        elif v.kind == 'sqrt':
            out.append(z * z == zpoly(v.arg))
            out.append(z >= 0)
        elif v.kind == 'exp' and v.mate is not None:
            out.append(z * zvar(W.vars[v.mate]) == 1)
    return out


_REL = {'<': lambda a: a < 0, '<=': lambda a: a <= 0, '>': lambda a: a > 0, '>=': lambda a: a >= 0,
        '==': lambda a: a == 0, '!=': lambda a: a != 0}


def poly_rel(p, op):
    W.explorer.note_vars(used_vars(p))
    return _REL[op](zpoly(p))


def evaluate(p, vals):
    """numeric value of p for an assignment name->float of the inputs (atoms computed for real)."""
    memo = {}

    def var(i):
        if i in memo:
            return memo[i]
        v = W.vars[i]
        if v.kind == 'in':
            r = vals[v.name]
        elif v.kind == 'sin':
            r = math.sin(v.arg[1] * mono(v.arg[0]))
        elif v.kind == 'cos':
            r = math.cos(v.arg[1] * mono(v.arg[0]))
        elif v.kind == 'exp':
            r = math.exp(v.arg[1] * mono(v.arg[0]))
        elif v.kind == 'recip':
            d = ev(v.arg)
            r = 1 / d if d != 0 else math.inf
        elif v.kind == 'sqrt':
            r = math.sqrt(max(ev(v.arg), 0))
        else:
            raise EngineUnsupported(v.kind)
        memo[i] = r
        return r

    def mono(m):
        r = 1.0
        for i in m:
            r *= var(i)
        return r

    def ev(q):
        return math.fsum(float(c) * mono(m) for m, c in q.t.items())

    return ev(p)


# ------------------------------------------- builtins that a module's own names can be replaced with
class SRange(object):
    """range(start, stop) with symbolic ends."""

    def __init__(self, start, stop):
        self.start, self.stop, self.step = start, stop, 1

    def __contains__(self, i):
        return bool(self.start <= i) and bool(i < self.stop)

    def __eq__(self, o):
        return bool(self.start == o.start) and bool(self.stop == o.stop)

    __hash__ = None

    def size(self):
        d = self.stop - self.start
        return d if bool(d > 0) else 0

    def max(self, axis=None, out=None):
        if not bool(self.stop > self.start):
            raise ValueError('max() arg is an empty sequence')
        return self.stop - 1

    def min(self, axis=None, out=None):
        if not bool(self.stop > self.start):
            raise ValueError('min() arg is an empty sequence')
        return self.start

    def __iter__(self):
        return iter(range(int(self.start), int(self.stop)))

    def __len__(self):
        return int(self.size())


def s_range(*a):
    if len(a) == 2 and any(isinstance(x, SI) for x in a):
        return SRange(*a)
    return range(*a)


def s_len(x):
    return x.size() if isinstance(x, SRange) else len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SI))


class s_int(object, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SI):
            return x
        if isinstance(x, SQ):
            return x.a // x.b                    # non-negative quotients only
        return int(x, *a)


def s_max(*a, **k):
    return a[0].max() if len(a) == 1 and isinstance(a[0], SRange) else max(*a, **k)


def s_min(*a, **k):
    return a[0].min() if len(a) == 1 and isinstance(a[0], SRange) else min(*a, **k)


class builtins_of(object):
    """with builtins_of(modules): their range/len/int/max/min accept symbolic integers."""
    F = dict(range=s_range, len=s_len, int=s_int, max=s_max, min=s_min)

    def __init__(self, *modules):
        self.ms = modules

    def __enter__(self):
        for m in self.ms:
            m.__dict__.update(self.F)

    def __exit__(self, *a):
        for m in self.ms:
            for k in self.F:
                m.__dict__.pop(k, None)
