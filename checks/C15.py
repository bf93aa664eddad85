"""C15: function and field objects obey pointwise vector calculus at every time and point, whatever
has been evaluated before."""
import numpy as np
from engine.harness import H
from checks import common as K
from checks import oracle as O

BOUNDS = ("all polynomial fields of total degree <= 2 in space (coefficients in [-1,1]) with their own linear "
          "factor in time, at all (t,x) in [0.1,1] x [-0.9,0.9]^d; one composition of every pair of operators "
          "listed (e.g. curl of a sum, divergence of a cross product, grad div, div grad, convection of a "
          "curl); histories of three evaluations at arbitrary (equal or different) times; meshes and node "
          "families listed per harness")
ASSUMPTIONS = [
    "derivatives are the library's numerical ones (step 1e-6): compared within 1e-6 (first) or 2e-3 (nested) "
    "of the exact derivative",
]
T1, T2 = 1e-6, 2e-3


class F(object):
    """polynomial field with time factor (1 + a t): exact values and derivatives."""

    def __init__(self, ctx, name, dim, deg=2, p=None, tc=None, dt=False):
        self.p = K.poly(ctx, name, deg, dim) if p is None else p
        self.a = ctx.real(name + '_t') if tc is None else tc
        self.dim, self.dt = dim, dt

    def __call__(self, t, *x):
        v = self.p(0, *x)
        return v * self.a if self.dt else v * (1 + self.a * t)

    def d(self, k):
        """derivative: k = 0 time, k >= 1 space."""
        if k == 0:
            return F(None, '', self.dim, p=self.p, tc=self.a, dt=True)
        return F(None, '', self.dim, p=self.p.d(k - 1), tc=self.a, dt=self.dt)

    def func(self):
        if self.dim == 3:
            return lambda t, x, y, z: self(t, x, y, z)
        return lambda t, x, y: self(t, x, y)


def _pt(ctx, dim):
    return (ctx.real('t', 0.1, 1.0),) + tuple(ctx.real(n, -0.9, 0.9) for n in 'xyz'[:dim])


def _comp(v):
    """components of a value or of function/field objects."""
    return list(v) if isinstance(v, (list, tuple)) else [v]


def _eq(ctx, got, want, tol, label):
    got, want = _comp(got), _comp(want)
    ctx.claim(len(got) == len(want), label + ': %d components' % len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.equal(g, w, tol, '%s [%d]' % (label, i), deriv=tol >= T1)


def _x(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _dot(a, b):
    return sum(p * q for p, q in zip(a, b))


# ---------------------------------------------------------------------------- function objects
def sc(ctx, dim):
    """scalar functions."""
    if dim == 3:
        from components.functions.timePlus3dSpace.wrappers.scalar import t3dScalar as S
        from components.functions.timePlus3dSpace.wrappers.vector import t3dVector as V
    else:
        from components.functions.timePlus2dSpace.wrappers.scalar import t2dScalar as S
        from components.functions.timePlus2dSpace.wrappers.vector import t2dVector as V
    f, g = F(ctx, 'f', dim), F(ctx, 'g', dim)
    u = [F(ctx, 'u%d' % k, dim, 1) for k in range(dim)]
    P = _pt(ctx, dim)
    R = range(1, dim + 1)
    with ctx.symbolic_code():
        s, r, U = S(f.func()), S(g.func()), V(*[q.func() for q in u])
        ops = [('s', s, f(*P), 1e-9), ('s+r', s + r, f(*P) + g(*P), 1e-9), ('s-r', s - r, f(*P) - g(*P), 1e-9),
               ('-s', -s, -f(*P), 1e-9), ('s*r', s * r, f(*P) * g(*P), 1e-9),
               ('time derivative', s.time_derivative, f.d(0)(*P), T1),
               ('gradient', s.gradient, [f.d(k)(*P) for k in R], T1),
               ('convection', s.convection_by(U), _dot([q(*P) for q in u], [f.d(k)(*P) for k in R]), T1),
               ('material derivative', s.time_derivative + s.convection_by(U),
                f.d(0)(*P) + _dot([q(*P) for q in u], [f.d(k)(*P) for k in R]), T1),
               ('gradient of a difference', (s - r).gradient, [f.d(k)(*P) - g.d(k)(*P) for k in R], T1),
               ('gradient of a product', (s * r).gradient,
                [f.d(k)(*P) * g(*P) + f(*P) * g.d(k)(*P) for k in R], T1),
               ('gradient of a negative', (-s).gradient, [-f.d(k)(*P) for k in R], T1),
               ('time derivative of a sum', (s + r).time_derivative, f.d(0)(*P) + g.d(0)(*P), T1),
               ('Laplacian', s.gradient.divergence, sum(f.d(k).d(k)(*P) for k in R), T2),
               ('Laplacian of a product', (s * r).gradient.divergence,
                sum(f.d(k).d(k)(*P) * g(*P) + 2 * f.d(k)(*P) * g.d(k)(*P) + f(*P) * g.d(k).d(k)(*P) for k in R), T2)]
        if dim == 2:
            ops += [('curl', s.curl, [f.d(2)(*P), -f.d(1)(*P)], T1),
                    ('curl of a sum', (s + r).curl,
                     [f.d(2)(*P) + g.d(2)(*P), -f.d(1)(*P) - g.d(1)(*P)], T1),
                    ('rot curl', s.curl.rot, -sum(f.d(k).d(k)(*P) for k in R), T2),
                    ('div curl', s.curl.divergence, 0 * P[0], T2)]
        else:
            ops += [('curl grad', s.gradient.curl, [0 * P[0]] * 3, T2)]
        for n, o, w, tol in ops:
            _eq(ctx, o(*P), w, tol, n)


def ve(ctx, dim, part):
    if dim == 3:
        from components.functions.timePlus3dSpace.wrappers.vector import t3dVector as V
    else:
        from components.functions.timePlus2dSpace.wrappers.vector import t2dVector as V
    R = range(dim)
    deg = 2 if part == 0 else 1
    u, w = [F(ctx, 'u%d' % k, dim, deg) for k in R], [F(ctx, 'w%d' % k, dim, deg) for k in R]
    P = _pt(ctx, dim)
    uv, wv = [q(*P) for q in u], [q(*P) for q in w]

    def D(q, *k):
        for i in k:
            q = q.d(i)
        return q(*P)

    def curl(q):
        return [D(q[2], 2) - D(q[1], 3), D(q[0], 3) - D(q[2], 1), D(q[1], 1) - D(q[0], 2)]
    div = sum(D(u[k], k + 1) for k in R)
    conv = [_dot(wv, [D(u[i], k + 1) for k in R]) for i in R]
    with ctx.symbolic_code():
        U, W = V(*[q.func() for q in u]), V(*[q.func() for q in w])
        if part == 0:
            ops = [('u', U, uv, 1e-9), ('u+w', U + W, [a + b for a, b in zip(uv, wv)], 1e-9),
                   ('u-w', U - W, [a - b for a, b in zip(uv, wv)], 1e-9), ('-u', -U, [-a for a in uv], 1e-9),
                   ('u.w', U.dot(W), _dot(uv, wv), 1e-9),
                   ('du/dt', U.time_derivative, [D(q, 0) for q in u], T1),
                   ('div u', U.divergence, div, T1),
                   ('convection', U.convection_by(W), conv, T1),
                   ('self convection', U.convection_by(U),
                    [_dot(uv, [D(u[i], k + 1) for k in R]) for i in R], T1)]
            for i in R:
                _eq(ctx, U[i](*P), uv[i], 1e-9, 'u[%d]' % i)
            if dim == 3:
                ops += [('u x w', U.cross_product(W), _x(uv, wv), 1e-9), ('curl u', U.curl, curl(u), T1)]
            else:
                ops += [('rot u', U.rot, D(u[1], 1) - D(u[0], 2), T1)]
        elif part == 1:
            ops = [('div of a sum', (U + W).divergence, div + sum(D(w[k], k + 1) for k in R), T1),
                   ('time derivative of a difference', (U - W).time_derivative,
                    [D(a, 0) - D(b, 0) for a, b in zip(u, w)], T1),
                   ('div of a negative', (-U).divergence, -div, T1),
                   ('grad of a dot', U.dot(W).gradient,
                    [sum(D(u[i], k + 1) * wv[i] + uv[i] * D(w[i], k + 1) for i in R) for k in R], T1),
                   ('material derivative', U.time_derivative + U.convection_by(W),
                    [D(q, 0) + c for q, c in zip(u, conv)], T1)]
            if dim == 3:
                cu, cw = curl(u), curl(w)
                ops += [('curl of a difference', (U - W).curl, [a - b for a, b in zip(cu, cw)], T1),
                        ('div of u x w', U.cross_product(W).divergence, _dot(wv, cu) - _dot(uv, cw), T1),
                        ('helicity', U.dot(U.curl), _dot(uv, cu), T1),
                        ('curl u x w', U.curl.cross_product(W), _x(cu, wv), T1)]
            else:
                ops += [('rot of a sum', (U + W).rot, D(u[1], 1) - D(u[0], 2) + D(w[1], 1) - D(w[0], 2), T1)]
        else:
            ops = [('grad div', U.divergence.gradient, [sum(D(u[k], k + 1, j + 1) for k in R) for j in R], T2)]
            if dim == 3:
                ops += [('curl curl', U.curl.curl,
                         [sum(D(u[k], k + 1, j + 1) - D(u[j], k + 1, k + 1) for k in R) for j in R], T2),
                        ('div curl', U.curl.divergence, 0 * P[0], T2)]
            else:
                ops += [('curl rot', U.rot.curl,
                         [D(u[1], 1, 2) - D(u[0], 2, 2), -D(u[1], 1, 1) + D(u[0], 2, 1)], T2)]
            ops += [('time derivative of div', U.divergence.time_derivative, sum(D(u[k], k + 1, 0) for k in R), T2)]
        for n, o, v, tol in ops:
            _eq(ctx, o(*P), v, tol, n)


def te(ctx, dim):
    if dim == 3:
        from components.functions.timePlus3dSpace.wrappers.tensor import t3dTensor as T
    else:
        from components.functions.timePlus2dSpace.wrappers.tensor import t2dTensor as T
    q = [F(ctx, 'T%d' % k, dim, 1) for k in range(dim * dim)]
    P = _pt(ctx, dim)
    with ctx.symbolic_code():
        A = T(*[f.func() for f in q])
        _eq(ctx, A(*P), [f(*P) for f in q], 1e-9, 'T')
        _eq(ctx, A.time_derivative(*P), [f.d(0)(*P) for f in q], T1, 'dT/dt')


def co(ctx):
    """constants and zeros as functions."""
    from components.functions.timePlus3dSpace.constant import CFG
    from components.functions.timePlus2dSpace.constant import CFGt
    from components.functions._2dSpace.constant import CFG as C2
    from components.functions._3dSpace.constant import CFG as C3
    c = ctx.real('c')
    P = _pt(ctx, 3)
    with ctx.symbolic_code():
        ctx.equal(CFG(c)()(*P), c, 1e-9, 't+3d constant')
        X = [np.array([v, -v]) for v in P[1:]]
        ctx.equal(CFG(c)()(P[0], *X), [c, c], 1e-9, 't+3d constant (array)')
        ctx.equal(CFGt(c)()(P[0], *X[:2]), [c, c], 1e-9, 't+2d constant')
        ctx.equal(C2(c)()(*X[:2]), [c, c], 1e-9, '2d constant')
        ctx.equal(C3(c)()(*X), [c, c], 1e-9, '3d constant')


# ---------------------------------------------------------------------------------- field objects
def _val(field, P):
    """value of a standard field at (t, x...), through the public evaluation at a time."""
    v = field.do.evaluate_func_at_time(P[0])
    if len(field.shape) == 2:
        return [f(*P[1:]) for row in v for f in row]
    return [f(*P[1:]) for f in v]


def f3(ctx, part):
    fc = K.fc3(K.mesh3('crazy', (1, 1, 1), c=0.1), K.space3((1, 1, 1)))
    R = range(3)
    deg = 2 if part == 0 else 1
    f, g = F(ctx, 'f', 3, deg), F(ctx, 'g', 3, deg)
    u, w = [F(ctx, 'u%d' % k, 3, deg) for k in R], [F(ctx, 'w%d' % k, 3, deg) for k in R]
    P = _pt(ctx, 3)
    uv, wv, fv, gv = [q(*P) for q in u], [q(*P) for q in w], f(*P), g(*P)

    def D(q, *k):
        for i in k:
            q = q.d(i)
        return q(*P)

    def curl(q):
        return [D(q[2], 2) - D(q[1], 3), D(q[0], 3) - D(q[2], 1), D(q[1], 1) - D(q[0], 2)]
    div = sum(D(u[k], k + 1) for k in R)
    with ctx.symbolic_code():
        s, r = fc('scalar', f.func()), fc('scalar', g.func())
        U, W = fc('vector', [q.func() for q in u]), fc('vector', [q.func() for q in w])
        if part == 0:
            ops = [('s', s, fv, 1e-9), ('s+r', s + r, fv + gv, 1e-9), ('s-r', s - r, fv - gv, 1e-9),
                   ('-s', -s, -fv, 1e-9), ('s*3', s * 3, 3 * fv, 1e-9), ('-0.5*s', -0.5 * s, -0.5 * fv, 1e-9),
                   ('s*u', s * U, [fv * a for a in uv], 1e-9), ('u*s', U * s, [fv * a for a in uv], 1e-9),
                   ('u', U, uv, 1e-9), ('u+w', U + W, [a + b for a, b in zip(uv, wv)], 1e-9),
                   ('u-w', U - W, [a - b for a, b in zip(uv, wv)], 1e-9), ('-u', -U, [-a for a in uv], 1e-9),
                   ('u*2.5', U * 2.5, [2.5 * a for a in uv], 1e-9), ('-3*u', -3 * U, [-3 * a for a in uv], 1e-9),
                   ('u.w', U.do.inner_product(W), _dot(uv, wv), 1e-9),
                   ('u x w', U.do.cross_product(W), _x(uv, wv), 1e-9),
                   ('ds/dt', s.numerical.time_derivative, D(f, 0), T1),
                   ('grad s', s.numerical.gradient, [D(f, k + 1) for k in R], T1),
                   ('du/dt', U.numerical.time_derivative, [D(q, 0) for q in u], T1),
                   ('grad u', U.numerical.gradient, [D(q, k + 1) for q in u for k in R], T1),
                   ('curl u', U.numerical.curl, curl(u), T1), ('div u', U.numerical.divergence, div, T1)]
            gs, gu = s.general_format, U.general_format
            _eq(ctx, gs(*P), fv, 1e-9, 'function object of a scalar field')
            _eq(ctx, gu(*P), uv, 1e-9, 'function object of a vector field')
        elif part == 1:
            q = [F(ctx, 'T%d' % k, 3, 1) for k in range(9)]
            q2 = [F(ctx, 'Q%d' % k, 3, 1) for k in range(9)]
            T = fc('tensor', [[q[3 * i + j].func() for j in R] for i in R])
            Q = fc('tensor', [[q2[3 * i + j].func() for j in R] for i in R])
            tv, qv = [a(*P) for a in q], [a(*P) for a in q2]
            ops = [('T', T, tv, 1e-9), ('T+Q', T + Q, [a + b for a, b in zip(tv, qv)], 1e-9),
                   ('T-Q', T - Q, [a - b for a, b in zip(tv, qv)], 1e-9), ('-T', -T, [-a for a in tv], 1e-9),
                   ('dT/dt', T.numerical.time_derivative, [D(a, 0) for a in q], T1),
                   ('div T', T.numerical.divergence,
                    [sum(D(q[3 * i + j], j + 1) for j in R) for i in R], T1)]
        else:
            cu, cw = curl(u), curl(w)
            ops = [('curl of a sum', (U + W).numerical.curl, [a + b for a, b in zip(cu, cw)], T1),
                   ('div of a multiple', (2 * U).numerical.divergence, 2 * div, T1),
                   ('div of s u', (s * U).numerical.divergence,
                    fv * div + _dot(uv, [D(f, k + 1) for k in R]), T1),
                   ('div of u x w', U.do.cross_product(W).numerical.divergence, _dot(wv, cu) - _dot(uv, cw), T1),
                   ('grad of a dot', U.do.inner_product(W).numerical.gradient,
                    [sum(D(u[i], k + 1) * wv[i] + uv[i] * D(w[i], k + 1) for i in R) for k in R], T1),
                   ('time derivative of a difference', (s - r).numerical.time_derivative, D(f, 0) - D(g, 0), T1),
                   ('gradient of a negative', (-s).numerical.gradient, [-D(f, k + 1) for k in R], T1),
                   ('curl u x u', U.numerical.curl.do.cross_product(U), _x(cu, uv), T1),
                   ('div grad u', U.numerical.gradient.numerical.divergence, [0 * P[0]] * 3, T2),
                   ('curl curl u', U.numerical.curl.numerical.curl, [0 * P[0]] * 3, T2)]
        for n, o, v, tol in ops:
            _eq(ctx, _val(o, P), v, tol, n)


def f2(ctx, where, part):
    if where == 'tri':
        fc = K.tri('square', 1, K=2)
    else:
        fc = K.fc2(K.mesh2('crazy', (1, 1), c=0.1), K.space2((1, 1)))
    R = range(2)
    f, g = F(ctx, 'f', 2), F(ctx, 'g', 2)
    u, w = [F(ctx, 'u%d' % k, 2) for k in R], [F(ctx, 'w%d' % k, 2) for k in R]
    P = _pt(ctx, 2)
    uv, wv, fv, gv = [q(*P) for q in u], [q(*P) for q in w], f(*P), g(*P)

    def D(q, *k):
        for i in k:
            q = q.d(i)
        return q(*P)
    div = D(u[0], 1) + D(u[1], 2)
    with ctx.symbolic_code():
        s, r = fc('scalar', f.func()), fc('scalar', g.func())
        U, W = fc('vector', [q.func() for q in u]), fc('vector', [q.func() for q in w])
        if part == 0:
            ops = [('s', s, fv, 1e-9), ('u', U, uv, 1e-9),
                   ('s x u', s.do.cross_product(U), [-fv * uv[1], fv * uv[0]], 1e-9),
                   ('s.r', s.do.inner_product(r), fv * gv, 1e-9),
                   ('u.w', U.do.inner_product(W), _dot(uv, wv), 1e-9),
                   ('ds/dt', s.numerical.time_derivative, D(f, 0), T1),
                   ('grad s', s.numerical.grad, [D(f, 1), D(f, 2)], T1),
                   ('curl s', s.numerical.curl, [D(f, 2), -D(f, 1)], T1),
                   ('du/dt', U.numerical.time_derivative, [D(q, 0) for q in u], T1),
                   ('rot u', U.numerical.rot, D(u[1], 1) - D(u[0], 2), T1), ('div u', U.numerical.div, div, T1),
                   ('rot curl s', s.numerical.curl.numerical.rot, -D(f, 1, 1) - D(f, 2, 2), T2),
                   ('div grad s', s.numerical.grad.numerical.div, D(f, 1, 1) + D(f, 2, 2), T2),
                   ('grad of s.r', s.do.inner_product(r).numerical.grad,
                    [D(f, k) * gv + fv * D(g, k) for k in (1, 2)], T1),
                   ('div of s x u', s.do.cross_product(U).numerical.div,
                    -D(f, 1) * uv[1] - fv * D(u[1], 1) + D(f, 2) * uv[0] + fv * D(u[0], 2), T1)]
            _eq(ctx, s.general_format(*P), fv, 1e-9, 'function object of a scalar field')
            _eq(ctx, U.general_format(*P), uv, 1e-9, 'function object of a vector field')
        else:
            ops = [('s+r', s + r, fv + gv, 1e-9), ('s-r', s - r, fv - gv, 1e-9),
                   ('-s', -s, -fv, 1e-9), ('s*3', s * 3, 3 * fv, 1e-9), ('-0.5*s', -0.5 * s, -0.5 * fv, 1e-9),
                   ('s*u', s * U, [fv * a for a in uv], 1e-9), ('u*s', U * s, [fv * a for a in uv], 1e-9),
                   ('u+w', U + W, [a + b for a, b in zip(uv, wv)], 1e-9),
                   ('u-w', U - W, [a - b for a, b in zip(uv, wv)], 1e-9), ('-u', -U, [-a for a in uv], 1e-9),
                   ('u*2.5', U * 2.5, [2.5 * a for a in uv], 1e-9), ('-3*u', -3 * U, [-3 * a for a in uv], 1e-9),
                   ('div of s u', (s * U).numerical.div, fv * div + D(f, 1) * uv[0] + D(f, 2) * uv[1], T1),
                   ('rot of a difference', (U - W).numerical.rot,
                    D(u[1], 1) - D(u[0], 2) - D(w[1], 1) + D(w[0], 2), T1),
                   ('curl of a sum', (s + r).numerical.curl, [D(f, 2) + D(g, 2), -D(f, 1) - D(g, 1)], T1)]
        for n, o, v, tol in ops:
            _eq(ctx, _val(o, P), v, tol, n)


# -------------------------------------------------------------------------------- time histories
def _times(ctx, n=3):
    return [ctx.real('t%d' % k, 0, 2) for k in range(n)]


def hi(ctx, dim):
    """the same field evaluated and reconstructed at three arbitrary times."""
    if dim == 'tri':
        fc = K.tri('square', 1, K=2)
        d = 2
    elif dim == 3:
        fc = K.fc3(K.mesh3('crazy', (2, 1, 1), c=0.1, bounds=[(0, 1), (0, 1.5), (-1, 1)]), K.space3((1, 1, 1)))
        d = 3
    else:
        fc = K.fc2(K.mesh2('crazy', (2, 1), c=0.1, bounds=[(0, 1), (0, 1.5)]), K.space2((1, 1)))
        d = 2
    T = _times(ctx)
    f = F(ctx, 'f', d, 1)
    u = [F(ctx, 'u%d' % k, d, 1) for k in range(d)]
    pts = [np.array([[-0.4, 0.7]] * 1) * (k + 1) / 3 for k in range(d)]
    with ctx.symbolic_code():
        s, U = fc('scalar', f.func()), fc('vector', [q.func() for q in u])
        fields = [(s, [f]), (U, u)]
        if d == 3:
            q = [F(ctx, 'T%d' % k, 3, 0) for k in range(9)]
            A = fc('tensor', [[q[3 * i + j].func() for j in range(3)] for i in range(3)])
            fields.append((A, q))
        for n, (X, comps) in enumerate(fields):
            for k, t in enumerate(T):
                how = (n + k) % 2
                if how:
                    X.current_time = t
                    xyz, v = X.reconstruct(*pts)
                else:
                    xyz, v = X.reconstruct(*pts, time=t, ravel=True)
                for e in v:
                    x = fc.mesh.elements[e].coordinate_transformation.mapping(*pts)
                    val = v[e]
                    if len(X.shape) == 2:
                        val = [c for row in val for c in row]
                    for i, (c, w) in enumerate(zip(val, comps)):
                        ctx.equal(np.ravel(c), np.ravel(w(t, *x)), 1e-9,
                                  'field %d component %d at evaluation %d' % (n, i, k))
            # derived fields share nothing with the history of their operands
            t = T[0]
            if dim != 'tri':
                got = _val(-X, (t,) + (0.3,) * d)
                _eq(ctx, got, [-w(t, *((0.3,) * d)) for w in comps], 1e-9, 'negative of field %d' % n)
            ctx.claim(X.current_time == T[-1], 'operand keeps its time')


def di(ctx, dim, form, bw=False):
    """a form that discretises the same field at t0, t1, t0 again, against the frozen field."""
    def make():
        if dim == 'tri':
            return K.tri('square', 1, K=2)
        if dim == 3:
            return K.fc3(K.mesh3('crazy', (2, 1, 1), c=0.05), K.space3((1, 1, 1)))
        return K.fc2(K.mesh2('crazy', (2, 1), c=0.05), K.space2((1, 1)))
    fc = make()
    d = 3 if dim == 3 else 2
    T = _times(ctx, 2)
    T = [T[0], T[1], T[0]]
    k = int(form[0])
    n = 1 if k in (0, d) else d
    if form[2] == 't' and k == 2:
        n = 1
    u = [F(ctx, 'u%d' % i, d, 1) for i in range(n)]
    kw = {} if dim == 'tri' or (dim == 2 and form[0] == '2') or form[2] == 't' or form[2] == 'e' else {'hybrid': False}

    def field(fs, caller=fc):
        return caller('scalar', fs[0]) if n == 1 else caller('vector', fs)
    with ctx.symbolic_code():
        a, b = fc(form, **kw), fc(form, **kw)
        a.CF = field([q.func() for q in u])
        for j, t in enumerate(T):
            a.CF.current_time = t
            a.discretize()
            got = {e: np.array(a.cochain.local[e]) for e in a.cochain.local}
            if d == 3:
                fs = [_wrap3(q, t) for q in u]
            else:
                fs = [_wrap2(q, t) for q in u]
            b.CF = field(fs)
            b.CF.current_time = 0
            b.discretize()
            for e in got:
                ctx.equal(got[e], b.cochain.local[e], 1e-9, 'discretisation %d' % j)


def _wrap3(q, t):
    def fr(_t, x, y, z):
        return q(t, x, y, z) + 0 * x
    return fr


def _wrap2(q, t):
    def fr(_t, x, y):
        return q(t, x, y) + 0 * x
    return fr


def bw(ctx, dim):
    """boundary-wise fields: each boundary its own functions and the set time."""
    T = _times(ctx, 2)
    T = [T[0], T[1], T[0]]
    if dim == 3:
        fc = K.fc3(K.mesh3('crazy', (2, 2, 1), c=0, bounds=[(0, 1), (0, 1.5), (-1, 1)]), K.space3((1, 1, 1)))
        names, d = ['North', 'East', 'Front'], 3
        pts = [np.array([-0.5, 0.3]), np.array([0.1, 0.9]), np.array([-0.2, 0.4])]
    else:
        fc = K.fc2(K.mesh2('crazy', (2, 2), c=0.1, bounds=[(0, 1), (0, 1.5)]), K.space2((1, 1)))
        names, d = ['Upper', 'Left', 'Right'], 2
        pts = [np.array([-0.5, 0.3]), np.array([0.1, 0.9])]
    u = {b: [F(ctx, 'u%s%d' % (b[0], k), d, 1) for k in range(d)] for b in names}
    f = {b: F(ctx, 'f%s' % b[0], d, 1) for b in names}
    with ctx.symbolic_code():
        V = fc('vector', {b: [q.func() for q in u[b]] for b in names})
        todo = [(V, u)]
        S = fc('scalar', {b: f[b].func() for b in names})
        if dim == 3:
            todo.append((S, {b: [f[b]] for b in names}))
        for X, comps in todo:
            ctx.claim(sorted(X.covered_mesh_boundaries) == sorted(names), 'covered boundaries')
            for t in T:
                xyz, v = X.reconstruct(*pts, time=t)
                seen = set()
                for i in v:
                    b = fc.mesh.trace.elements[i].on_mesh_boundary
                    seen.add(b)
                    for k, q in enumerate(comps[b]):
                        ctx.equal(v[i][k], q(t, *xyz[i]), 1e-9, 'component %d on %s' % (k, b))
                ctx.claim(seen == set(names), 'all covered boundaries reconstructed')
        for t in T:
            v = S.do.evaluate_func_at_time(t)
            P = (0.2, 0.7, -0.3)[:d]
            for b in names:
                ctx.equal(v[b][0](*P), f[b](t, *P), 1e-9, 'scalar on ' + b)
        if dim == 3:
            P = (0.2, 0.7, -0.3)
            nrm = {'North': (-1, 0, 0), 'East': (0, 1, 0), 'Front': (0, 0, 1)}
            para, perp = V.components.T_para, V.components.T_perp
            for t in T:
                a, c = para.do.evaluate_func_at_time(t), perp.do.evaluate_func_at_time(t)
                for b in names:
                    n = nrm[b]
                    w = [q(t, *P) for q in u[b]]
                    wn = _dot(w, n)
                    _eq(ctx, [g(*P) for g in a[b]], [w[k] - wn * n[k] for k in range(3)], 1e-9, 'parallel on ' + b)
                    _eq(ctx, [g(*P) for g in c[b]], _x(w, n), 1e-9, 'perpendicular on ' + b)


def tw(ctx, ID, layout, kw):
    """normal/parallel/perpendicular components and flux of a vector on trace elements."""
    fc = K.fc3(K.mesh3(ID, layout, **kw), K.space3((1, 1, 1)))
    T = _times(ctx, 2)
    u = [F(ctx, 'u%d' % k, 3, 1) for k in range(3)]
    pts = [np.array([-0.5, 0.3]), np.array([0.1, 0.9]), np.array([-0.2, 0.4])]
    with ctx.symbolic_code():
        V = fc('vector', [q.func() for q in u])
        V.current_time = T[1]
        C = V.components
        nc, pa, pe, fl = C.norm, C.T_para, C.T_perp, V.flux
        for t in T:
            vals = [X.reconstruct(*pts, time=t) for X in (nc, pa, pe)]
            fx, fv = fl.reconstruct(*pts, time=t)
            for i in vals[0][1]:
                te = fc.mesh.trace.elements[i]
                n = te.coordinate_transformation.unit_normal_vector(*pts, parse_3_1d_eps=True)
                x = te.coordinate_transformation.mapping(*pts, parse_3_1d_eps=True)
                w = [q(t, *x) for q in u]
                wn = _dot(w, n)
                for nm, v, want in (('normal', vals[0], [wn * a for a in n]),
                                    ('parallel', vals[1], [b - wn * a for a, b in zip(n, w)]),
                                    ('perpendicular', vals[2], _x(w, n))):
                    for k in range(3):
                        ctx.equal(v[1][i][k] + 0 * x[0], want[k] + 0 * x[0], 1e-8, '%s component on trace element' % nm)
                ctx.claim((i in fv) == bool(te.whether.on_mesh_boundary), 'flux defined on the boundary')
                if i in fv:
                    ctx.equal(fv[i][0] + 0 * x[0], wn + 0 * x[0], 1e-8, 'flux on trace element')
        ctx.claim(V.current_time == T[1], 'the vector keeps its own time')


def ip(ctx, form, ID, layout, kw, p, qd, c=0):
    """inner product of a vector field with the basis functions of a form (3-D)."""
    mesh = K.mesh3(ID, layout, **kw)
    fc = K.fc3(mesh, K.space3(p))
    u = [F(ctx, 'u%d' % k, 3, 1) for k in range(3)]
    T = _times(ctx, 2)
    f = fc(form, hybrid=False)
    g, wt = zip(*[np.polynomial.legendre.leggauss(q + 1) for q in qd])
    grid = np.meshgrid(*g, indexing='ij')
    W = np.einsum('i,j,k->ijk', *wt).ravel('F')
    xs = [a.ravel('F') for a in grid]
    with ctx.symbolic_code():
        U = fc('vector', [q.func() for q in u])
        for t in T:
            U.current_time = t
            got = U.do.inner_product_with_space_of(f, quad_degree=list(qd))
            bf = f.do.evaluate_basis_at_meshgrid(*g)[1]
            for e in mesh.elements:
                el = mesh.elements[e]
                x = el.coordinate_transformation.mapping(*xs)
                J = O._jac(el, xs)
                det = O.det(J)
                v = [q(t, *x) for q in u]
                if form == '1-f':
                    Ji = np.linalg.inv(np.array(J, dtype=float).transpose(2, 0, 1)).transpose(1, 2, 0)
                    pb = [sum(Ji[a][b] * v[b] for b in range(3)) * det for a in range(3)]
                else:
                    pb = [sum(J[b][a] * v[b] for b in range(3)) for a in range(3)]
                want = np.concatenate([(pb[a] * W) @ bf[a].T for a in range(3)])
                ctx.equal(np.asarray(got[e].toarray()).ravel(), want, 1e-8, 'inner product with basis')


def vt(ctx, dim):
    """a field given a valid time accepts that time only."""
    t = ctx.real('t', 0, 2)
    if dim == 3:
        fc = K.fc3(K.mesh3('crazy', (1, 1, 1)), K.space3((1, 1, 1)))
        fn = lambda t, x, y, z: x + t
    else:
        fc = K.fc2(K.mesh2('crazy', (1, 1)), K.space2((1, 1)))
        fn = lambda t, x, y: x + t
    with ctx.symbolic_code():
        for vt_, first, ok in ((0.5, None, lambda q: q == 0.5), ('valid_only_at_its_first_instant', 1.25, lambda q: q == 1.25),
                               (None, 0.3, lambda q: True)):
            s = fc('scalar', fn, valid_time=vt_)
            if first is not None:
                s.current_time = first
            for X in (s, -s):
                if X is not s and first is not None:
                    X.current_time = first
                try:
                    X.current_time = t
                    done = True
                except Exception:
                    done = False
                ctx.claim(done == bool(ok(t)), 'valid time %s' % vt_)


HARNESSES = [H('functions: scalar %dd' % d, sc, dim=d) for d in (3, 2)] + \
    [H('functions: vector %dd part %d' % (d, k), ve, dim=d, part=k) for d in (3, 2) for k in (0, 1, 2)] + \
    [H('functions: tensor %dd' % d, te, dim=d) for d in (3, 2)] + \
    [H('functions: constants', co)] + \
    [H('fields 3d part %d' % k, f3, part=k) for k in (0, 1, 2)] + \
    [H('fields 2d part %d' % k, f2, where='2d', part=k) for k in (0, 1)] + \
    [H('fields triangle', f2, where='tri', part=0)] + \
    [H('time history %s' % d, hi, dim=d) for d in (3, 2, 'tri')] + \
    [H('boundary-wise %dd' % d, bw, dim=d) for d in (3, 2)] + \
    [H('valid time %dd' % d, vt, dim=d) for d in (3, 2)] + \
    [H('trace components %s' % n, tw, ID=ID, layout=l, kw=kw) for n, ID, l, kw in (
        ('orthogonal', 'crazy', (2, 1, 1), dict(c=0, bounds=[(0, 1), (0, 1.5), (-1, 1)])),
        ('curved', 'crazy', (1, 1, 2), dict(c=0.1)))] + \
    [H('product with basis of %s %s' % (f, n), ip, form=f, ID=ID, layout=l, kw=kw, p=p, qd=qd)
     for f in ('1-f', '2-f') for n, ID, l, kw, p, qd in (
        ('orthogonal', 'crazy', ([1, 2], 1, 1), dict(c=0, bounds=[(0, 1), (0, 1.5), (-1, 1)]), (1, 2, 1), (3, 2, 4)),
        ('curved', 'crazy', (1, 2, 1), dict(c=0.1), (2, 1, 1), (2, 3, 2)))] + \
    [H('discretisation history 3d %s' % f, di, dim=3, form=f) for f in
     ('0-f', '1-f', '2-f', '3-f', '0-t', '2-t')] + \
    [H('discretisation history 2d %s' % f, di, dim=2, form=f) for f in
     ('0-f-i', '1-f-i', '1-f-o', '2-f-o', '0-f-o', '2-f-i')] + \
    [H('discretisation history triangle %s' % f, di, dim='tri', form=f) for f in
     ('0-f-i', '1-f-i', '1-f-o', '2-f-o')]
