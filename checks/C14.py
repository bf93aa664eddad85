"""C14: every exact solution is one: its derived fields are the exact derivatives of its primary
fields, and its source/body-force fields satisfy the governing equations, at every (t, x)."""
import numpy as np
from engine.harness import H
from checks import common as K

BOUNDS = ("all (t,x) in a box around the origin (t in [0.1,1], coordinates in [-0.9,0.9]); every exact "
          "solution registered in the 3-D, 2-D and triangle allocators except LDC and flow_round_cylinder (their "
          "velocity is boundary data only); parameter values listed per harness (never all defaults)")
ASSUMPTIONS = [
    "derivatives which a solution leaves to the library's numerical differentiation (step 1e-6) are "
    "compared within 1e-5 (first) or 2e-3 (nested second) relative to the size of the terms",
    "solutions whose body force is prescribed data (valid at their first instant only) are not asked "
    "to satisfy the momentum equation",
]

RK3 = 'R:R'


def _box(ctx, dim, lo=-0.9, hi=0.9):
    t = ctx.real('t', 0.1, 1.0)
    x = [ctx.real(n, lo, hi) for n in 'xyz'[:dim]]
    return t, x


def _funcs(field):
    """component functions of a field as the library holds them (one region)."""
    assert field.ftype == 'standard', field.ftype
    v = field.func
    return list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v]


class G(object):
    """Values and exact derivatives of named scalar functions at one symbolic point."""

    def __init__(self, ctx, t, x):
        self.ctx, self.a = ctx, (t,) + tuple(x)

    def lift(self, f):
        """function of (t,x...) on arrays of shape () given scalars."""
        def g(*a):
            v = f(*a)
            return v
        return g

    def __call__(self, f, *ks):
        """f differentiated in the argument slots ks (0: t, 1: x, ...)."""
        g = f
        for k in ks:
            g = self._d(g, k)
        return g(*self.a)

    def _d(self, g, k):
        return lambda *a: self.ctx.deriv(g, list(a), k)


T1, T2 = 1e-5, 2e-3


def _fields(ctx, es, t, x, spec, skip=()):
    """spec: {property name: (list of expected component values, tolerance)}"""
    for name, (want, tol) in spec.items():
        if name in skip:
            continue
        with ctx.symbolic_code():
            got = [f(t, *x) for f in _funcs(getattr(es, name))]
        ctx.claim(len(got) == len(want), '%s has %d components' % (name, len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.equal(g, w, tol * (_scale(w) if ctx.symbolic else 1), '%s[%d]' % (name, i), deriv=True)


def _scale(w):
    """bound of the size of the terms of w over the box."""
    from engine import sym
    w = sym.lift(w)
    return 1 + sum(abs(v) for v in sym.interval(w))


def _curl3(g, U):
    return [g(U[2], 2) - g(U[1], 3), g(U[0], 3) - g(U[2], 1), g(U[1], 1) - g(U[0], 2)]


def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def ns3(ctx, ID, mesh, kw, momentum, pressure, num2=False, nu=0):
    """3-D incompressible Navier-Stokes family."""
    from objects.CSCG._3d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh3(*mesh[:2], **mesh[2]))('icpsNS:' + ID, **kw)
    ctx.claim(es.nu == nu, 'viscosity kept')
    t, x = _box(ctx, 3)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        U = [es.u, es.v, es.w]
        u = [g(f) for f in U]
        om = _curl3(g, U)
        lap = [g(f, 1, 1) + g(f, 2, 2) + g(f, 3, 3) for f in U]
        div = g(U[0], 1) + g(U[1], 2) + g(U[2], 3)
        ke = 0.5 * _dot(u, u)
        gke = [sum(u[i] * g(U[i], k) for i in range(3)) for k in (1, 2, 3)]
    ctx.equal(div, 0 * div, T1, 'exact velocity is divergence free', deriv=True)
    spec = {'velocity': (u, 1e-9),
            'vorticity': (om, T1),
            'divergence_of_velocity': ([0 * x[0]], T1),
            'source_term': ([0 * x[0]], 1e-9),
            'kinetic_energy_distribution': ([ke], 1e-9),
            'helicity_distribution': ([_dot(u, om)], T1),
            'enstrophy_distribution': ([0.5 * _dot(om, om)], T1),
            'divergence_of_vorticity': ([0 * x[0]], T1)}
    spec['curl_of_vorticity'] = ([-v for v in lap], T2 if num2 else T1)
    if pressure:
        with ctx.symbolic_code():
            p = g(es.p)
            gp = [g(es.p, k) for k in (1, 2, 3)]
        spec['pressure'] = ([p], 1e-9)
        spec['gradient_of_pressure'] = (gp, T1)
        spec['total_pressure'] = ([p + ke], 1e-9)
        spec['gradient_of_total_pressure'] = ([a + b for a, b in zip(gp, gke)], T1)
    if momentum:
        wxu = _cross(om, u)
        spec['body_force'] = ([g(U[i], 0) + wxu[i] + gp[i] + gke[i] - nu * lap[i] for i in range(3)],
                              T2 if num2 else T1)
    _fields(ctx, es, t, x, spec)
    ctx.claim(es.curl_of_velocity is es.vorticity, 'curl_of_velocity is the vorticity')


def fbody(ctx, ID, mesh, kw, want):
    """prescribed body forces which are conservative: f = -/+ grad of a potential."""
    from objects.CSCG._3d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh3(*mesh[:2], **mesh[2]))('icpsNS:' + ID, **kw)
    t, x = _box(ctx, 3)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        F = _funcs(es.body_force)
        f = [g(v) for v in F]
        c = _curl3(g, F)
    for i in range(3):
        ctx.equal(c[i], 0 * c[i], 1e-7, 'body force is conservative (curl-free)', deriv=True)
    if want is not None:
        for i, w in enumerate(want):
            ctx.equal(f[i], w + 0 * x[0], 1e-9, 'body force %d' % i)


def mhd(ctx, ID, kw, momentum=True, lo=-0.9, hi=0.9):
    from objects.CSCG._3d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh3('crazy', (1, 1, 1), bounds=((0, .9), (0, 1), (0, 1.1))))('MHD:' + ID, **kw)
    Rf, Rm, c = kw['Rf'], kw['Rm'], kw['c']
    t, x = _box(ctx, 3, lo, hi)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        U = [es.u, es.v, es.w]
        if ID == 'as1':   # the magnetic field is the (numerical) curl of the velocity
            B = [lambda *a: ctx.deriv(es.w, list(a), 2) - ctx.deriv(es.v, list(a), 3),
                 lambda *a: ctx.deriv(es.u, list(a), 3) - ctx.deriv(es.w, list(a), 1),
                 lambda *a: ctx.deriv(es.v, list(a), 1) - ctx.deriv(es.u, list(a), 2)]
        else:
            B = [es.Bx, es.By, es.Bz]
        u, b = [g(f) for f in U], [g(f) for f in B]
        om, j = _curl3(g, U), _curl3(g, B)
        lap = [g(f, 1, 1) + g(f, 2, 2) + g(f, 3, 3) for f in U]
        div = g(U[0], 1) + g(U[1], 2) + g(U[2], 3)
        gdiv = [sum(g(U[i], i + 1, k) for i in range(3)) for k in (1, 2, 3)]
        divB = g(B[0], 1) + g(B[1], 2) + g(B[2], 3)
        ke = 0.5 * _dot(u, u)
        gke = [sum(u[i] * g(U[i], k) for i in range(3)) for k in (1, 2, 3)]
        p = g(es.p) if momentum else 0
        gp = [g(es.p, k) for k in (1, 2, 3)] if momentum else None
        uxb = _cross(u, b)
        E = [j[i] / Rm - uxb[i] for i in range(3)]
        # curl E, exactly: curl j / Rm - curl (u x B)
        EF = [_Efun(ctx, B, U, Rm, i) for i in range(3)]
        cE = _curl3(g, EF)
    TB = T1 if ID != 'as1' else T2
    ctx.equal(divB, 0 * divB, T1, 'exact magnetic field is divergence free', deriv=True)
    spec = {'velocity': (u, 1e-9), 'magnetic_field': (b, 1e-9 if ID != 'as1' else T1),
            'vorticity': (om, T1), 'divergence_of_velocity': ([div], T1),
            'mass_source_term': ([div], T1), 'magnetic_source_term': ([0 * x[0]], 1e-9),
            'volume_current_density': (j, TB), 'curl_of_magnetic_field': (j, TB),
            'electric_field': (E, TB), 'kinetic_energy_distribution': ([ke], 1e-9),
            'fluid_helicity_distribution': ([_dot(u, om)], T1),
            'enstrophy_distribution': ([0.5 * _dot(om, om)], T1),
            'Laplace_of_velocity': (lap, T2),
            'curl_of_vorticity': ([gd - l for gd, l in zip(gdiv, lap)], T2)}
    if ID != 'as1':
        spec['divergence_of_magnetic_field'] = ([0 * x[0]], T1)
        spec['electric_source_term'] = ([g(B[i], 0) + cE[i] for i in range(3)], T2)
    if momentum:
        spec['pressure'] = ([p], 1e-9)
        spec['gradient_of_pressure'] = (gp, T1)
        spec['total_pressure'] = ([p + ke], 1e-9)
        spec['gradient_of_total_pressure'] = ([a + q for a, q in zip(gp, gke)], T1)
        wxu, jxb = _cross(om, u), _cross(j, b)
        spec['body_force'] = ([g(U[i], 0) + wxu[i] + gp[i] + gke[i] - lap[i] / Rf - c * jxb[i]
                               for i in range(3)], T2)
    _fields(ctx, es, t, x, spec)


def _Efun(ctx, B, U, Rm, i):
    a, b = (i + 1) % 3, (i + 2) % 3

    def f(*q):
        q = list(q)
        ji = ctx.deriv(B[b], q, a + 1) - ctx.deriv(B[a], q, b + 1)
        return ji / Rm - (U[a](*q) * B[b](*q) - U[b](*q) * B[a](*q))
    return f


def poisson3(ctx):
    from objects.CSCG._3d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh3('crazy', (1, 1, 1)))('Poisson:sincos1')
    t, x = _box(ctx, 3)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        u = [g(es.phi, k) for k in (1, 2, 3)]
        spec = {'potential': ([g(es.phi)], 1e-9), 'velocity': (u, T1),
                'source_term': ([-sum(g(es.phi, k, k) for k in (1, 2, 3))], T2),
                'kinetic_energy_distribution': ([0.5 * _dot(u, u)], T1)}
    _fields(ctx, es, t, x, spec)


def stokes3(ctx):
    from objects.CSCG._3d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh3('crazy', (1, 1, 1)))('Stokes:sincos1')
    t, x = _box(ctx, 3)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        U = [es.u, es.v, es.w]
        u, om = [g(f) for f in U], _curl3(g, U)
        lap = [g(f, 1, 1) + g(f, 2, 2) + g(f, 3, 3) for f in U]
        div = g(U[0], 1) + g(U[1], 2) + g(U[2], 3)
        gp = [g(es.p, k) for k in (1, 2, 3)]
        spec = {'velocity': (u, 1e-9), 'vorticity': (om, T1), 'pressure': ([g(es.p)], 1e-9),
                'gradient_of_pressure': (gp, T1), 'divergence_of_velocity': ([div], T1),
                'curl_of_vorticity': ([-v for v in lap], T2), 'divergence_of_vorticity': ([0 * x[0]], T1),
                'kinetic_energy_distribution': ([0.5 * _dot(u, u)], 1e-9),
                'body_force': ([a - b for a, b in zip(gp, lap)], T2)}
        s = es.source_term(t, *x)
    ctx.equal(div, 0 * div, 1e-8, 'exact velocity is divergence free', deriv=True)
    ctx.equal(s, 0 * x[0], 1e-9, 'source term')
    _fields(ctx, es, t, x, spec)


def tise(ctx, m, E):
    from objects.CSCG._3d.master import ExactSolutionSelector
    from scipy.constants import hbar
    es = ExactSolutionSelector(K.mesh3('crazy', (1, 1, 1)))('TISE:sincos1', m=m, E=E)
    al = hbar ** 2 / (2 * m)
    t, x = _box(ctx, 3)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        psi, V = g(es.psi), g(es.V)
        lap = sum(g(es.psi, k, k) for k in (1, 2, 3))
        spec = {'wave_function': ([psi], 1e-9), 'flux': ([g(es.psi, k) for k in (1, 2, 3)], T1),
                'source_term': ([lap], 1e-7)}
    ctx.equal(-al * lap + V * psi, E * psi, 1e-8, 'Schroedinger equation', deriv=True)
    ctx.claim(es.m == m and es.E == E, 'mass and energy kept')
    _fields(ctx, es, t, x, spec)


def ph(ctx, OM, PHI):
    from objects.CSCG._3d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh3('crazy', (1, 1, 1)))('pH_grad_div:eigen1', OM=OM, PHI=PHI)
    t, x = _box(ctx, 3)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        P, U = _funcs(es.sf), _funcs(es.vf)
        for i in range(3):
            ctx.equal(g(U[i], 0), -g(P[0], i + 1), 1e-7, 'du/dt = -grad p [%d]' % i, deriv=True)
        ctx.equal(g(P[0], 0), -(g(U[0], 1) + g(U[1], 2) + g(U[2], 3)), 1e-7, 'dp/dt = -div u', deriv=True)
        # amplitude and frequencies
        omt = (OM[0] ** 2 + OM[1] ** 2 + OM[2] ** 2)
        ctx.equal(g(P[0], 0, 0), -omt * g(P[0]), 1e-7, 'p oscillates with |omega|', deriv=True)
        for k in (1, 2, 3):
            ctx.equal(g(P[0], k, k), -OM[k - 1] ** 2 * g(P[0]), 1e-7, 'p is an eigenfunction in x%d' % k, deriv=True)


def wave(ctx):
    from objects.CSCG._3d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh3('crazy', (1, 1, 1)))('WE:as1')
    t, x = _box(ctx, 3)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        f = es.phi
        spec = {'wave_function': ([g(f)], 1e-9), 'potential': ([g(f, 0)], T1),
                'velocity': ([g(f, k) for k in (1, 2, 3)], T1),
                'source_term': ([g(f, 0, 0) - sum(g(f, k, k) for k in (1, 2, 3))], T2)}
    _fields(ctx, es, t, x, spec)


def ns2(ctx, ID, mesh, kw, nu, momentum, own_omega=False, lo=-0.9, hi=0.9):
    from objects.CSCG._2d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh2(*mesh[:2], **mesh[2]))(ID, **kw)
    _ns2(ctx, es, nu, momentum, own_omega, momentum, lo, hi)


def _ns2(ctx, es, nu, momentum, own_omega, pressure, lo=-0.9, hi=0.9, scale_omega=False):
    t, x = _box(ctx, 2, lo, hi)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        U = [es.u, es.v]
        u = [g(f) for f in U]
        div = g(U[0], 1) + g(U[1], 2)
        om = g(U[1], 1) - g(U[0], 2)
        omx = [g(U[1], 1, k) - g(U[0], 2, k) for k in (1, 2)]
        ke = 0.5 * _dot(u, u)
        T = T1 if own_omega else T2
        spec = {'velocity': (u, 1e-9), 'vorticity': ([om], T1), 'kinetic_energy_distribution': ([ke], 1e-9)}
        if nu is not None:
            spec['divergence_of_velocity'] = ([div], T1)
            spec['curl_of_vorticity'] = ([omx[1], -omx[0]], T)
            if hasattr(type(es), 'palinstrophy_distribution'):
                spec['palinstrophy_distribution'] = ([0.5 * (omx[0] ** 2 + omx[1] ** 2)], T)
        if pressure:
            p = g(es.p)
            spec['pressure'] = ([p], 1e-9)
            spec['total_pressure'] = ([p + ke], 1e-9)
        if momentum:
            gtp = [g(es.p, k) + sum(u[i] * g(U[i], k) for i in range(2)) for k in (1, 2)]
            spec['body_force'] = ([g(U[0], 0) - om * u[1] + nu * omx[1] + gtp[0],
                                   g(U[1], 0) + om * u[0] - nu * omx[0] + gtp[1]], T)
        elif nu is not None:
            spec['body_force'] = ([0 * x[0], 0 * x[0]], 1e-9)
        s = es.source_term(t, *x)
    ctx.equal(div, 0 * div, 1e-6, 'exact velocity is divergence free', deriv=True)
    ctx.equal(s, 0 * x[0], 1e-9, 'source term')
    _fields(ctx, es, t, x, spec)


def tgv2_free(ctx, nu):
    """the Taylor-Green vortex solves the unforced equations."""
    from objects.CSCG._2d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh2('crazy_periodic', (1, 1), bounds=((0, 2), (0, 2))))('icpsNS:TGV', nu=nu)
    t, x = _box(ctx, 2)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        U = [es.u, es.v]
        for i in range(2):
            acc = g(U[i], 0) + sum(g(U[k]) * g(U[i], k + 1) for k in range(2))
            vis = nu * (g(U[i], 1, 1) + g(U[i], 2, 2))
            ctx.equal(acc + g(es.p, i + 1), vis, 1e-6, 'unforced momentum equation %d' % i, deriv=True)


def shear(ctx, delta, epsilon, part):
    from objects.CSCG._2d.master import ExactSolutionSelector
    b = 2 * np.pi
    es = ExactSolutionSelector(K.mesh2('crazy_periodic', (1, 1), bounds=((0, b), (0, b))))(
        'Euler:shear_layer_rollup', delta=delta, epsilon=epsilon)
    t = 0
    x = [ctx.real('x', 0, 6.2), ctx.real('y', *((0.1, 3.1) if part == 'low' else (3.2, 6.2)))]
    with ctx.symbolic_code():
        got = [f(t, np.array([x[0]]), np.array([x[1]]))[0] for f in _funcs(es.velocity)]
    xs = (x[1] - np.pi / 2) / delta if part == 'low' else (3 * np.pi / 2 - x[1]) / delta
    ctx.equal(got[0], np.tanh(xs), 1e-9, 'u')
    ctx.equal(got[1], epsilon * np.sin(x[0]), 1e-9, 'v')


def laplace2(ctx):
    from objects.CSCG._2d.master import ExactSolutionSelector
    es = ExactSolutionSelector(K.mesh2('crazy', (1, 1)))('sL:sincos1')
    t, x = _box(ctx, 2)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        spec = {'potential': ([g(es.p)], 1e-9), 'velocity': ([g(es.p, k) for k in (1, 2)], T1),
                'source_term': ([g(es.p, 1, 1) + g(es.p, 2, 2)], T2)}
    _fields(ctx, es, t, x, spec)


def tri_stokes(ctx):
    es = K.tri('square', 1)('Stokes : sin cos 1')
    t, x = _box(ctx, 2)
    g = G(ctx, t, x)
    with ctx.symbolic_code():
        U = [es.u, es.v]
        u = [g(f) for f in U]
        lap = [g(f, 1, 1) + g(f, 2, 2) for f in U]
        gp = [g(es.p, k) for k in (1, 2)]
        div = g(U[0], 1) + g(U[1], 2)
        spec = {'velocity': (u, 1e-9), 'vorticity': ([g(U[1], 1) - g(U[0], 2)], T1),
                'pressure': ([g(es.p)], 1e-9), 'gradient_of_pressure': (gp, T1),
                'divergence_of_velocity': ([div], T1), 'curl_of_vorticity': ([-v for v in lap], T2),
                'divergence_of_vorticity': ([0 * x[0]], T1),
                'kinetic_energy_distribution': ([0.5 * _dot(u, u)], 1e-9),
                'body_force': ([a - b for a, b in zip(gp, lap)], T2)}
    ctx.equal(div, 0 * div, 1e-6, 'exact velocity is divergence free', deriv=True)
    _fields(ctx, es, t, x, spec)


def tri_dipole(ctx, Re):
    es = K.tri('square', 1)('diNS : dipole collision', Re=Re, x1=0.05, y1=0.11, x2=-0.04, y2=-0.13, r0=0.9)
    _ns2(ctx, es, 1 / Re if Re != 'infty' else 0, False, False, False)
    ctx.claim(abs(es.nu - (0 if Re == 'infty' else 1 / Re)) < 1e-15, 'viscosity is 1/Re')


def times(ctx, which):
    """setting the time of an exact solution sets the time of all its fields."""
    if which == '3d':
        from objects.CSCG._3d.master import ExactSolutionSelector
        es = ExactSolutionSelector(K.mesh3('crazy', (1, 1, 1)))('icpsNS:sincosRD', nu=0.3)
        names = ('velocity', 'vorticity', 'pressure', 'body_force', 'kinetic_energy_distribution')
    elif which == '2d':
        from objects.CSCG._2d.master import ExactSolutionSelector
        es = ExactSolutionSelector(K.mesh2('crazy_periodic', (1, 1), bounds=((0, 2), (0, 2))))('icpsNS:TGV', nu=0.3)
        names = ('velocity', 'vorticity', 'pressure', 'body_force', 'kinetic_energy_distribution')
    else:
        es = K.tri('square', 1)('Stokes : sin cos 1')
        names = ('velocity', 'vorticity', 'pressure', 'body_force')
    t1, t2 = ctx.real('t1', 0, 3), ctx.real('t2', 0, 3)
    with ctx.symbolic_code():
        for t in (t1, t2):
            es.current_time = t
            for n in names:
                ctx.equal(getattr(es, n).current_time, t, 1e-12, n + ' time')


UC = ('crazy', (1, 1, 1), {})
CU = ('crazy', (1, 1, 1), dict(bounds=((0, 1), (0, 1), (0, 1)), c=0.0))
LP = ('crazy_periodic', (1, 1, 1), {})

HARNESSES = [
    H('3d TGV1', ns3, ID='TGV1', mesh=('crazy_periodic', (1, 1, 1), {}), kw=dict(nu=0.3, L=0.7, V0=1.4),
      momentum=False, pressure=False, num2=True, nu=0.3),
    H('3d sincosRC', ns3, ID='sincosRC', mesh=UC, kw={}, momentum=False, pressure=False, num2=True),
    H('3d sincos_CCBF', ns3, ID='sincos_CCBF', mesh=UC, kw={}, momentum=False, pressure=False, num2=True),
    H('3d sincos_CCBF1', ns3, ID='sincos_CCBF1', mesh=UC, kw={}, momentum=False, pressure=False, num2=True),
    H('3d sincos_CCBF_P', ns3, ID='sincos_CCBF_P', mesh=UC, kw={}, momentum=False, pressure=False, num2=True),
    H('3d sincos_CCBF_C', ns3, ID='sincos_CCBF_C', mesh=UC, kw={}, momentum=False, pressure=False, num2=True),
    H('3d sincosRD', ns3, ID='sincosRD', mesh=UC, kw=dict(nu=0.3), momentum=True, pressure=True, nu=0.3),
    H('3d sincosMD', ns3, ID='sincosMD', mesh=UC, kw=dict(nu=0.3), momentum=True, pressure=True, nu=0.3),
    H('3d CUCD1', ns3, ID='CUCD1', mesh=CU, kw=dict(nu=0.3), momentum=False, pressure=False, num2=True, nu=0.3),
    H('3d CBFx', ns3, ID='CBFx', mesh=UC, kw=dict(nu=0.3, f=1.7), momentum=False, pressure=False, num2=True, nu=0.3),
    H('3d still', ns3, ID='still', mesh=UC, kw={}, momentum=False, pressure=False, num2=True, nu=1),
    H('3d force TGV1', fbody, ID='TGV1', mesh=LP, kw=dict(nu=0.3, L=0.7, V0=1.4), want=(0, 0, 0)),
    H('3d force sincosRC', fbody, ID='sincosRC', mesh=UC, kw={}, want=(0, 0, 0)),
    H('3d force sincos_CCBF', fbody, ID='sincos_CCBF', mesh=UC, kw={}, want=None),
    H('3d force sincos_CCBF1', fbody, ID='sincos_CCBF1', mesh=UC, kw={}, want=None),
    H('3d force sincos_CCBF_P', fbody, ID='sincos_CCBF_P', mesh=UC, kw={}, want=None),
    H('3d force sincos_CCBF_C', fbody, ID='sincos_CCBF_C', mesh=UC, kw={}, want=(1, 0, 0)),
    H('3d force CUCD1', fbody, ID='CUCD1', mesh=CU, kw=dict(nu=0.3), want=None),
    H('3d force CBFx', fbody, ID='CBFx', mesh=UC, kw=dict(nu=0.3, f=1.7), want=(1.7, 0, 0)),
    H('3d force still', fbody, ID='still', mesh=UC, kw={}, want=(0, 0, 0)),
    H('MHD sincos1', mhd, ID='sincos1', kw=dict(Rf=3, Rm=7, c=1.6)),
    H('MHD as1', mhd, ID='as1', kw=dict(Rf=3, Rm=7, c=1.6), lo=0.05, hi=0.45),
    H('MHD as2', mhd, ID='as2', kw=dict(Rf=3, Rm=7, c=1.6)),
    H('MHD as3', mhd, ID='as3', kw=dict(Rf=3, Rm=7, c=1.6), momentum=False),
    H('3d Poisson', poisson3), H('3d Stokes', stokes3),
    H('TISE', tise, m=0.6e-68, E=1.9),
    H('pH eigen1', ph, OM=(1.2, 0.7, 1.9), PHI=(0.1, 0.4, -0.3, 0.6)),
    H('wave as1', wave),
    H('2d TGV', ns2, ID='icpsNS:TGV', mesh=('crazy_periodic', (1, 1), dict(bounds=((0, 2), (0, 2)))),
      kw=dict(nu=0.3), nu=0.3, momentum=True),
    H('2d TGV unforced', tgv2_free, nu=0.3),
    H('2d dipole', ns2, ID='icpsNS:dipole_collision', mesh=('crazy', (1, 1), dict(bounds=((-1, 1), (-1, 1)))),
      kw=dict(nu=0.3), nu=0.3, momentum=False, own_omega=True, lo=-0.15, hi=0.15),
    H('2d shear low', shear, delta=0.4, epsilon=0.3, part='low'),
    H('2d shear up', shear, delta=0.4, epsilon=0.3, part='up'),
    H('2d Laplace', laplace2),
    H('tri Stokes', tri_stokes), H('tri dipole', tri_dipole, Re=40), H('tri dipole inviscid', tri_dipole, Re='infty'),
    H('times 3d', times, which='3d'), H('times 2d', times, which='2d'), H('times tri', times, which='tri'),
]
