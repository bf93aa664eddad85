"""C25: forms are combinations of their degrees of freedom; look-ups of degrees of freedom return what they name."""
import numpy as np
from engine.harness import H
from checks.common import *
from engine import mpisim
from checks.C13 import S_, C
from checks.C24 import setting
from checks import oracle as O

BOUNDS = ('all cochains, scalars and (for anchors) linear fields; standard, trace and edge forms on 2-D, 3-D and triangular meshes of 1-8 elements '
          '(curved, multi-region, periodic), degrees 1..3 mixed per direction, hybrid and not; every degree of freedom; 1-3 simulated processes')
ASSUMPTIONS = ['the reconstruction of a cochain is C03, the numbering itself C08', 'several processes are simulated in one Python process']

X3 = (np.array([-.7, .1, .6]), np.array([-.9, 1.]), np.array([-.4, .5]))


def coch(ctx, f, name):
    els = f.mesh.elements if hasattr(f.mesh.elements, '__iter__') else f.mesh.elements.indices
    f.cochain.local = {i: ctx.reals('%s%d' % (name, i), f.num.basis) for i in els}
    return {i: np.array(v) for i, v in f.cochain.local.items()}


def arith(ctx, make, ops='+-*', rec=True):
    """sums, differences and multiples of forms"""
    A, B = make.two()
    a, b = coch(ctx, A, 'a'), coch(ctx, B, 'b')
    s, t = ctx.real('s', -2, 2), 3
    out = {}
    with ctx.symbolic_code():
        if '+' in ops:
            out['sum'] = A + B, {i: a[i] + b[i] for i in a}
            out['sum with itself'] = A + A, {i: 2 * a[i] for i in a}
        if '-' in ops:
            out['difference'] = A - B, {i: a[i] - b[i] for i in a}
        if '*' in ops:
            out['multiple'] = s * A, {i: s * a[i] for i in a}
            out['integer multiple'] = t * B, {i: t * b[i] for i in a}
        if '+' in ops and '*' in ops:
            out['combination'] = (s * A) + ((t * B) + A), {i: (1 + s) * a[i] + t * b[i] for i in a}
    for nm, (f, c) in out.items():
        ctx.claim(type(f) is type(A) and f.mesh is A.mesh and f.space is A.space, 'the kind of a %s' % nm)
        if hasattr(A, 'orientation'):
            ctx.claim(f.orientation == A.orientation, 'the orientation of a %s' % nm)
        if hasattr(A, 'whether') and hasattr(A.whether, 'hybrid'):
            ctx.claim(f.whether.hybrid == A.whether.hybrid, 'hybrid or not')
        ctx.claim(f is not A and f is not B, 'a new form')
        ctx.claim(sorted(f.cochain.local) == sorted(c), 'the elements of a %s' % nm)
        for i in c:
            ctx.equal(f.cochain.local[i], c[i], 1e-10, 'the cochain of a %s' % nm)
    for i in a:
        ctx.equal(A.cochain.local[i], a[i], 1e-12, 'the operands stay')
        ctx.equal(B.cochain.local[i], b[i], 1e-12, 'the operands stay')
    with ctx.symbolic_code():            # later changes of the result do not reach the operands
        for nm, (f, c) in out.items():
            f.cochain.local = {i: 0 * v for i, v in c.items()}
    for i in a:
        ctx.equal(A.cochain.local[i], a[i], 1e-12, 'the operands stay')


class form:
    """makes forms, each on a mesh of its own; two(): two on the same mesh"""

    def __init__(self, dim, k, ID, layout, p, kw=None, **fk):
        self.a, self.fk = (dim, k, ID, layout, p, kw or {}), fk

    def fc(self):
        dim, k, ID, layout, p, kw = self.a
        fc = setting(dim, ID, layout, p, kw)[1]
        return lambda nm: fc(k, name=nm, **self.fk)

    def __call__(self, nm):
        return self.fc()(nm)

    def two(self):
        """(triangular meshes are to be built outside the symbolic code)"""
        g = self.fc()
        return g('A'), g('B')


class triform(form):
    def __init__(self, k, mesh, p, **kw):
        self.a, self.fk = (k, mesh, p), kw

    def fc(self):
        k, mesh, p = self.a
        fc = tri(mesh, p, **self.fk)
        return lambda nm: fc(k, name=nm)


def dof_positions(ctx, make, n=1, cochains=True):
    """where a dof is: every element and local index with its number; its cochain"""
    f = make('f')
    G = f.numbering.gathering
    num = 1 + max(int(np.max(G[i].full_vector)) for i in G)
    v = ctx.reals('v', num)
    where = {}
    for e in G:
        for j, q in enumerate(G[e].full_vector):
            where.setdefault(int(q), []).append((e, j))
    obj = mpisim.run(n, lambda r: make('f')) if n > 1 else [f]

    def go(r):
        g = obj[r]
        gm = g.numbering.gathering
        g.cochain.local = {e: v[gm[e].full_vector] for e in gm}
        D = g.dofs
        ids = list(D)
        inside = [q in D for q in (-1, 0, num - 1, num, 0.5)]
        pos, gpos, co = {}, {}, {}
        for q in ids:
            d = D[q]
            pos[q] = list(getattr(d, 'positions', getattr(d, '_local_positions_', [])))
            if hasattr(type(d), 'global_positions'):
                gpos[q] = list(d.global_positions)
            if cochains and hasattr(type(d), 'cochain'):
                co[q] = d.cochain
        return ids, inside, pos, gpos, co, list(gm)
    with ctx.symbolic_code():
        out = mpisim.run(n, go) if n > 1 else [go(0)]
    for r, (ids, inside, pos, gpos, co, own) in enumerate(out):
        ctx.claim(ids == list(range(num)), 'all degrees of freedom')
        ctx.claim(inside == [False, True, True, False, False], 'which numbers are degrees of freedom')
        for q in ids:
            ctx.claim(sorted(map(tuple, pos[q])) == sorted(w for w in where[q] if w[0] in own), 'the positions of a dof')
            if q in gpos:
                ctx.claim(sorted(map(tuple, gpos[q])) == sorted(where[q]), 'the positions of a dof in all processes')
            if q in co and co[q] is not None:
                ctx.equal(co[q], v[q], 1e-12, 'the cochain of a dof')
            if cochains and n == 1:
                ctx.claim(q in co, 'a cochain of the dof')


def member(ctx, make):
    """`i in dofs` for any number"""
    f = make('f')
    D = f.dofs
    num = f.num.global_dofs
    i = ctx.int('i', -3, num + 3)
    with ctx.symbolic_code():
        r = bool(i in D)
    ctx.claim((i >= 0) & (i < num) if r else (i < 0) | (i >= num), 'membership of a number')


def basis(ctx, ID, layout, p, kw=None, hybrid=False):
    """a 0-form is the sum of its basis functions"""
    f = form(3, '0-f', ID, layout, p, kw, hybrid=hybrid)('f')
    v = global_cochain(ctx, f, 'v')
    with ctx.symbolic_code():
        xyz, val = f.reconstruct(*X3)
        _, rav = f.reconstruct(*X3, ravel=True)
    tot = {e: 0 for e in f.mesh.elements}
    tor = {e: 0 for e in f.mesh.elements}
    for i in f.dofs:
        d = f.dofs[i]
        with ctx.symbolic_code():
            X, B = d.basis_function.reconstruct(*X3)
            XR, BR = d.basis_function.reconstruct(*X3, ravel=True)
        ctx.claim(len(X) == len(B) == len(d.positions), 'one basis function per position')
        for (e, _), x, b, xr, br in zip(d.positions, X, B, XR, BR):
            for c in range(3):
                ctx.equal(x[c], xyz[e][c], 1e-10, 'where the basis function is evaluated')
                ctx.equal(np.asarray(xr[c]), np.asarray(xyz[e][c]).ravel('F'), 1e-10, 'where the basis function is evaluated')
            tot[e] = tot[e] + v[i] * b[0]
            tor[e] = tor[e] + v[i] * br[0]
    for e in tot:
        ctx.equal(tot[e], val[e][0], 1e-10, 'the sum of the basis functions')
        ctx.equal(tor[e], rav[e][0], 1e-10, 'the sum of the basis functions')


CORNERS = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']
SGN = dict(N=-1., S=1., W=-1., E=1., B=-1., F=1.)


def corner3(ctx, k, ID, layout, p, kw=None, n=1, hybrid=False):
    """the dof in a corner of a mesh element holds the value there (3-form: the volume of the cell there)"""
    mk = form(3, '%d-f' % k, ID, layout, p, kw, hybrid=hybrid)
    f = mk('f')
    v = global_cochain(ctx, f, 'v')
    obj = mpisim.run(n, lambda r: mk('f')) if n > 1 else [f]
    go = lambda r: {(e, c): obj[r].dofs.do.find.dof_at_corner_of_mesh_element(e, c) for e in f.mesh.elements for c in CORNERS}
    with ctx.symbolic_code():
        out = mpisim.run(n, go) if n > 1 else [go(0)]
    nodes = f.space.nodes
    for (e, c) in out[0]:
        got = [o[e, c] for o in out if o[e, c] is not None]
        ctx.claim(len(got) == 1, 'the process of the element knows the dof')
        if k == 0:
            x = [np.array([SGN[s]]) for s in c]
            with ctx.symbolic_code():
                _, val = f.reconstruct(*x, ravel=True, element_range=e)
            ctx.equal(v[got[0]], val[e][0][0], 1e-9, 'the dof in the corner %s' % c)
        else:
            j = [0 if s in 'NWB' else -1 for s in c]
            sh = [len(a) - 1 for a in nodes]
            L = np.arange(np.prod(sh)).reshape(sh, order='F')[tuple(j)]
            ctx.equal(v[got[0]], f.cochain.local[e][L], 1e-12, 'the cell in the corner %s' % c)


def corner_te(ctx, what, ID, layout, p, kw=None, hybrid=True):
    """the three 0-trace (0-edge) dofs in a corner of a mesh element"""
    m, fc = setting(3, ID, layout, p, kw or {})
    t = fc('0-%s' % what, hybrid=hybrid, name='t')
    F = poly(ctx, 'u', 2, 3)
    with ctx.symbolic_code():
        t.CF = fc('scalar', F.at if hasattr(F, 'at') else F)
        t.CF.current_time = .3
        t.discretize()
    D = t.cochain.local
    G = t.numbering.gathering
    glob = {}
    for e in G:
        for j, q in enumerate(G[e].full_vector):
            glob[int(q)] = D[e][j]
    for e in m.elements:
        for c in CORNERS:
            with ctx.symbolic_code():
                got = t.dofs.do.find.dof_at_corner_of_mesh_element(e, c)
                x = m.elements[e].coordinate_transformation.mapping(*[np.array([SGN[s]]) for s in c])
                u = t.CF.func[0](.3, *x) if isinstance(t.CF.func, (list, tuple)) else t.CF.func(.3, *x)
            ctx.claim(len(got) == 3 and (not hybrid or len(set(got)) == 3), 'three dofs in a corner')
            for q in got:
                ctx.equal(glob[int(q)], np.asarray(u).reshape(-1)[0], 1e-8, 'the dof in the corner %s' % c)


def corner_region(ctx, ID, layout, p, kw=None, k='0-f-o', n=1):
    """2-D: the dof in a corner of a region holds the value there"""
    mk = form(2, k, ID, layout, p, kw)
    f = mk('f')
    v = global_cochain(ctx, f, 'v')
    R = f.mesh.domain.regions.names
    cs = ['UL', 'DL', 'UR', 'DR', 'LU', 'LD', 'RU', 'RD']
    obj = mpisim.run(n, lambda r: mk('f')) if n > 1 else [f]
    go = lambda r: {(R_, c): obj[r].dofs.do.find.dof_at_corner_of_region(R_, c).i for R_ in R for c in cs}
    with ctx.symbolic_code():
        out = mpisim.run(n, go) if n > 1 else [go(0)]
    ctx.claim(all(o == out[0] for o in out), 'all processes find the same dof')
    s2 = dict(U=(0, -1.), D=(0, 1.), L=(1, -1.), R=(1, 1.))
    for (r, c), q in out[0].items():
        gn = f.mesh.___PRIVATE_generate_element_global_numbering___(number_what=r)
        x, ind = [None, None], [None, None]
        for s in c:
            d, z = s2[s]
            x[d], ind[d] = np.array([z]), 0 if z < 0 else -1
        e = int(gn[tuple(ind)])
        with ctx.symbolic_code():
            _, val = f.reconstruct(*x, ravel=True, element_range=e)
        ctx.equal(v[q], val[e][0][0], 1e-9, 'the dof in the corner %s of a region' % c)


def trace_dof(ctx, k, ID, layout, p, kw=None, hybrid=True, n=1):
    """a trace dof: on which trace element, with which local number, component and indices"""
    mk = form(3, '%d-t' % k, ID, layout, p, kw, hybrid=hybrid)
    t = mk('t')
    m = t.mesh
    T = m.trace.elements
    TEW = t.numbering.trace_element_wise
    ids = list(t.dofs)
    v = ctx.reals('v', len(ids))
    G = t.numbering.gathering
    for q in ids:
        d = t.dofs[q]
        with ctx.symbolic_code():
            te, ln, comp, ind = d.trace_element_position
        V = TEW[te]
        V = np.asarray(V.full_vector if hasattr(V, 'full_vector') else V)
        ctx.equal(v[int(V[ln])], v[q], 1e-12, 'the number on the trace element')
        s = T[te].CHARACTERISTIC_side if hasattr(T[te], 'CHARACTERISTIC_side') else 'N'
        LN = t.numbering.local[s]
        ctx.claim(int(LN[comp][tuple(ind)]) == ln, 'the indices of a dof on the trace element')
        e, j = d.positions[0]
        ctx.claim(te in T.map[e], 'the element has this side')


def anchors(ctx, ID, layout, p, kw=None, n=1, hybrid=True):
    """2-trace dofs: a linear field has its mean value on the face in the anchor (faces are flat)"""
    m, fc = setting(3, ID, layout, p, kw or {})
    c = ctx.reals('c', 4)
    lin = lambda t, x, y, z: c[0] + c[1] * x + c[2] * y + c[3] * z
    one = lambda t, x, y, z: 1 + 0 * x
    vals = []
    for fn in (lin, one):
        t = fc('2-t', hybrid=hybrid, name='t')
        with ctx.symbolic_code():
            t.CF = fc('scalar', fn)
            t.CF.current_time = 0
            t.discretize()
        vals.append({e: np.array(a) for e, a in t.cochain.local.items()})
    mk = lambda r: setting(3, ID, layout, p, kw or {})[1]('2-t', hybrid=hybrid, name='t')
    obj = mpisim.run(n, mk) if n > 1 else [t]
    go = lambda r: {q: (obj[r].dofs[q].anchor, obj[r].dofs[q].global_positions) for q in obj[r].dofs}
    with ctx.symbolic_code():
        out = mpisim.run(n, go) if n > 1 else [go(0)]
    for o in out:
        ctx.claim(sorted(o) == list(range(t.num.global_dofs)), 'all degrees of freedom')
        for q, (an, pos) in o.items():
            means = {}
            for e, j in pos:
                d = vals[0][e][j] / float(vals[1][e][j])
                means[(e, j)] = d
            ctx.claim(1 <= len(an) <= len(pos), 'the amount of anchors')
            for e, j in pos:
                prod = 1
                for x in an:
                    prod = prod * (means[e, j] - lin(0, *[float(y) for y in x]))
                ctx.equal(prod, 0, 1e-9, 'the anchor of a dof')


def edge_dof(ctx, ID, layout, p, kw=None, n=1, hybrid=False):
    """1-edge dofs: the edge element and the index on it"""
    mk = form(3, '1-e', ID, layout, p, kw, hybrid=hybrid)
    f = mk('e')
    E = f.mesh.edge.elements
    nm = f.num.global_dofs if hasattr(f.num, 'global_dofs') else f.numbering.gathering.global_num_dofs
    v = ctx.reals('v', nm)
    EEW = f.numbering.edge_element_wise
    obj = mpisim.run(n, lambda r: mk('e')) if n > 1 else [f]
    go = lambda r: [tuple(obj[r].dofs.do.find.edge_element_and_local_index_of_dof(q)) for q in range(nm)]
    with ctx.symbolic_code():
        out = mpisim.run(n, go) if n > 1 else [go(0)]
    for o in out:
        for q, (ee, li) in enumerate(o):
            ctx.equal(v[int(np.asarray(EEW[ee])[li])], v[q], 1e-12, 'the edge element of a dof')


HARNESSES = [
    S_('arith-3d', *[C(arith, form(3, k, 'crazy', (2, 1, 1), (2, 1, 1), dict(c=.1), hybrid=h)) for k in ('0-f', '1-f', '2-f', '3-f') for h in (True, False)]),
    S_('arith-3d-te', *[C(arith, form(3, k, 'crazy', (1, 2, 1), (1, 2, 1), dict(c=.1))) for k in ('0-t', '1-t', '2-t', '0-e', '1-e')]),
    S_('arith-2d', *[C(arith, form(2, k, 'crazy', (2, 1), (2, 1), dict(c=.1)), ops='+*') for k in ('0-f-i', '0-f-o', '1-f-i', '1-f-o', '2-f-i', '2-f-o')]),
    S_('arith-tri', *[C(arith, triform(k, 'st8', p), ops='+-') for k, p in (('0-f-i', 2), ('0-f-o', 1), ('1-f-i', 2), ('1-f-o', 2), ('2-f-i', 2), ('2-f-o', 2))]),
    S_('dofs-3d', *[C(dof_positions, form(3, k, 'crazy', (2, 1, 2), (2, 1, 1), dict(c=0.), hybrid=h)) for k in ('0-f', '1-f', '2-f', '3-f') for h in (True, False)]),
    S_('dofs-3d-per', *[C(dof_positions, form(3, k, 'crazy_periodic', (2, 2, 2), (1, 1, 1), dict(c=0.), hybrid=False)) for k in ('0-f', '2-f')]),
    S_('dofs-3d-mpi', *[C(dof_positions, form(3, k, 'bridge_arch_cracked', (1, 1, 1), (1, 1, 1), {}, hybrid=False), n=3) for k in ('0-f', '1-f')], timeout=300),
    S_('dofs-te', *[C(dof_positions, form(3, k, 'crazy', (2, 1, 1), (2, 1, 1), dict(c=0.), hybrid=h), cochains=False) for k in ('0-t', '1-t', '2-t') for h in (True, False)],
       *[C(dof_positions, form(3, k, 'crazy', (2, 1, 1), (2, 1, 1), dict(c=0.)), cochains=False) for k in ('0-e',)]),
    S_('member', *[C(member, form(3, k, 'crazy', (2, 1, 1), (1, 1, 1), dict(c=0.))) for k in ('0-f', '2-t')], C(member, form(2, '1-f-o', 'crazy', (2, 1), (1, 1), dict(c=0.)))),
    S_('basis', C(basis, 'crazy', (2, 1, 1), (2, 1, 1), dict(c=.2)), C(basis, 'crazy', (1, 2, 1), (1, 2, 1), dict(c=0.), hybrid=True)),
    S_('corner-3d', *[C(corner3, k, 'crazy', (2, 1, 1), (2, 1, 3), dict(c=.1), hybrid=h) for k in (0, 3) for h in (True, False)]),
    S_('corner-3d-mpi', C(corner3, 0, 'bridge_arch_cracked', (1, 1, 1), (1, 1, 2), {}, n=3), timeout=300),
    S_('corner-trace', C(corner_te, 't', 'crazy', (2, 1, 1), (2, 1, 2), dict(c=.1)), C(corner_te, 'e', 'crazy', (2, 1, 1), (2, 1, 2), dict(c=.1), hybrid=False)),
    S_('corner-region', C(corner_region, 'chp1', (2, 1), (2, 1)), C(corner_region, 'crazy', (1, 2), (1, 3), dict(c=.1), '0-f-i')),
    S_('corner-region-mpi', C(corner_region, 'chp1', (1, 2), (1, 2), n=3), timeout=300),
    S_('trace-dof', *[C(trace_dof, k, 'crazy', (2, 1, 1), p, dict(c=.1)) for k in (0, 1, 2) for p in ((2, 1, 1), (1, 2, 3))]),
    S_('anchors', C(anchors, 'crazy', (2, 1, 1), (2, 1, 2), dict(c=0.)), C(anchors, 'crazy_periodic', (2, 2, 2), (1, 1, 1), dict(c=0.), hybrid=True)),
    S_('anchors-mpi', C(anchors, 'crazy', (1, 2, 2), (1, 2, 1), dict(c=0.), n=3), timeout=300),
    S_('edge-dof', C(edge_dof, 'crazy', (2, 1, 1), (1, 2, 3), dict(c=.1)), C(edge_dof, 'crazy', (2, 1, 2), (1, 2, 1), dict(c=.1), n=2)),
]
