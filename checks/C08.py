"""C08: global numbering identifies exactly the degrees of freedom that are the same."""
import numpy as np
from engine.harness import H
from checks.common import *
from checks import oracle as O

BOUNDS = ('every field of a family rich enough to tell all degrees of freedom apart (polynomials of total degree <= 2, '
          'trigonometric with the period of the domain on periodic meshes) with arbitrary coefficients in [-1,1]; '
          'meshes of up to 16 elements, single- and multi-region, curved, periodic, with the element distributions '
          'offered; degrees 1..3 mixed per direction; standard, trace, edge and local-trace forms, hybrid and not.')
ASSUMPTIONS = ['two degrees of freedom are the same iff every field of the family has the same value on both',
               'on the cracked bridge (two sides of a crack coincide geometrically) only "same number implies same '
               'value" is decided']

SIDES = {'N': (0, 0), 'S': (0, -1), 'W': (1, 0), 'E': (1, -1), 'B': (2, 0), 'F': (2, -1)}
EDGES = {'U': (0, 0), 'D': (0, -1), 'L': (1, 0), 'R': (1, -1)}
CORNER_EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
TOL = 1e-8


# ------------------------------------------------------------------------------ local numbering, independently
def blocks(kind, p):
    d = len(p)
    out, n = [], 0
    for c in range(1 if kind in ('0', str(d)) else d):
        if kind == '0':
            sh = [q + 1 for q in p]
        elif kind == str(d):
            sh = list(p)
        elif kind in ('1', '1i'):
            sh = [q + (i != c) for i, q in enumerate(p)]
        else:       # fluxes
            sh = [q + (i == c) for i, q in enumerate(p)]
        m = int(np.prod(sh))
        out.append((n + np.arange(m)).reshape(sh, order='F'))
        n += m
    return out


def on_side(kind, p, a, e):
    d = len(p)
    B = blocks(kind, p)
    out = []
    for c, b in enumerate(B):
        if kind == '0' or (kind in ('1', '1i') and c != a) or (kind in ('2', '1o') and c == a):
            out.append(np.take(b, e, axis=a).ravel('F'))
    return np.concatenate(out)


def on_corner_edge(kind, p, name):
    fixed = dict(SIDES[s] for s in name)
    c = [i for i in range(3) if i not in fixed][0]
    b = blocks(kind, p)[0 if kind == '0' else c]
    ix = tuple(fixed.get(i, slice(None)) for i in range(3))
    return b[ix]


# ------------------------------------------------------------------------------------------------ fields
class Trig(object):
    """field with symbolic coefficients, periodic with the box of the domain"""
    def __init__(self, ctx, name, L):
        self.dim = len(L)
        self.L = L
        self.c = {}
        for i in range(self.dim):
            for w in 'sc':
                self.c[(i, w)] = ctx.real('%s_%d%s' % (name, i, w))
        for i in range(self.dim):
            j = (i + 1) % self.dim
            self.c[(i, j)] = ctx.real('%s_%d%d' % (name, i, j))
        self.c0 = ctx.real('%s_0' % name)

    def __call__(self, t, *x):
        f = {}
        for i in range(self.dim):
            k = 2 * np.pi / self.L[i]
            f[(i, 's')], f[(i, 'c')] = np.sin(k * x[i]), np.cos(k * x[i])
        out = self.c0
        for k in self.c:
            if k[1] in ('s', 'c'):
                out = out + self.c[k] * f[k]
            else:
                out = out + self.c[k] * f[(k[0], 's')] * f[(k[1], 's')]
        return out

    func = Poly.func


def fields(ctx, n, dim, period=None, deg=2):
    if period is None:
        return [poly(ctx, 'uvw'[i], deg, dim) for i in range(n)]
    return [Trig(ctx, 'uvw'[i], period) for i in range(n)]


def conforming(ctx, G, V, n, label, exact=True, tol=TOL):
    """G, V: lists of arrays of numbers and values."""
    G = np.concatenate([np.asarray(g) for g in G])
    V = np.concatenate([np.asarray(v, dtype=object) for v in V])
    rep = {}
    for k, g in enumerate(G):
        rep.setdefault(int(g), k)
    ctx.equal(V, V[[rep[int(g)] for g in G]], tol, label + ': degrees of freedom with one number are one')
    ctx.claim(sorted(rep) == list(range(n)), label + ': numbers run from zero without gaps to the reported count')
    if exact:
        ctx.all_distinct(V[[rep[g] for g in sorted(rep)]], label + ': different numbers are different '
                         'degrees of freedom')


def gm(f):
    G = f.numbering.gathering
    els = list(f.mesh.elements.indices)
    return {i: np.array(G[i].full_vector) for i in els}


def find_api(ctx, f, g, label, cap=60):
    """look-ups in the gathering matrix agree with it"""
    GM = f.numbering.gathering
    where = {}
    for i in g:
        for j, d in enumerate(g[i]):
            where.setdefault(int(d), []).append((i, j))
    n = len(where)
    ctx.claim(GM.global_num_dofs == n, label + ': global_num_dofs')
    ctx.claim(GM.local_dofs == set(where), label + ': local_dofs')
    ctx.claim(tuple(GM.local_range) == (0, n), label + ': local_range')
    ctx.claim(tuple(GM.global_shape) == (len(g), len(next(iter(g.values())))), label + ': global_shape')
    ds = sorted(where)[::max(1, n // cap)]
    E, L = GM.do.find.elements_and_local_indices_of_dofs(ds)
    for d in ds:
        ctx.claim(sorted(zip(E[d], L[d])) == sorted(where[d]), label + ': find dofs')
        e, l = GM.do.find.elements_and_local_indices_of_dof(d)
        ctx.claim(sorted(zip(e, l)) == sorted(where[d]), label + ': find dof')


def chain(ctx, fs, gs, label):
    from tools.elementwiseCache.gathering.regular.chain_matrix.main import Chain_Gathering_Matrix
    GMs = [f.numbering.gathering for f in fs]
    off = np.cumsum([0] + [g.global_num_dofs for g in GMs])
    for method in (None, 'sequent'):
        C = Chain_Gathering_Matrix(GMs, chain_method=method)
        ctx.claim(C.global_num_dofs == off[-1], label + ': chained count')
        pair = {}
        back = {}
        ok = True
        for i in gs[0]:
            old = np.concatenate([g[i] + o for g, o in zip(gs, off)])
            new = np.array(C[i])
            ok = ok and len(old) == len(new)
            if method is None:
                ok = ok and (old == new).all()
            for a, b in zip(old, new):
                pair.setdefault(int(a), set()).add(int(b))
                back.setdefault(int(b), set()).add(int(a))
        ctx.claim(ok and all(len(s) == 1 for s in pair.values()) and all(len(s) == 1 for s in back.values()) and
                  sorted(back) == list(range(off[-1])), label + ': chaining (%s) renumbers one to one' % method)
        where = {}
        for i in gs[0]:
            for j, d in enumerate(np.array(C[i])):
                where.setdefault(int(d), []).append((i, j))
        ds = sorted(set(sorted(where)[::max(1, len(where) // 40)] + [max(where)]))
        E, L = C.do.find.elements_and_local_indices_of_dofs(ds)
        for d in ds:
            ctx.claim(sorted(zip(E[d], L[d])) == sorted(where[d]), label + ': find chained dofs')
            if len(set(e for e, _ in where[d])) == len(where[d]):
                e, l = C.do.find.elements_and_local_indices_of_dof(d)
                ctx.claim(sorted(zip(e, l)) == sorted(where[d]), label + ': find chained dof')
                e, l = C.do.find.elements_and_local_indices_of_dof(d - int(off[-1]) if method is None else d)
                ctx.claim(sorted(zip(e, l)) == sorted(where[d]), label + ': find chained dof, counted from the end')


# ------------------------------------------------------------------------------------------- 3D
def s3(ctx, ID, layout, p, kw, forms='0123', period=None, exact=True, EDM=None, hybrid=False, tol=TOL):
    """standard forms"""
    mesh = mesh3(ID, layout, EDM=EDM, **kw)
    space = space3(p)
    fc = fc3(mesh, space)
    fs, gs = [], []
    for k in forms:
        f = fc(k + '-f', hybrid=hybrid, name='f' + k)
        F = fields(ctx, 1 if k in '03' else 3, 3, period)
        f.CF = fc('scalar', F[0].func()) if k in '03' else fc('vector', tuple(i.func() for i in F))
        f.CF.current_time = 0.
        with ctx.symbolic_code():
            f.discretize()
        g = gm(f)
        lab = '%s%s-form' % ('hybrid ' if hybrid else '', k)
        if hybrid:
            a = np.concatenate([g[i] for i in g])
            ctx.claim(sorted(a) == list(range(f.num.global_dofs)), lab + ': shares nothing, no gaps')
        else:
            conforming(ctx, [g[i] for i in g], [f.cochain.local[i] for i in g], f.num.global_dofs, lab, exact, tol)
        find_api(ctx, f, g, lab)
        sides3(ctx, f, k, p, g, lab)
        fs.append(f)
        gs.append(g)
        if hybrid and k != '3':
            h = fc(k + '-f', hybrid=False, name='h' + k)
            H_ = gm(h)
            same = {}
            for i in g:
                for a, b in zip(H_[i], g[i]):
                    same.setdefault(int(a), set()).add(int(b))
            want = sorted(tuple(sorted(s)) for s in same.values() if len(s) > 1)
            got = sorted(tuple(sorted(int(x) for x in s)) for s in f.numbering.sharing_physical_locations)
            ctx.claim(got == want, lab + ': degrees of freedom at one place')
    if len(fs) > 1:
        chain(ctx, fs[:3], gs[:3], 'standard forms')


def sides3(ctx, f, k, p, g, lab):
    N = f.numbering
    mesh = f.mesh
    if k != '3':
        for s, (a, e) in SIDES.items():
            ix = on_side(k, p, a, e)
            ctx.claim(list(N.do.find.local_dofs_on_element_side(s)) == list(ix), lab + ': local dofs on side ' + s)
            for i in g:
                ctx.claim(list(N.do.find.dofs_on_element_side(i, s)) == list(g[i][ix]), lab + ': dofs on side ' + s)
    if k in '01':
        for n in CORNER_EDGES:
            ctx.claim(list(N.do.find.local_dofs_on_element_corner_edge(n)) == list(on_corner_edge(k, p, n)),
                      lab + ': local dofs on corner edge ' + n)
    bd = N.boundary_dofs
    gb = N.global_boundary_dofs
    allb = set()
    for b in mesh.boundaries.names:
        want = set()
        if k != '3':
            for es in mesh.boundaries.range_of_element_sides[b]:
                want |= set(int(x) for x in g[int(es[:-1])][on_side(k, p, *SIDES[es[-1]])])
        ctx.claim(set(int(x) for x in bd[b]) == want and len(bd[b]) == len(want), lab + ': boundary dofs ' + b)
        ctx.claim(set(int(x) for x in gb[b]) == want, lab + ': global boundary dofs ' + b)
        allb |= want
    ctx.claim(set(int(x) for x in N.global_boundary_dofs_ravel) == allb, lab + ': all boundary dofs')


def box3(ctx, ID, layout, p, kw, box):
    """the boundary dofs of 0- and 2-forms lie on the boundary, and all that do are listed"""
    mesh = mesh3(ID, layout, **kw)
    fc = fc3(mesh, space3(p))
    f = fc('0-f', hybrid=False, name='f')
    c = ctx.reals('c', 3)
    names = dict(North=(0, 0), South=(0, 1), West=(1, 0), East=(1, 1), Back=(2, 0), Front=(2, 1))
    for b, (a, e) in names.items():
        # a field which vanishes exactly on that boundary
        f.CF = fc('scalar', lambda t, x, y, z: (np.array([x, y, z][a]) - box[a][e]) * (6. + c[0] * x + c[1] * y + c[2] * z))
        f.CF.current_time = 0.
        with ctx.symbolic_code():
            f.discretize()
        g = gm(f)
        on = set(int(x) for x in f.numbering.boundary_dofs[b])
        I = [f.cochain.local[i][j] for i in g for j, d in enumerate(g[i]) if int(d) in on]
        U = [f.cochain.local[i][j] for i in g for j, d in enumerate(g[i]) if int(d) not in on]
        ctx.equal(np.array(I, dtype=object), np.zeros(len(I)), TOL, 'dofs listed on %s lie there' % b)
        for u in U:
            ctx.claim((1 if e == 0 else -1) * u > 1e-6, 'dofs not listed on %s do not lie there' % b)


def t3(ctx, ID, layout, p, kw, ks='012', period=None, exact=True, EDM=None, hybrid=True, tol=TOL):
    """trace forms: side values from the definition"""
    mesh = mesh3(ID, layout, EDM=EDM, **kw)
    space = space3(p)
    fc = fc3(mesh, space)
    nodes = [np.array(n) for n in space.nodes]
    for k in ks:
        F = fields(ctx, 1 if k == '0' else 3, 3, period)
        f = fc(k + '-t', hybrid=hybrid, name='t' + k)
        G = gm(f)
        with ctx.symbolic_code():
            V = {}
            for i in G:
                e = mesh.elements[i]

                def fun(*ax):
                    X = e.coordinate_transformation.mapping(*O.grid(*ax))
                    return [q(0., *X) for q in F]
                V[i] = O.dofs(k, nodes, e, fun)
        lab = '%s %s-trace' % ('hybrid' if hybrid else 'conforming', k)
        side, Gs, Vs = {}, [], []
        off = 0
        for n, s in enumerate('NSWEBF'):
            ix = on_side(k, p, *SIDES[s])
            if hybrid:
                side[s] = np.arange(off, off + len(ix))
                off += len(ix)
            else:
                side[s] = np.array(f.numbering.local_gathering[s])
            ctx.claim(len(ix) == len(side[s]) == f.num.basis_onside[s], lab + ': size of a side')
            ctx.claim(list(f.numbering.do.find.local_dofs_on_element_side(s)) == list(side[s]), lab + ': side dofs')
        # geometry of the sides: which sides of which elements are one trace element
        T = mesh.trace.elements.map
        TE = {}
        for i in G:
            for n, s in enumerate('NSWEBF'):
                g = G[i][side[s]]
                TE.setdefault(T[i][n], []).append((i, s, g, V[i][on_side(k, p, *SIDES[s])]))
                Gs.append(g)
                Vs.append(V[i][on_side(k, p, *SIDES[s])])
        covered = np.concatenate([np.unique(np.concatenate([side[s] for s in side]))])
        ctx.claim(list(covered) == list(range(f.num.basis)), lab + ': the sides cover the local dofs')
        for te in TE:
            for i, s, g, v in TE[te]:
                ctx.claim(list(f.numbering.trace_element_wise[te].full_vector) == list(g),
                          lab + ': numbering by trace element')
        if hybrid:
            tr = {}
            for te in TE:
                for i, s, g, v in TE[te]:
                    ctx.equal(v, TE[te][0][3], tol, lab + ': the two sides of a trace element')
                    for d in g:
                        tr.setdefault(int(d), set()).add(te)
                if exact:
                    ctx.all_distinct(TE[te][0][3], lab + ': dofs of one trace element are different')
                ctx.claim(len(set(int(d) for d in TE[te][0][2])) == len(TE[te][0][2]), lab + ': numbered one to one')
            ctx.claim(all(len(x) == 1 for x in tr.values()), lab + ': nothing is shared between trace elements')
            ctx.claim(sorted(tr) == list(range(f.num.global_dofs)), lab + ': numbers run from zero without gaps')
            # two sides at the same place are one trace element
            if exact:
                cen = {}
                with ctx.symbolic_code():
                    q = fields(ctx, 1, 3, period)[0]
                    for te in TE:
                        i, s = TE[te][0][:2]
                        a, e = SIDES[s]
                        x = [np.array([.1]), np.array([.2]), np.array([.3])]
                        x[a] = np.array([1. if e else -1.])
                        cen[te] = q(0., *mesh.elements[i].coordinate_transformation.mapping(*x))[0]
                ctx.all_distinct([cen[te] for te in sorted(cen)], lab + ': different trace elements are apart')
        else:
            conforming(ctx, Gs, Vs, f.num.global_dofs, lab, exact, tol)
        find_api(ctx, f, G, lab)
        bd = f.numbering.boundary_dofs
        gb = f.numbering.global_boundary_dofs
        allb = set()
        for b in mesh.boundaries.names:
            want = set()
            for es in mesh.boundaries.range_of_element_sides[b]:
                want |= set(int(x) for x in G[int(es[:-1])][side[es[-1]]])
            ctx.claim(set(int(x) for x in bd[b]) == want == set(int(x) for x in gb[b]), lab + ': boundary dofs ' + b)
            allb |= want
        ctx.claim(set(int(x) for x in f.numbering.global_boundary_dofs_ravel) == allb, lab + ': all boundary dofs')


def e3(ctx, ID, layout, p, kw, ks='01', period=None, exact=True, EDM=None, tol=TOL):
    """edge forms"""
    mesh = mesh3(ID, layout, EDM=EDM, **kw)
    space = space3(p)
    fc = fc3(mesh, space)
    nodes = [np.array(n) for n in space.nodes]
    for k in ks:
        F = fields(ctx, 1 if k == '0' else 3, 3, period)
        f = fc(k + '-e', name='e' + k)
        G = gm(f)
        M = mesh.edge.elements.map
        lab = '%s-edge' % k
        EE = {}
        with ctx.symbolic_code():
            for i in G:
                e = mesh.elements[i]

                def fun(*ax):
                    X = e.coordinate_transformation.mapping(*O.grid(*ax))
                    return [q(0., *X) for q in F]
                v = O.dofs(k, nodes, e, fun)
                off = 0
                for n, c in enumerate(CORNER_EDGES):
                    ix = on_corner_edge(k, p, c)
                    EE.setdefault(M[i][n], []).append((G[i][off:off + len(ix)], v[ix]))
                    off += len(ix)
                ctx.claim(off == f.num.basis, lab + ': size')
        tr = {}
        reps = []
        for ee in sorted(EE):
            for g, v in EE[ee]:
                ctx.claim(list(g) == list(EE[ee][0][0]) and
                          list(f.numbering.edge_element_wise[ee].full_vector) == list(g), lab + ': one numbering')
                ctx.equal(v, EE[ee][0][1], tol, lab + ': an edge seen from its elements')
                for d in g:
                    tr.setdefault(int(d), set()).add(ee)
            if exact:
                ctx.all_distinct(EE[ee][0][1], lab + ': dofs of an edge')
            reps.append(EE[ee][0][1][len(EE[ee][0][1]) // 2] if k == '1' else EE[ee][0][1][0] * .6 + EE[ee][0][1][-1] * .4)
        if exact:
            ctx.all_distinct(reps, lab + ': edges are different')
        ctx.claim(all(len(x) == 1 for x in tr.values()), lab + ': nothing is shared between edges')
        ctx.claim(sorted(tr) == list(range(f.numbering.gathering.global_num_dofs)),
                  lab + ': numbers run from zero without gaps')
        ctx.claim(f.numbering.num_local_dofs == len(tr), lab + ': number of dofs in the core')


def l3(ctx, ID, layout, p, kw, ks='012', hybrid=True, EDM=None, tol=TOL):
    """local-trace forms: elements share nothing; within an element the sides share edges only if not hybrid"""
    mesh = mesh3(ID, layout, EDM=EDM, **kw)
    space = space3(p)
    fc = fc3(mesh, space)
    nodes = [np.array(n) for n in space.nodes]
    for k in ks:
        F = fields(ctx, 1 if k == '0' else 3, 3)
        f = fc(k + '-lt', hybrid=hybrid, name='l' + k)
        G = gm(f)
        lab = '%s %s-local-trace' % ('hybrid' if hybrid else 'conforming', k)
        a = np.concatenate([G[i] for i in G])
        ctx.claim(sorted(a) == list(range(f.num.global_dofs)), lab + ': elements share nothing, no gaps')
        i = list(G)[-1]
        e = mesh.elements[i]
        with ctx.symbolic_code():
            def fun(*ax):
                X = e.coordinate_transformation.mapping(*O.grid(*ax))
                return [q(0., *X) for q in F]
            v = O.dofs(k, nodes, e, fun)
        Ls, Vs = [], []
        off = 0
        for s in 'NSWEBF':
            ix = on_side(k, p, *SIDES[s])
            if s in 'SEF':      # both orders of the two look-ups
                D = f.numbering.do.find.dofs_on_element_side(i, s)
            L = f.numbering.do.find.local_dofs_on_element_side(s)
            if s in 'SEF':
                ctx.claim(list(D) == list(G[i][np.array(L)]), lab + ': dofs on side')
            ctx.claim(len(L) == len(ix) == f.num.basis_onside[s], lab + ': size of a side')
            if hybrid:
                ctx.claim(list(L) == list(range(off, off + len(ix))), lab + ': side dofs')
                off += len(ix)
            for j in G:
                ctx.claim(list(f.numbering.do.find.dofs_on_element_side(j, s)) == list(G[j][list(L)]),
                          lab + ': dofs on side')
            Ls.append(np.array(L))
            Vs.append(v[ix])
        if not hybrid:
            conforming(ctx, Ls, Vs, f.num.basis, lab + ' in an element')


# ------------------------------------------------------------------------------------------- 2D
def s2(ctx, ID, layout, p, kw, period=None, exact=True, EDM=None, hybrid=False, tol=TOL):
    mesh = mesh2(ID, layout, EDM=EDM, **kw)
    space = space2(p)
    fc = fc2(mesh, space)
    fs, gs = [], []
    for ID_ in ('0-f-i', '0-f-o', '1-f-i', '1-f-o', '2-f-i', '2-f-o'):
        k = ID_[0]
        kind = k if k != '1' else '1' + ID_[-1]
        f = fc(ID_, name=ID_) if k == '2' else fc(ID_, hybrid=hybrid, name=ID_)
        F = fields(ctx, 2 if k == '1' else 1, 2, period)
        f.CF = fc('vector', tuple(i.func() for i in F)) if k == '1' else fc('scalar', F[0].func())
        f.CF.current_time = 0.
        with ctx.symbolic_code():
            f.discretize()
        g = gm(f)
        if hybrid and k != '2':
            a = np.concatenate([g[i] for i in g])
            ctx.claim(sorted(a) == list(range(f.num.global_dofs)), ID_ + ': shares nothing, no gaps')
        else:
            conforming(ctx, [g[i] for i in g], [f.cochain.local[i] for i in g], f.num.global_dofs, ID_, exact, tol)
        find_api(ctx, f, g, ID_)
        if k != '2':
            for s, (a, e) in EDGES.items():
                ctx.claim(list(f.numbering.do.find.local_dofs_on_element_edge(s)) == list(on_side(kind, p, a, e)),
                          ID_ + ': local dofs on edge ' + s)
        fs.append(f)
        gs.append(g)
    chain(ctx, [fs[3], fs[0], fs[5]], [gs[3], gs[0], gs[5]], '2D forms')


def t2(ctx, ID, layout, p, kw, period=None, exact=True, EDM=None, tol=TOL):
    mesh = mesh2(ID, layout, EDM=EDM, **kw)
    space = space2(p)
    fc = fc2(mesh, space)
    nodes = [np.array(n) for n in space.nodes]
    f = fc('1-t-o', name='t')
    G = gm(f)
    F = fields(ctx, 2, 2, period)
    T = mesh.trace.elements.map
    tr, TE = {}, {}
    with ctx.symbolic_code():
        for i in G:
            e = mesh.elements[i]

            def fun(*ax):
                X = e.coordinate_transformation.mapping(*O.grid(*ax))
                return [q(0., *X) for q in F]
            v = O.dofs('1o', nodes, e, fun)
            off = 0
            for n, s in enumerate('UDLR'):
                ix = on_side('1o', p, *EDGES[s])
                ctx.claim(list(f.numbering.do.find.local_dofs_on_element_edge(s)) == list(range(off, off + len(ix))),
                          'edge dofs')
                TE.setdefault(T[i][n], []).append((G[i][off:off + len(ix)], v[ix]))
                off += len(ix)
            ctx.claim(off == f.num.basis, 'size')
    for te in TE:
        for g, v in TE[te]:
            ctx.equal(v, TE[te][0][1], tol, 'the two sides of a trace element')
            ctx.claim(list(g) == list(TE[te][0][0]) == list(f.numbering.trace_element_wise[te].full_vector), 'numbering')
            for d in g:
                tr.setdefault(int(d), set()).add(te)
    if exact:
        ctx.all_distinct([x for te in sorted(TE) for x in TE[te][0][1]], 'fluxes through different pieces')
    ctx.claim(all(len(x) == 1 for x in tr.values()), 'nothing is shared between trace elements')
    ctx.claim(sorted(tr) == list(range(f.num.global_dofs)), 'numbers run from zero without gaps')
    ctx.claim(f.numbering.num_local_dofs == f.num.global_dofs, 'number of dofs in the core')
    find_api(ctx, f, G, 'trace')


# ------------------------------------------------------------------------------------------- triangles
def tr(ctx, ID, p, kw, tol=TOL):
    fc = tri(ID, p, **kw)
    mesh = fc.mesh
    fs, gs = [], []
    for ID_ in ('0-f-i', '0-f-o', '1-f-i', '1-f-o', '2-f-i', '2-f-o'):
        k = ID_[0]
        f = fc(ID_, name=ID_)
        F = fields(ctx, 2 if k == '1' else 1, 2)
        f.CF = fc('vector', tuple(i.func() for i in F)) if k == '1' else fc('scalar', F[0].func())
        f.CF.current_time = 0.
        with ctx.symbolic_code():
            f.discretize()
        g = gm(f)
        conforming(ctx, [g[i] for i in g], [f.cochain.local[i] for i in g], f.num.GLOBAL_dofs
                   if hasattr(f.num, 'GLOBAL_dofs') else f.num.global_dofs, ID_, True, tol)
        find_api(ctx, f, g, ID_)
        if k != '2':
            # edges: 0 from vertex 0 to 1, 1 from vertex 0 to 2, 2 between vertices 1 and 2
            for n, s in enumerate('DUR'):
                ix = f.numbering.do.find.local_dofs_on_element_edge(s)
                ctx.claim(list(ix) == list(f.numbering.do.find.local_dofs_on_element_edge(n)), ID_ + ': edge names')
                for i in g:
                    ctx.claim(list(f.numbering.do.find.dofs_on_element_edge(i, s)) == list(g[i][list(ix)]),
                              ID_ + ': dofs on edge')
                    o = mesh.elements.map[i][n]
                    if not o.isalnum():
                        j, sg, m = int(o[:-2]), o[-2], int(o[-1])
                        jx = list(f.numbering.do.find.local_dofs_on_element_edge(m))
                        a, b = g[i][list(ix)], g[j][jx]
                        ctx.claim(list(a) == list(b if sg == '+' else b[::-1]), ID_ + ': dofs of a shared edge')
        fs.append(f)
        gs.append(g)
    chain(ctx, [fs[3], fs[0], fs[5]], [gs[3], gs[0], gs[5]], 'triangle forms')


# ------------------------------------------------------------------------------------------- list
Bx = dict(bounds=([0, 1], [-1, 1.5], [.5, 2.5]))
Cx = dict(c=0.1, **Bx)
PB = dict(bounds=([0, 2], [0, 3], [0, 1.5]))
PL = (2., 3., 1.5)
B2 = dict(bounds=([0, 1], [-1, 1.5]))
P2 = dict(bounds=([0, 2], [0, 3]))
HARNESSES = [
    H('3D standard', s3, ID='crazy', layout=(2, 2, 1), p=(2, 1, 3), kw=Cx),
    H('3D standard 123', s3, ID='crazy', layout=(1, 2, 3), p=(1, 2, 1), kw=Bx, timeout=300),
    H('3D standard hybrid', s3, ID='crazy', layout=(2, 1, 2), p=(1, 2, 2), kw=Cx, hybrid=True),
    H('3D standard periodic', s3, ID='crazy_periodic', layout=(2, 3, 2), p=(2, 1, 1), kw=dict(c=0.05, **PB), period=PL,
      timeout=300),
    H('3D standard bridge', s3, ID='bridge_arch_cracked', layout=(1, 2, 1), p=(1, 2, 1), kw={}, exact=False, timeout=300),
    H('3D standard psc', s3, ID='psc', layout=(3, 2, 2), p=(1, 2, 1), kw=dict(L=2, w=1.2, h=.8), period=(2., 3., 2.7), timeout=300),
    H('3D standard ct', s3, ID='ct', layout=(1, 1, 1), p=(2, 2, 1), kw={}, forms='012', timeout=300),
    H('3D standard chaotic', s3, ID='crazy', layout=(2, 2, 2), p=(1, 1, 2), kw=Cx, EDM='chaotic', timeout=300),
    H('3D boundary dofs of a box', box3, ID='crazy', layout=(2, 1, 3), p=(1, 2, 1), kw=Cx, box=Bx['bounds']),
    H('3D trace', t3, ID='crazy', layout=(2, 2, 1), p=(2, 1, 3), kw=Cx),
    H('3D trace periodic', t3, ID='crazy_periodic', layout=(2, 3, 2), p=(1, 2, 1), kw=dict(c=0.05, **PB), period=PL,
      timeout=300),
    H('3D trace bridge', t3, ID='bridge_arch_cracked', layout=(1, 2, 1), p=(1, 2, 1), kw={}, exact=False, timeout=300),
    H('3D trace psc', t3, ID='psc', layout=(2, 2, 2), p=(2, 1, 1), kw=dict(L=2, w=1.2, h=.8), period=(2., 3., 2.7), timeout=300),
    H('3D trace conforming', t3, ID='crazy', layout=(2, 2, 1), p=(2, 1, 3), kw=Cx, hybrid=False),
    H('3D trace conforming 312', t3, ID='crazy', layout=(3, 1, 2), p=(1, 3, 2), kw=Cx, hybrid=False, timeout=300),
    H('3D trace conforming periodic', t3, ID='crazy_periodic', layout=(2, 3, 2), p=(1, 2, 1), kw=dict(c=0.05, **PB),
      period=PL, hybrid=False, timeout=300),
    H('3D trace conforming bridge', t3, ID='bridge_arch_cracked', layout=(1, 2, 1), p=(1, 2, 1), kw={}, exact=False,
      hybrid=False, timeout=300),
    H('3D trace conforming chaotic', t3, ID='crazy', layout=(2, 2, 2), p=(2, 1, 1), kw=Cx, EDM='chaotic', hybrid=False,
      timeout=300),
    H('3D edge', e3, ID='crazy', layout=(2, 2, 1), p=(2, 1, 3), kw=Cx),
    H('3D edge 123', e3, ID='crazy', layout=(1, 2, 3), p=(2, 3, 1), kw=Bx),
    H('3D edge periodic', e3, ID='crazy_periodic', layout=(2, 3, 2), p=(1, 2, 1), kw=dict(c=0.05, **PB), period=PL),
    H('3D edge bridge', e3, ID='bridge_arch_cracked', layout=(1, 2, 1), p=(1, 2, 1), kw={}, exact=False),
    H('3D edge psc', e3, ID='psc', layout=(2, 2, 2), p=(2, 1, 1), kw=dict(L=2, w=1.2, h=.8), period=(2., 3., 2.7)),
    H('3D local trace', l3, ID='crazy', layout=(2, 1, 2), p=(2, 1, 3), kw=Cx),
    H('3D local trace conforming', l3, ID='crazy', layout=(2, 1, 2), p=(2, 1, 3), kw=Cx, hybrid=False),
    H('3D local trace conforming p3', l3, ID='crazy', layout=(1, 2, 2), p=(2, 3, 3), kw=Cx, hybrid=False),
    H('2D standard', s2, ID='crazy', layout=(3, 2), p=(2, 3), kw=dict(c=0.1, **B2)),
    H('2D standard hybrid', s2, ID='crazy', layout=(2, 3), p=(3, 1), kw=dict(c=0.1, **B2), hybrid=True),
    H('2D standard periodic', s2, ID='crazy_periodic', layout=(2, 3), p=(1, 2), kw=dict(c=0.05, **P2), period=PL[:2]),
    H('2D standard chp1', s2, ID='chp1', layout=(2, 1), p=(2, 1), kw={}),
    H('2D standard chp2', s2, ID='chp2', layout=(1, 1), p=(2, 1), kw={}),
    H('2D standard bcr', s2, ID='bcr', layout=(2, 1), p=(1, 2), kw={}),
    H('2D standard cic', s2, ID='cic', layout=(1, 2), p=(2, 1), kw={}, timeout=300),
    H('2D standard chaotic', s2, ID='crazy', layout=(3, 3), p=(2, 1), kw=dict(c=0.1, **B2), EDM='chaotic'),
    H('2D trace', t2, ID='crazy', layout=(3, 2), p=(2, 3), kw=dict(c=0.1, **B2)),
    H('2D trace periodic', t2, ID='crazy_periodic', layout=(2, 3), p=(1, 2), kw=dict(c=0.05, **P2), period=PL[:2]),
    H('2D trace chp1', t2, ID='chp1', layout=(2, 1), p=(2, 1), kw={}),
    H('2D trace cic', t2, ID='cic', layout=(1, 2), p=(2, 1), kw={}),
    H('triangles square', tr, ID='square', p=2, kw=dict(K=2)),
    H('triangles rand0 p1', tr, ID='rand0', p=1, kw={}),
    H('triangles rand0 p3', tr, ID='rand0', p=3, kw={}, timeout=300),
    H('triangles mesh 0', tr, ID='test0', p=2, kw={}),
    H('3D standard LDC', s3, 'thorough', ID='LDC', layout=(2, 2, 2), p=(2, 2, 2), kw=dict(L=1, w=1.5, h=2), timeout=800),
    H('3D standard big', s3, 'thorough', ID='crazy', layout=(3, 3, 3), p=(2, 2, 2), kw=Cx, timeout=800),
    H('3D standard pwc', s3, 'thorough', ID='pwc', layout=(2, 3, 2), p=(2, 1, 2), kw=dict(L=2, w=3, h=1), period=(2., 3., 2.2), timeout=800),
    H('3D trace big', t3, 'thorough', ID='crazy', layout=(3, 2, 3), p=(2, 3, 2), kw=Cx, timeout=800),
    H('3D trace conforming big', t3, 'thorough', ID='crazy', layout=(3, 2, 3), p=(2, 3, 2), kw=Cx, hybrid=False, timeout=800),
    H('3D edge ct', e3, 'thorough', ID='ct', layout=(2, 1, 1), p=(2, 2, 1), kw={}, timeout=800),
    H('2D standard chp2 p3', s2, 'thorough', ID='chp2', layout=(2, 1), p=(2, 3), kw={}, timeout=800),
    H('triangles test2', tr, 'thorough', ID='test2', p=3, kw={}, timeout=800),
]
