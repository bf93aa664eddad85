"""C13: imposed conditions: after imposing, the equations of the imposed dofs say "dof = value" and all others are unchanged."""
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.common import poly, Poly
from checks.C12 import setting, els_of, gvec, offsets, chained, matrix, vector, conform

BOUNDS = ('2-D, 3-D and triangular meshes of 2-9 elements (several regions, re-entrant corners), one to three forms, all entries of all '
          'local blocks and vectors and the coefficients of the boundary fields (polynomials of degree 1) symbolic; 1-3 simulated processes; '
          'histories of changed boundaries, fields and times')
ASSUMPTIONS = ['the value imposed on a dof is the reduction of the boundary field (C02); which dofs lie on a side is C08',
               'several processes are simulated in one Python process (engine/mpisim.py)']

SIDES = {'N': 0, 'S': 1, 'W': 2, 'E': 3, 'B': 4, 'F': 5, 'U': 0, 'D': 1, 'L': 2, 'R': 3}


# ------------------------------------------------------------------------------------- setting up a system
def assembly(ctx, m, R, method='silly', prefix='', fmt='csr'):
    """A (bmat) and b (concatenate) with symbolic entries, what they assemble to, and the numbers of the chain"""
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    els = els_of(m)
    D = {(i, j, e): np.array(ctx.reals('%sa%d%d_%d_' % (prefix, i, j, e), (p.num.basis, q.num.basis)))
         for i, p in enumerate(R) for j, q in enumerate(R) for e in els}
    B = {(i, e): ctx.reals('%sb%d_%d_' % (prefix, i, e), (p.num.basis,)) for i, p in enumerate(R) for e in els}
    n = range(len(R))

    def mat(i, j):
        return matrix(m, {e: D[i, j, e] for e in els}, fmt, 'all_diff')
    A = bmat([[mat(i, j) for j in n] for i in n])
    A.assembler.chain_method = method
    A.gathering_matrices = (R, R)
    b = concatenate([vector(m, {e: B[i, e] for e in els}) for i in n])
    b.assembler.chain_method = method
    b.gathering_matrix = R
    return A, b, D, B


def wanted(R, els, num, D, B):
    N = offsets(R)[-1]
    M, V = np.zeros((N, N), dtype=object), np.zeros(N, dtype=object)
    for e in els:
        for i, p in enumerate(R):
            for r, d in enumerate(gvec(p, e)):
                V[num[i, d]] = V[num[i, d]] + B[i, e][r]
                for j, q in enumerate(R):
                    for c, k in enumerate(gvec(q, e)):
                        M[num[i, d], num[j, k]] = M[num[i, d], num[j, k]] + D[i, j, e][r, c]
    return M, V


def linear_system(A, b):
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    return LinearSystem(A, b)


def field(ctx, f, kind, name):
    """(a continuous field with symbolic coefficients, made by the form's own master)"""
    dim = f.mesh.ndim
    if kind == 's':
        return poly(ctx, name, 1, dim).func()
    return [poly(ctx, '%s%d' % (name, k), 1, dim).func() for k in range(dim)]


def caller(f):
    m = f.mesh
    if 'miUsGrid' in f.__class__.__name__ or 'Tri' in f.__class__.__name__:
        from objects.miUsGrid.triangular.master import Call
        return None
    if m.ndim == 3:
        from checks.common import fc3
        return fc3(m, f.space)
    from checks.common import fc2
    return fc2(m, f.space)


def side_dofs(f, side):
    """local dofs of a side of an element, from the documented local numbering (trace forms: side after side)"""
    tags = f.standard_properties.tags
    nf = f.numbering.do.find
    if f.mesh.ndim == 3:
        return [int(i) for i in nf.local_dofs_on_element_side(side)]
    return [int(i) for i in nf.local_dofs_on_element_edge(side)]


def parts(f, boundaries):
    """[(element, side)] of the boundaries"""
    m = f.mesh
    out = []
    for b in boundaries:
        if m.ndim == 3:
            L = m.boundaries.range_of_element_sides[b]
        elif hasattr(m.boundaries, 'range_of_element_edges'):
            L = m.boundaries.range_of_element_edges[b]
        else:
            L = m.boundaries.range_of_element_edge[b]
        for q in L:
            out.append((int(q[:-1]), q[-1]) if isinstance(q, str) else (q[0], q[1]))
    return out


def on_boundary(f, boundaries, values=None):
    """{global dof: value}"""
    out = {}
    for e, s in parts(f, boundaries):
        g = gvec(f, e)
        for d in side_dofs(f, s):
            out[g[d]] = None if values is None else values[e][d]
    return out


def reduce_(f, cf):
    """reduction of the field: {element: local coefficients}; the form is left without CF"""
    f.CF = cf
    f.CF.current_time = 0
    f.discretize()
    out = {e: np.array(f.cochain.local[e], dtype=object) for e in els_of(f.mesh)}
    return out


def check(ctx, A, b, M, V, rows, label, columns=None):
    """rows: {row: value}; columns: {row: column}"""
    G = np.asarray(A.assembled.M.toarray())
    W = np.asarray(b.assembled.V.toarray()).ravel()
    for r, v in rows.items():
        c = (columns or {}).get(r, r)
        k = G[r, c]
        ctx.distinct(k, 0, label + ': the imposed equation has its unknown')
        ctx.equal(np.array([G[r, q] for q in range(G.shape[1]) if q != c], dtype=object), np.zeros(G.shape[1] - 1), 1e-12,
                  label + ': the imposed equation has no other unknown')
        if v is not None:
            ctx.equal(W[r], k * v, 1e-7, label + ': imposed value')
    rest = [r for r in range(G.shape[0]) if r not in rows]
    ctx.equal(G[rest], M[rest], 1e-9, label + ': the other equations')
    ctx.equal(W[rest], V[rest], 1e-9, label + ': the other right hand sides')


# ------------------------------------------------------------------------------------- strong conditions
def strong(ctx, dim, ids, i, boundaries, kind, method='silly', **kw):
    m, R = setting(dim, ids, **kw)
    fc = caller(R[0])
    els = els_of(m)
    f = R[i]
    if 'a' in boundaries[0] and boundaries == ('all',):
        boundaries = tuple(m.boundaries.names)
    for g in R:
        g.numbering.gathering
    with ctx.symbolic_code():
        A, b, D, B = assembly(ctx, m, R, method)
        num = chained(ctx, R, A.gathering_matrices[0], method, 'chain')
        M, V = wanted(R, els, num, D, B)
        S = linear_system(A, b)
        cf = continuous(fc, f, kind, field(ctx, f, kind, 'f'))
        val = reduce_(f, cf)
        f.BC.CF = cf
        f.BC.boundaries = list(boundaries[:1])
        S.customize.apply_strong_BC(i, i, f)
        rows = {num[i, d]: v for d, v in on_boundary(f, boundaries[:1], val).items()}
        check(ctx, A, b, M, V, rows, 'one boundary')
        if len(boundaries) > 1:                       # the others, imposed afterwards
            f.BC.boundaries = list(boundaries[1:])
            S.customize.apply_strong_BC(i, i, f.BC.interpret)
            rows = {num[i, d]: v for d, v in on_boundary(f, boundaries, val).items()}
            check(ctx, A, b, M, V, rows, 'more boundaries')
        S.customize.clear()
        check(ctx, A, b, M, V, {}, 'conditions cleared')
        f.BC.boundaries = list(boundaries)
        S.customize.apply_strong_BC(i, i, f)
        check(ctx, A, b, M, V, rows, 'all boundaries at once')


def continuous(fc, f, kind, func, name=None):
    if fc is None:
        from objects.miUsGrid.triangular.fields.scalar.main import miUsGrid_Triangular_Scalar
        from objects.miUsGrid.triangular.fields.vector.main import miUsGrid_Triangular_Vector
        return (miUsGrid_Triangular_Scalar if kind == 's' else miUsGrid_Triangular_Vector)(f.mesh, func)
    return fc('scalar' if kind == 's' else 'vector', func)


# ------------------------------------------------------------------------------------- dofs and values of the conditions
def boundary_fields(ctx, fc, f, kind, boundaries, name):
    """one function per boundary"""
    funcs = {b: field(ctx, f, kind, name + b) for b in boundaries}
    return continuous(fc, f, kind, {b: [g] if kind == 's' else g for b, g in funcs.items()} if False else funcs), funcs


def interpreted(ctx, f, boundaries, values, label):
    """f.BC.interpret.local against {(element, side): values of its dofs} (values None: dofs only)"""
    want = {}
    for e, s in parts(f, boundaries):
        want.setdefault(e, []).append((s, side_dofs(f, s)))
    L = f.BC.interpret.local
    ctx.claim(sorted(L.dofs) == sorted(want), label + ': elements of the conditions')
    for e, w in want.items():
        dofs = [int(d) for d in L.dofs[e]]
        ctx.claim(sorted(dofs) == sorted(d for _, D in w for d in D), label + ': dofs of the conditions')
        if values is not None:
            ok = {}
            for s, D in w:
                for d, v in zip(D, values(e, s, D)):
                    ok.setdefault(d, []).append(v)
            seen = {}
            c = L.cochains[e]
            ctx.claim(len(c) == len(dofs), label + ': one value per dof')
            for d, v in zip(dofs, c):
                seen.setdefault(d, []).append(v)
            for d, vs in seen.items():
                ctx.equal(np.array(vs, dtype=object), np.array(ok[d], dtype=object), 1e-8, label + ': values of the conditions')


def history(ctx, dim, i, kind, names, **kw):
    """the conditions follow the boundaries, the field and the time, whatever was set and asked before"""
    m, (f, g) = setting(dim, (i, i), **kw)
    fc = caller(f)
    with ctx.symbolic_code():
        va, vb = (reduce_(f, continuous(fc, f, kind, field(ctx, f, kind, n))) for n in 'ab')
        ca, cb = (continuous(fc, f, kind, field(ctx, f, kind, n)) for n in 'ab')
        ca.current_time = cb.current_time = 0

        def vals(v):
            return None if v is None else (lambda e, s, D: [v[e][d] for d in D])
        n = 0
        for form, B, v, cf in [(f, (0,), None, None), (f, (1,), None, None), (f, (0, 1), va, ca), (g, (1,), vb, cb), (f, (1,), vb, cb),
                               (g, (0,), va, ca), (f, (1, 0), va, ca), (g, (1, 0), vb, cb), (f, (0,), vb, cb)]:
            n += 1
            bn = [names[k] for k in B]
            form.BC.CF = cf
            form.BC.boundaries = bn
            if n % 3 == 2:                               # not every setting is looked at
                continue
            interpreted(ctx, form, bn, vals(v), 'step %d' % n)
        lists = [[names[0]], [names[1]], list(names)]
        vb_ = vals(vb)
        for k in range(6):
            for q in (0, 1, 2):
                bn = lists[(q + k) % 3]
                f.BC.boundaries = bn
                if q != 1:                               # not every setting is looked at
                    interpreted(ctx, f, bn, vb_, 'round %d' % k)
        # the field moves on in time
        h = poly(ctx, 'h', 1, m.ndim)
        tt = Poly(h.terms, m.ndim, 1)
        cf = continuous(fc, f, kind, tt.func() if kind == 's' else [tt.func()] * m.ndim)
        f.BC.CF = cf
        base = None
        for t in (0, 1, 0.5):
            cf.current_time = t
            f.CF = cf
            f.discretize()
            v = {e: np.array(f.cochain.local[e], dtype=object) for e in els_of(m)}
            if t == 0:
                base = v
            for e in els_of(m):
                ctx.equal(v[e], (1 + t) * base[e], 1e-7, 'reduction of the field at time %s' % t)
            interpreted(ctx, f, bn, vals(v), 'time %s' % t)
        # the coefficients of the form follow
        old = {e: ctx.reals('o%d_' % e, (f.num.basis,)) for e in els_of(m)}
        if hasattr(f.cochain, 'update_bc'):
            f.cochain.local = {e: np.array(x, dtype=object) for e, x in old.items()}
            f.cochain.update_bc()
            for e in els_of(m):
                w = np.array(old[e], dtype=object)
                for q, s in parts(f, bn):
                    if q == e:
                        for d in side_dofs(f, s):
                            w[d] = v[e][d]
                ctx.equal(np.array(f.cochain.local[e], dtype=object), w, 1e-9, 'coefficients updated by the conditions')


def boundary_wise(ctx, i, kind, names, vector_=True, **kw):
    """one field per boundary: each boundary gets its own, again and again; the element-wise boundary vector follows"""
    m, (f,) = setting(3, (i,), **kw)
    fc = caller(f)
    allb = list(m.boundaries.names)
    with ctx.symbolic_code():
        val, fun = {}, {}
        for n in 'ab':
            fun[n] = {b: field(ctx, f, kind, n + b) for b in allb}
            val[n] = {}
            for b in names:
                h = setting_like(f)
                val[n][b] = reduce_(h, continuous(fc, h, kind, fun[n][b]))
        C = {n: continuous(fc, f, kind, fun[n]) for n in fun}
        for c in C.values():
            c.current_time = 0

        def vals(n):
            at = {}
            for b in names:
                for e, s in parts(f, [b]):
                    at[e, s] = val[n][b]
            return lambda e, s, D: [at[e, s][e][d] for d in D]
        bn = [names[0]]
        k = 0
        f.BC.CF = C['a']
        f.BC.boundaries = bn
        V = f.BC.interpret.boundary_cochain if vector_ else None
        for n, B in (('a', (0,)), ('a', (1,)), ('b', (1,)), ('b', (0, 1)), ('a', (0, 1)), ('a', (0,)), ('b', (0,))):
            k += 1
            f.BC.CF = C[n]
            bn[:] = [names[j] for j in B]                # the very same list
            f.BC.boundaries = bn
            interpreted(ctx, f, bn, vals(n), 'step %d' % k)
            if vector_:
                for e in els_of(m):
                    got = np.asarray(V[e].toarray()).ravel()
                    ok = [[0] for _ in range(f.num.basis)]
                    for q, s in parts(f, bn):
                        if q == e:
                            D = side_dofs(f, s)
                            for d, v in zip(D, vals(n)(e, s, D)):
                                ok[d] = [v] if len(ok[d]) == 1 and ok[d][0] is 0 else ok[d] + [v]
                    one = [d for d in range(f.num.basis) if len(ok[d]) == 1]
                    ctx.claim(len(got) == f.num.basis, 'length of the boundary vector')
                    ctx.equal(got[one], np.array([ok[d][0] for d in one], dtype=object), 1e-8, 'boundary vector, step %d' % k)


def setting_like(f):
    """another form of the same kind"""
    return f.__class__(f.mesh, f.space, hybrid=f.whether.hybrid)


# ------------------------------------------------------------------------------------- other impositions
def constant(ctx, dim, ids, i, boundaries, method='silly', **kw):
    """all dofs of some boundaries set to one (symbolic) constant"""
    m, R = setting(dim, ids, **kw)
    els = els_of(m)
    f = R[i]
    with ctx.symbolic_code():
        A, b, D, B = assembly(ctx, m, R, method)
        num = chained(ctx, R, A.gathering_matrices[0], method, 'chain')
        M, V = wanted(R, els, num, D, B)
        c = ctx.real('c')
        f.BC.boundaries = list(boundaries)
        A.customize.identify_global_rows_according_to(i, f.BC.interpret)
        b.customize.set_constant_entries_according_to(i, f.BC.interpret, c)
        rows = {num[i, d]: c for d in on_boundary(f, boundaries)}
        check(ctx, A, b, M, V, rows, 'constant')
        # a single unknown on top
        free = [r for r in range(len(V)) if r not in rows]
        S = linear_system(A, b)
        if method == 'silly' or True:
            v = ctx.real('v')
            r = free[len(free) // 2]
            S.customize.set_unknown_to(r, v)
            rows[r] = v
            check(ctx, A, b, M, V, rows, 'constant and an unknown')
            r = sorted(on_boundary(f, boundaries))[0]
            r = num[i, r]
            S.customize.set_unknown_to(r, 2)
            rows[r] = 2
            check(ctx, A, b, M, V, rows, 'an imposed unknown set again')


def single(ctx, dim, ids, method='silly', step=1, **kw):
    """single rows and entries of the assembled system"""
    m, R = setting(dim, ids, **kw)
    els = els_of(m)
    with ctx.symbolic_code():
        A, b, D, B = assembly(ctx, m, R, method)
        num = chained(ctx, R, A.gathering_matrices[0], method, 'chain')
        M, V = wanted(R, els, num, D, B)
        n = len(V)
        v = ctx.reals('v', (n,))
        S = linear_system(A, b)
        shared = {}
        for e in els:
            rows = [num[j, d] for j, f in enumerate(R) for d in gvec(f, e)]
            for r in rows:
                shared.setdefault(r, set()).update(rows)
        for r in range(0, n, step):
            S.customize.clear()
            S.customize.set_unknown_to(r, v[r])
            check(ctx, A, b, M, V, {r: v[r]}, 'unknown %d' % r)
        for r in range(1, n, 2 * step):
            A.customize.clear()
            A.customize.clear_global_row(r)
            W = M.copy()
            W[r] = 0
            c = sorted(shared[(r * 3) % n])[0]
            A.customize.set_assembled_M_ij_to((r * 3) % n, c, v[r])
            W[(r * 3) % n, c] = v[r]
            ctx.equal(np.asarray(A.assembled.M.toarray()), W, 1e-9, 'row %d cleared, an entry set' % r)
            A.customize.identify_global_row((r * 3) % n)
            W[(r * 3) % n] = 0
            W[(r * 3) % n, (r * 3) % n] = 1
            ctx.equal(np.asarray(A.assembled.M.toarray()), W, 1e-9, 'row %d cleared, another identified' % r)
            b.customize.clear()
            b.customize.set_assembled_V_i_to(r, v[r])
            b.customize.set_assembled_V_i_to(n - 1 - r, v[0])
            w = V.copy()
            w[r] = v[r]
            w[n - 1 - r] = v[0]
            ctx.equal(np.asarray(b.assembled.V.toarray()).ravel(), w, 1e-9, 'entries of the vector set')


def off_diagonal(ctx, dim, ids, i, j, kind, boundaries, method='silly', hybrid=True, **kw):
    """conditions on the dofs of form j imposed through the equations of form i"""
    m, R = setting(dim, ids, hybrid=hybrid, **kw)
    els = els_of(m)
    fc = caller(R[0])
    t, u = R[i], R[j]
    with ctx.symbolic_code():
        A, b, D, B = assembly(ctx, m, R, method)
        num = chained(ctx, R, A.gathering_matrices[0], method, 'chain')
        M, V = wanted(R, els, num, D, B)
        cf = continuous(fc, u, kind, field(ctx, u, kind, 'f'))
        val = reduce_(u, cf)
        u.BC.CF = cf
        for f in (t, u):
            f.BC.boundaries = list(boundaries)
        S = linear_system(A, b)
        S.customize.apply_strong_BC(i, j, t, u)
        rows, cols = {}, {}
        T = u.matrices.trace
        for e, s in parts(t, boundaries):
            N = np.asarray(T[e].toarray())
            gt, gu = gvec(t, e), gvec(u, e)
            for d in side_dofs(t, s):
                (c,) = [k for k in range(N.shape[1]) if float(abs(N[d, k])) > 0.5]
                rows[num[i, gt[d]]] = val[e][c]
                cols[num[i, gt[d]]] = num[j, gu[c]]
        check(ctx, A, b, M, V, rows, 'through other equations', cols)


def dual(ctx, dim, ids, i, kind, names, **kw):
    """conditions on dual trace forms: the dual coefficients of the field, following the boundaries, the field and the time"""
    from engine.harness import H as _
    m, R = setting(dim, ids, hybrid=True, **kw)
    els = els_of(m)
    fc = caller(R[0])
    a = fc('%d-adt' % int(ids[i][0])) if dim == 3 else fc(ids[i][0] + '-adt-' + ids[i][-1])
    R[i] = t = a.prime
    with ctx.symbolic_code():
        fields = [field(ctx, t, kind, n) for n in 'ab']
        h = setting_like(t)
        vals = []
        for q in fields:
            h.CF = continuous(fc, h, kind, q)
            h.CF.current_time = 0
            h.discretize()
            mm = h.matrices.mass_TEW if dim == 3 else h.___PRIVATE_generate_TEW_mass_matrices___()
            w = {}
            for e in els:
                w[e] = np.zeros(t.num.basis, dtype=object)
                for s in ('NSWEBF' if dim == 3 else 'UDLR'):
                    D_ = side_dofs(t, s)
                    M_ = mm[m.trace.elements.map[e][SIDES[s]]]
                    w[e][D_] = np.asarray(M_.toarray() if hasattr(M_, 'toarray') else M_) @ np.array(h.cochain.local[e], dtype=object)[D_]
            vals.append(w)
        C_ = [continuous(fc, t, kind, q) for q in fields]
        for c in C_:
            c.current_time = 0
        for n, (k, B) in enumerate(((0, (0,)), (1, (0,)), (1, (1,)), (0, (0, 1)), (1, (0, 1)))):
            A, b, D, B_ = assembly(ctx, m, R, 'silly', 's%d_' % n)
            num = chained(ctx, R, A.gathering_matrices[0], 'silly', 'chain')
            M, V = wanted(R, els, num, D, B_)
            bn = [names[q] for q in B]
            t.BC.CF = C_[k]
            a.BC.boundaries = bn
            S = linear_system(A, b)
            S.customize.apply_strong_BC(i, i, a.BC.interpret)
            rows = {num[i, d]: v for d, v in on_boundary(t, bn, vals[k]).items()}
            check(ctx, A, b, M, V, rows, 'dual conditions, step %d' % n)
            t.BC.CF = C_[1 - k]
            S.customize.clear()
            S.customize.apply_strong_BC(i, i, a.BC.interpret)
            rows = {num[i, d]: v for d, v in on_boundary(t, bn, vals[1 - k]).items()}
            check(ctx, A, b, M, V, rows, 'dual conditions, other field, step %d' % n)
        q = poly(ctx, 'h', 1, m.ndim)
        cf = continuous(fc, t, kind, Poly(q.terms, m.ndim, 1).func())
        t.BC.CF = cf
        for tm in (0, 1, 0.5):
            cf.current_time = tm
            L = a.BC.interpret.local
            if tm == 0:
                base = {e: np.array(c, dtype=object) for e, c in L.cochains.items()}
            for e, c in L.cochains.items():
                ctx.equal(np.array(c, dtype=object), (1 + tm) * base[e], 1e-8, 'dual conditions at time %s' % tm)


def adjusted(ctx, dim, i, kind, boundaries, **kw):
    """new local matrices and vectors with the rows of the conditions replaced; the old ones stay"""
    m, (f,) = setting(dim, (i,), **kw)
    els = els_of(m)
    fc = caller(f)
    with ctx.symbolic_code():
        n = f.num.basis
        D = {e: np.array(ctx.reals('a%d_' % e, (n, n))) for e in els}
        B = {e: ctx.reals('b%d_' % e, (n,)) for e in els}
        A, b = matrix(m, D, 'csc'), vector(m, B)
        cf = continuous(fc, f, kind, field(ctx, f, kind, 'f'))
        val = reduce_(f, cf)
        f.BC.CF = cf
        f.BC.boundaries = list(boundaries)
        I = f.BC.interpret
        P, Q, w = A.adjust.clear_rows_according_to(I), A.adjust.identify_rows_according_to(I), b.adjust.set_entries_according_to(I)
        Q2 = A.adjust.identify_rows_according_to(I, I)
        f.BC.boundaries = []
        for e in els:
            p, q, v = D[e].copy(), D[e].copy(), np.array(B[e], dtype=object)
            for x, s in parts(f, boundaries):
                if x == e:
                    for d in side_dofs(f, s):
                        p[d] = 0
                        q[d] = 0
                        v[d] = val[e][d]
            for x, s in parts(f, boundaries):
                if x == e:
                    for d in side_dofs(f, s):
                        q[d, d] = 1
            for k in range(2):
                ctx.equal(np.asarray(P[e].toarray()), p, 1e-9, 'rows cleared')
                ctx.equal(np.asarray(Q[e].toarray()), q, 1e-9, 'rows identified')
                ctx.equal(np.asarray(Q2[e].toarray()), q, 1e-9, 'rows identified with columns')
                ctx.equal(np.asarray(w[e].toarray()).ravel(), v, 1e-8, 'entries set')
                ctx.equal(np.asarray(A[e].toarray()), D[e], 1e-12, 'the matrix stays')
                ctx.equal(np.asarray(b[e].toarray()).ravel(), B[e], 1e-12, 'the vector stays')


# ------------------------------------------------------------------------------------- several processes
def ranks(ctx, n, dim, ids, i, boundaries, kind, method='silly', **kw):
    def make(r):
        m, R = setting(dim, ids, **kw)
        for f in R:
            f.numbering.gathering
        return m, R, {e: [gvec(f, e) for f in R] for e in els_of(m)}
    made = mpisim.run(n, make)
    g = {}
    for _, _, x in made:
        g.update(x)
    R0 = made[0][1]
    nb = [f.num.basis for f in R0]
    nd = [1 + max(max(g[e][j]) for e in g) for j in range(len(R0))]
    N = sum(nd)
    v = ctx.real('v')
    fd = field(ctx, R0[i], kind, 'f')
    Dd = {(p, q, e): np.array(ctx.reals('a%d%d_%d_' % (p, q, e), (nb[p], nb[q]))) for p in range(len(nb)) for q in range(len(nb)) for e in sorted(g)}
    Bd = {(p, e): ctx.reals('b%d_%d_' % (p, e), (nb[p],)) for p in range(len(nb)) for e in sorted(g)}

    def use(r, free=None):
        from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
        from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
        m, R, _ = made[r]
        f = R[i]
        fc = caller(f)
        els = els_of(m)
        k = range(len(R))
        A = bmat([[matrix(m, {e: Dd[p, q, e] for e in els}, 'csr', 'all_diff') for q in k] for p in k])
        b = concatenate([vector(m, {e: Bd[p, e] for e in els}) for p in k])
        A.assembler.chain_method = b.assembler.chain_method = method
        A.gathering_matrices = (R, R)
        b.gathering_matrix = R
        S = linear_system(A, b)
        cf = continuous(fc, f, kind, fd)
        val = reduce_(f, cf)
        f.BC.CF = cf
        f.BC.boundaries = list(boundaries)
        S.customize.apply_strong_BC(i, i, f)
        bd = on_boundary(f, boundaries, val)
        M, V = A.assembled, b.assembled
        out = [np.asarray(M.M.toarray()), np.asarray(V.V.toarray()).ravel()]
        if free is not None:
            S.customize.set_unknown_to(free, v)
            S.customize.set_unknown_to(0, 3)
        M, V = A.assembled, b.assembled
        out += [np.asarray(M.M.toarray()), np.asarray(V.V.toarray()).ravel()]
        cg = {e: [int(d) for d in A.gathering_matrices[0][e]] for e in els}
        f.BC.boundaries = []
        return out, bd, cg
    with ctx.symbolic_code():
        got = mpisim.run(n, use)
        num, bd = {}, {}
        for _, d, cg in got:
            bd.update(d)
            for e, c in cg.items():
                k = 0
                for j in range(len(nb)):
                    for d_ in g[e][j]:
                        num[j, d_] = c[k]
                        k += 1
        rows = {num[i, d]: x for d, x in bd.items()}
        free = [r for r in range(1, N) if r not in rows]
        free = free[len(free) // 2] if free else 0
        got = mpisim.run(n, lambda r: use(r, free))
        M, V = np.zeros((N, N), dtype=object), np.zeros(N, dtype=object)
        for e in g:
            for p in range(len(nb)):
                for a, d in enumerate(g[e][p]):
                    V[num[p, d]] = V[num[p, d]] + Bd[p, e][a]
                    for q in range(len(nb)):
                        for c, k in enumerate(g[e][q]):
                            M[num[p, d], num[q, k]] = M[num[p, d], num[q, k]] + Dd[p, q, e][a, c]

        class _A(object):
            def __init__(self, x):
                self.x = self.M = self.V = self.assembled = self
                self.a = x

            def toarray(self):
                return self.a
        for k, rr in ((0, rows), (2, dict(rows, **{})), ):
            if k:
                rr[free] = v
                rr[0] = 3
            check(ctx, _A(sum(o[0][k] for o in got)), _A(sum(o[0][k + 1] for o in got)), M, V, rr, '%d processes, %d' % (n, k))


# ------------------------------------------------------------------------------------- cases
def S_(name, *cases, **kw):
    def run(ctx):
        for q, (fn, a, k) in enumerate(cases):
            fn(_Prefix(ctx, 'q%d_' % q), *a, **k)
    return H(name, run, **kw)


class _Prefix(object):
    def __init__(self, ctx, p):
        self._c, self._p = ctx, p

    def real(self, name, *a, **k):
        return self._c.real(self._p + name, *a, **k)

    def reals(self, name, *a, **k):
        return self._c.reals(self._p + name, *a, **k)

    def int(self, name, *a, **k):
        return self._c.int(self._p + name, *a, **k)

    def __getattr__(self, k):
        return getattr(self._c, k)


def C(fn, *a, **k):
    return fn, a, k


U3 = ('North', 'East')
HARNESSES = [
    S_('strong 2D', C(strong, 2, ('0-f-o', '1-f-o'), 1, ('Upper', 'Right'), 'v'),
       C(strong, 2, ('1-f-o', '2-f-o'), 0, ('Left', 'Down'), 'v', 'sequent')),
    S_('strong 2D regions', C(strong, 2, ('1-f-o',), 0, ('all',), 'v', ID='cic', layout=(1, 1), kw={})),
    S_('strong 3D 0', C(strong, 3, ('0-f',), 0, U3, 's')),
    S_('strong 3D 1', C(strong, 3, ('1-f',), 0, U3, 'v')),
    S_('strong 3D 2', C(strong, 3, ('2-f', '3-f'), 0, U3, 'v', 'sequent')),
    S_('strong triangles', C(strong, 'tri', ('0-f-o', '1-f-o'), 0, ('Upper',), 's'),
       C(strong, 'tri', ('1-f-o',), 0, ('Upper', 'Right'), 'v', layout='st8', kw={})),
    S_('strong triangles 2', C(strong, 'tri', ('0-f-i',), 0, ('Upper', 'Right'), 's', layout='st8', kw={})),
    S_('history 3D', C(history, 3, '0-f', 's', ('North', 'West')), C(history, 3, '2-f', 'v', ('South', 'Back'))),
    S_('history others', C(history, 2, '1-f-o', 'v', ('Upper', 'Left')), C(history, 'tri', '0-f-i', 's', ('Upper', 'Right'), layout='st8', kw={}),
       C(history, 'tri', '1-f-o', 'v', ('Upper', 'Right'), layout='st8', kw={})),
    S_('boundary fields', C(boundary_wise, '2-f', 'v', ('North', 'East')), C(boundary_wise, '0-f', 's', ('West', 'Front'))),
    S_('boundary fields of traces', C(boundary_wise, '2-t', 's', ('North', 'East'), False, hybrid=True),
       C(boundary_wise, '2-t', 'v', ('North', 'East'), False, hybrid=True)),
    S_('boundary fields of local traces', C(boundary_wise, '0-lt', 's', ('North', 'East'), hybrid=True),
       C(boundary_wise, '2-lt', 's', ('North', 'East'), hybrid=True)),
    S_('constant', C(constant, 3, ('0-f',), 0, ('North',)), C(constant, 2, ('0-f-o', '1-f-o'), 0, ('Left',)),
       C(constant, 'tri', ('0-f-o',), 0, ('Upper',), layout='st8', kw={})),
    S_('constant regions', C(constant, 2, ('0-f-i',), 0, ('Internal',), ID='cic', layout=(1, 1), kw={})),
    S_('single', C(single, 2, ('0-f-o', '2-f-o')), C(single, 3, ('0-f',), step=3), C(single, 'tri', ('0-f-o',), layout='st8', kw={})),
    S_('off diagonal 2', C(off_diagonal, 3, ('2-f', '2-t'), 1, 0, 'v', ('North', 'East'))),
    S_('off diagonal 0', C(off_diagonal, 3, ('0-f', '0-t'), 1, 0, 's', ('North', 'East'))),
    S_('dual', C(dual, 3, ('2-f', '2-t'), 1, 's', ('North', 'East'))),
    S_('adjusted', C(adjusted, 3, '2-f', 'v', ('North', 'East')), C(adjusted, 3, '0-f', 's', ('North', 'East'))),
] + [
    S_('%d processes' % n, C(ranks, n, 3, ('0-f',), 0, ('North', 'East'), 's'), C(ranks, n, 2, ('0-f-o', '1-f-o'), 1, ('Upper',), 'v', 'sequent'))
    for n in (1, 2, 3)
]
