"""Independent oracles: degrees of freedom of a reconstructed field, straight from their definition (integrals along
edges / over faces / volumes of the reference-cell images), with Gauss rules from numpy."""
import numpy as np


def _gauss(a, b, q):
    x, w = np.polynomial.legendre.leggauss(q)
    return (a + b) / 2 + x * (b - a) / 2, w * (b - a) / 2


def _sub(nodes, q):
    """points and weights of all intervals between successive nodes: (n*q,), (n, q)."""
    P, W = zip(*[_gauss(nodes[i], nodes[i + 1], q) for i in range(len(nodes) - 1)])
    return np.concatenate(P), np.array(W)


def grid(*ax):
    """F-raveled meshgrid."""
    return [m.ravel('F') for m in np.meshgrid(*ax, indexing='ij')]


def _jac(element, pts):
    n = len(pts[0])
    J = element.coordinate_transformation.Jacobian_matrix(*pts)
    d = len(J)
    return [[np.broadcast_to(np.asarray(J[i][j]), (n,)) for j in range(d)] for i in range(d)]


def det(J):
    if len(J) == 2:
        return J[0][0] * J[1][1] - J[0][1] * J[1][0]
    return (J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) +
            J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]))


def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dofs(kind, nodes, element, field, q=None):
    """kind: '0','1','2','3' in 3d; '0','1i','1o','2' in 2d.  field(*axes) -> list of components on the F-raveled
    grid of the axes.  Returns the local degrees of freedom in the local numbering order (F-ravel, x block first)."""
    dim = len(nodes)
    q = q or max(len(n) for n in nodes)
    if kind == '0':
        return field(*nodes)[0]
    out = []
    for c in range(dim if kind not in (str(dim),) else 1):
        # directions in which we integrate
        if kind == str(dim):
            D = list(range(dim))
        elif kind in ('1', '1i'):
            D = [c]
        elif kind == '1o':
            D = [1 - c]
        else:
            D = [i for i in range(3) if i != c]
        ax, W = [], []
        for i in range(dim):
            if i in D:
                p, w = _sub(nodes[i], q)
            else:
                p, w = nodes[i], np.ones((len(nodes[i]), 1))
            ax.append(np.asarray(p, float))
            W.append(w)
        pts = grid(*ax)
        v = field(*ax)
        J = _jac(element, pts)
        col = lambda d: [J[i][d] for i in range(dim)]
        if kind == str(dim):
            g = v[0] * det(J)
        elif kind in ('1', '1i'):
            t = col(c)
            g = sum(v[i] * t[i] for i in range(dim))
        elif kind == '1o':
            t = col(1 - c)
            g = (v[0] * t[1] - v[1] * t[0]) * (1 if c == 0 else -1)
        else:
            n = _cross(col((c + 1) % 3), col((c + 2) % 3))
            g = sum(v[i] * n[i] for i in range(3))
        # collapse the quadrature points
        g = np.asarray(g).reshape([len(a) for a in ax], order='F')
        for i in range(dim):
            n, k = W[i].shape
            g = np.moveaxis(g, i, -1)
            g = g.reshape(g.shape[:-1] + (n, k))
            g = (g * W[i]).sum(-1)
            g = np.moveaxis(g, -1, i)
        out.append(g.ravel('F'))
    return np.concatenate(out)
