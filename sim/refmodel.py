"""Independent model of what a modelling history describes: functions of the
parameters with values (x*w, y*w, z*w, w, field*w...) and their derivatives.
No control points or knots of igakit enter after the start of the history."""
import math
import numpy as np

K = 5                    # derivatives 0..4


def basis(U, p, u, side):
    """Taylor coefficients (in t = u'-u) of the p+1 B-splines alive next to u.
    -> (first index, array[p+1, K]).  At a break, side decides the piece."""
    a, b = U[p], U[-p - 1]
    tol = 1e-10 * (b - a)
    n = len(U) - p - 1
    i = None
    for k in range(p, n):                       # span [U_k, U_k+1)
        if not U[k + 1] > U[k]:
            continue
        if i is None:
            i = k                               # first span of the domain
        if abs(u - U[k]) <= tol:
            if side > 0:
                i = k
        elif u > U[k]:
            i = k
    N = np.zeros((p + 2, K))
    N[p, 0] = 1.0                               # N[j] is B_{i-p+j}
    for q in range(1, p + 1):
        M = np.zeros((p + 2, K))
        for j in range(p - q, p + 1):
            m = i - p + j
            for (src, num0, num1, den) in ((j, u - U[m], 1.0, U[m + q] - U[m]),
                                           (j + 1, (U[m + q + 1] - u) if m + q + 1 < len(U) else 0.0, -1.0,
                                            (U[m + q + 1] - U[m + 1]) if m + q + 1 < len(U) else 0.0)):
                if src > p or den <= 0:
                    continue
                c = N[src] / den
                M[j] += num0 * c
                M[j, 1:] += num1 * c[:-1]
        N = M
    return i - p, N[:p + 1]


FACT = np.array([1.0, 1.0, 2.0, 6.0, 24.0])


class Base:
    def __init__(self, knots, hom):
        self.U = [np.array(k, dtype=float) for k in knots]
        self.hom = np.array(hom, dtype=float)
        self.dim = len(self.U)
        self.p = [len(U) - n - 1 for U, n in zip(self.U, self.hom.shape)]
        self.dom = [(float(U[p]), float(U[-p - 1])) for U, p in zip(self.U, self.p)]
        self.nf = self.hom.shape[-1] - 4

    def D(self, u, s):
        """derivative tensor [K]*dim + [4+nf] in the parameters"""
        A = self.hom
        for d in range(self.dim):
            i, N = basis(self.U[d], self.p[d], u[d], s[d])
            B = A.take(range(i, i + self.p[d] + 1), axis=d)
            # contract axis d with N -> Taylor index, times k!
            T = np.tensordot(N * FACT, B, axes=(0, d))       # [K] first
            A = np.moveaxis(T, 0, d)
        return A


class Map:
    """Affine change of one parameter: [a,b] runs over the child's [c,d] (reversed if c > d)."""
    def __init__(self, node, axis, new, child):
        self.n, self.ax, self.new, self.child = node, axis, new, child
        self.dim, self.nf = node.dim, node.nf
        self.dom = list(node.dom)
        self.dom[axis] = (float(new[0]), float(new[1]))

    def D(self, u, s):
        (a, b), (c, d) = self.new, self.child
        k = (d - c) / (b - a)
        u, s = list(u), list(s)
        x = u[self.ax]
        v = c + (x - a) * k if abs(x - a) <= abs(x - b) else d + (x - b) * k
        lo, hi = self.n.dom[self.ax]
        u[self.ax] = min(max(v, lo), hi)
        if k < 0:
            s[self.ax] = -s[self.ax]
        T = self.n.D(u, s)
        sh = [1] * T.ndim
        sh[self.ax] = K
        return T * (k ** np.arange(K)).reshape(sh)


class Perm:
    """new axis i is the child's axis axes[i]"""
    def __init__(self, node, axes):
        self.n, self.axes = node, list(axes)
        self.dim, self.nf = node.dim, node.nf
        self.dom = [node.dom[a] for a in axes]

    def D(self, u, s):
        cu, cs = [None] * self.dim, [None] * self.dim
        for i, a in enumerate(self.axes):
            cu[a], cs[a] = u[i], s[i]
        T = self.n.D(cu, cs)
        return np.transpose(T, self.axes + [self.dim])


class Lin:
    """4x4 matrix on the homogeneous position"""
    def __init__(self, node, M):
        self.n, self.M = node, np.array(M, dtype=float)
        self.dim, self.nf, self.dom = node.dim, node.nf, node.dom

    def D(self, u, s):
        T = self.n.D(u, s)
        return np.concatenate([T[..., :4] @ self.M.T, T[..., 4:]], axis=-1)


class Plus:
    """A + B, homogeneous, in the same parameters"""
    def __init__(self, A, B):
        self.A, self.B = A, B
        self.dim, self.nf, self.dom = A.dim, A.nf, A.dom

    def D(self, u, s):
        return self.A.D(u, s) + self.B.D(u, s)


class NoFields:
    def __init__(self, node):
        self.n, self.nf, self.dim, self.dom = node, 0, node.dim, node.dom

    def D(self, u, s):
        return self.n.D(u, s)[..., :4]


class Restrict:
    def __init__(self, node, axis, a, b):
        self.n, self.dim, self.nf = node, node.dim, node.nf
        self.dom = list(node.dom)
        self.dom[axis] = (float(a), float(b))

    def D(self, u, s):
        return self.n.D(u, s)


class Fix:
    """extraction at a parameter value"""
    def __init__(self, node, axis, v):
        self.n, self.ax, self.v = node, axis, float(v)
        self.dim, self.nf = node.dim - 1, node.nf
        self.dom = node.dom[:axis] + node.dom[axis + 1:]

    def D(self, u, s):
        u, s = list(u), list(s)
        u.insert(self.ax, self.v)
        s.insert(self.ax, 1)
        return np.take(self.n.D(u, s), 0, axis=self.ax)


class Ruled:
    """(1-t) A + t B in a further last parameter"""
    def __init__(self, A, B):
        self.A, self.B = A, B
        self.dim, self.nf = A.dim + 1, A.nf
        self.dom = list(A.dom) + [(0.0, 1.0)]

    def D(self, u, s):
        a, b = self.A.D(u[:-1], s[:-1]), self.B.D(u[:-1], s[:-1])
        t = u[-1]
        T = np.zeros(a.shape[:-1] + (K,) + a.shape[-1:])
        T[..., 0, :] = (1 - t) * a + t * b
        T[..., 1, :] = b - a
        return T


class Sweep:
    def __init__(self, S, T):
        self.S, self.T = S, T
        self.dim, self.nf = S.dim + 1, 0
        self.dom = list(S.dom) + list(T.dom)

    def D(self, u, s):
        a, b = self.S.D(u[:-1], s[:-1])[..., :4], self.T.D(u[-1:], s[-1:])[..., :4]
        a = a[..., None, :]
        out = a * b[..., 3:4]
        out[..., :3] += b[..., :3] * a[..., 3:4]
        out[..., 3] = a[..., 3] * b[..., 3]
        return out


def arc(angle):
    """unit circular arc about z: rational quadratic pieces over [0, 1]"""
    if angle is None:
        a0, a1, n = 0.0, 2 * math.pi, 4
    else:
        a0, a1 = angle if isinstance(angle, (list, tuple)) else (0.0, angle)
        n = sum(1 for q in (0.0, math.pi / 2, math.pi, 3 * math.pi / 2) if q < abs(a1 - a0))
    d = (a1 - a0) / (2 * n)
    P = []
    for k in range(2 * n + 1):
        t = a0 + k * d
        P.append([math.cos(t), math.sin(t), 0.0, 1.0 if k % 2 == 0 else math.cos(d)])
    U = [0.0] * 3
    for k in range(1, n):
        U += [k / n] * 2
    return Base([U + [1.0] * 3], np.array(P))


class Revolve:
    def __init__(self, node, point, axis, angle):
        self.n, self.arc = node, arc(angle)
        self.c = np.zeros(3)
        self.c[:len(point)] = point
        v = np.zeros(3)
        if isinstance(axis, int):
            v[axis] = 1
        else:
            v[:len(axis)] = axis
        self.v = v / math.sqrt((v * v).sum())
        self.dim, self.nf = node.dim + 1, 0
        self.dom = list(node.dom) + [(0.0, 1.0)]

    def D(self, u, s):
        a, r = self.n.D(u[:-1], s[:-1])[..., :4], self.arc.D(u[-1:], s[-1:])
        w = a[..., 3:4]
        q = a[..., :3] - w * self.c
        par = (q @ self.v)[..., None] * self.v
        perp, cross = q - par, np.cross(self.v, q)
        out = np.zeros(a.shape[:-1] + (K, 4))
        fix = (w * self.c + par)[..., None, :]
        out[..., :3] = fix * r[:, 3:4] + perp[..., None, :] * r[:, 0:1] + cross[..., None, :] * r[:, 1:2]
        out[..., 3] = w * r[:, 3]
        return out


class Coons:
    """Boolean sum of two ruled surfaces and the bilinear corner patch (homogeneous)."""
    def __init__(self, C00, C01, C10, C11):
        # u runs from C00 to C01, v from C10 to C11
        self.a, self.b, self.c, self.d = C00, C01, C10, C11
        self.dim, self.nf = 2, 0
        self.dom = None

    def D(self, u, s):
        (u0, u1), (v0, v1) = self.dom
        T = np.zeros((K, K, 4))

        def at(n, x, lo, hi, sd):
            """curve n run over [lo, hi]"""
            c, d = n.dom[0]
            k = (d - c) / (hi - lo)
            y = min(max(c + (x - lo) * k, c), d)
            return n.D([y], [sd])[..., :4] * (k ** np.arange(K))[:, None]
        x, y = (u[0] - u0) / (u1 - u0), (u[1] - v0) / (v1 - v0)
        dx, dy = 1 / (u1 - u0), 1 / (v1 - v0)
        A, B = at(self.a, u[1], v0, v1, s[1]), at(self.b, u[1], v0, v1, s[1])      # along v
        T[0] += (1 - x) * A + x * B
        T[1] += (B - A) * dx
        C, D = at(self.c, u[0], u0, u1, s[0]), at(self.d, u[0], u0, u1, s[0])      # along u
        T[:, 0] += (1 - y) * C + y * D
        T[:, 1] += (D - C) * dy
        P = [[n.D([n.dom[0][e]], [1 - 2 * e])[0, :4].copy() for n in (self.c, self.d)] for e in (0, 1)]
        for i in (0, 1):
            for j in (0, 1):
                q = P[i][j][:3] / P[i][j][3]
                h = np.append(q, 1.0)
                fx, gx = ((1 - x), -dx) if i == 0 else (x, dx)
                fy, gy = ((1 - y), -dy) if j == 0 else (y, dy)
                T[0, 0] -= fx * fy * h
                T[1, 0] -= gx * fy * h
                T[0, 1] -= fx * gy * h
                T[1, 1] -= gx * gy * h
        return T


class Join:
    def __init__(self, A, B, axis):
        self.A, self.B, self.ax = A, B, axis
        self.dim, self.nf = A.dim, A.nf
        self.dom = list(A.dom)
        a, m = A.dom[axis]
        c, d = B.dom[axis]
        self.m = m
        self.dom[axis] = (a, m + (d - c))
        self.B = Map(B, axis, (m, m + (d - c)), (c, d))

    def D(self, u, s):
        x = u[self.ax]
        a, b = self.dom[self.ax]
        if abs(x - self.m) <= 1e-10 * (b - a):
            left = s[self.ax] < 0
        else:
            left = x < self.m
        lo, hi = (a, self.m) if left else (self.m, b)
        u = list(u)
        u[self.ax] = min(max(x, lo), hi)
        s = list(s)
        if abs(x - self.m) <= 1e-10 * (b - a):
            s[self.ax] = -1 if left else 1
        return (self.A if left else self.B).D(u, s)


def binom(n, k):
    return math.comb(n, k)


def rational(T, dim, order):
    """derivatives of (everything but w)/w: dict multi-index -> vector"""
    w = T[..., 3]
    A = np.concatenate([T[..., :3], T[..., 4:]], axis=-1)
    out = {}

    def idx(d, tot):
        if d == 0:
            yield ()
            return
        for k in range(tot + 1):
            for r in idx(d - 1, tot - k):
                yield (k,) + r
    alls = sorted(idx(dim, order), key=sum)
    w0 = w[(0,) * dim]
    for k in alls:
        v = np.array(A[k], dtype=float)
        for j in alls:
            if sum(j) and all(x <= y for x, y in zip(j, k)):
                c = 1
                for x, y in zip(j, k):
                    c *= binom(y, x)
                v = v - c * w[j] * out[tuple(y - x for x, y in zip(j, k))]
        out[k] = v / w0
    return out
