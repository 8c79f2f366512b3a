"""Independent reference values (numpy): exact contraction of an infinite cylinder,
short-time evolution of a finite cluster. Nothing here uses code of the repository.

Site tensors are A[(x, y)] with legs (left, up, right, down, physical); the right
leg of (x, y) meets the left leg of (x+1, y), the up leg meets the down leg of
(x, y+1); coordinates are periodic in the unit cell.
"""
import numpy as np


def _double(a, b=None):
    """(l,u,r,d,p) -> (lL, uU, rR, dD) traced over p, or open (…, pP) if b is 'open'."""
    l, u, r, d, p = a.shape
    if b == "open":
        t = np.einsum("lurdp,LURDP->lLuUrRdDpP", a, a)
        return t.reshape(l * l, u * u, r * r, d * d, p * p)
    t = np.einsum("lurdp,LURDp->lLuUrRdD", a, a)
    return t.reshape(l * l, u * u, r * r, d * d)


def _column(v, T, axis):
    """Apply a ring of column tensors to v. v has shape (dims..., extra); axis 'r' maps
    left legs to right legs, 'l' the reverse. T[y] may carry a trailing open leg."""
    L = len(T)
    extra = v.shape[L:]
    ne = int(np.prod(extra)) if extra else 1
    # state: (first d, current u, processed..., remaining..., extra)
    v = v.reshape(v.shape[:L] + (ne,))
    dim0 = T[0].shape[3]
    S = None
    opens = 0
    for y in range(L):
        t = T[y]
        if axis == "l":
            t = t.transpose((2, 1, 0, 3) + ((4,) if t.ndim == 5 else ()))
        # t: (in, u, out, d[, o])
        if y == 0:
            # v axes: (l0, l1.., e) -> (d, u, l1.., e, out0 [, o])
            S = np.tensordot(v, t, axes=([0], [0]))            # l1..,e,u,out,d[,o]
            n = S.ndim
            if t.ndim == 5:
                iu, io, idn, oo = n - 4, n - 3, n - 2, n - 1
                S = np.moveaxis(S, [idn, iu], [0, 1])          # d,u,l1..,e,out,o
                opens += 1
            else:
                iu, io, idn = n - 3, n - 2, n - 1
                S = np.moveaxis(S, [idn, iu], [0, 1])
        else:
            # S: d, u, l_y, ..., ; contract u with t.d and l_y with t.in
            S = np.tensordot(S, t, axes=([1, 2], [3, 0]))      # d, rest..., u, out[, o]
            if t.ndim == 5:
                S = np.moveaxis(S, -3, 1)
                opens += 1
            else:
                S = np.moveaxis(S, -2, 1)
    # S: d, u, e, (out0[,o0]), (out1[,o1]) ...
    S = np.einsum("aa...->...", S)
    # reorder to (outs..., e, opens...)
    outs, ops = [], []
    i = 1
    for y in range(L):
        outs.append(i)
        i += 1
        if T[y].ndim == 5:
            ops.append(i)
            i += 1
    S = S.transpose(outs + [0] + ops)
    shape = S.shape[:L] + tuple(extra) + S.shape[L + 1:]
    return S.reshape(shape)


class Cylinder:
    """Infinite in x, periodic of circumference m*ny in y."""

    def __init__(self, A, nx, ny, m, tol=1e-13, maxit=400):
        self.nx, self.ny, self.L = nx, ny, m * ny
        self.A = A
        self.cols = [[_double(A[(x, y % ny)]) for y in range(self.L)] for x in range(nx)]
        self.left = self._fixed("r", tol, maxit)     # left[x]: environment left of column x
        self.right = self._fixed("l", tol, maxit)    # right[x]: environment right of column x

    def _fixed(self, axis, tol, maxit):
        nx = self.nx
        order = range(nx) if axis == "r" else range(nx - 1, -1, -1)
        start = self.cols[order[0]]
        dims = [t.shape[0] if axis == "r" else t.shape[2] for t in start]
        D = [int(round(d ** 0.5)) for d in dims]
        v = np.eye(D[0]).reshape(-1)
        for d in D[1:]:
            v = np.multiply.outer(v, np.eye(d).reshape(-1))
        v = v / np.linalg.norm(v)
        for it in range(maxit):
            env = {}
            w = v
            for x in order:
                env[x] = w
                w = _column(w, self.cols[x], axis)
                w = w / np.linalg.norm(w)
            if np.vdot(w, v) < 0:
                w = -w
            err = np.linalg.norm(w - v)
            v = w
            if err < tol:
                break
        self.err = max(getattr(self, "err", 0.0), err)
        return env

    def _opened(self, x, ys):
        T = list(self.cols[x])
        for y in ys:
            T[y] = _double(self.A[(x, y % self.ny)], "open")
        return T

    def _norm(self, m, p):
        """m: open legs (pP) per site -> rho[(P..),(p..)] in the convention rho[P,p]."""
        n = m.ndim
        m = m.reshape((p, p) * n)
        kets, bras = [2 * i for i in range(n)], [2 * i + 1 for i in range(n)]
        r = m.transpose(bras + kets).reshape(p ** n, p ** n)
        return r / np.trace(r)

    def site(self, x, y):
        p = self.A[(x, y)].shape[-1]
        v = _column(self.left[x], self._opened(x, [y]), "r")
        m = np.tensordot(self.right[x], v, axes=(range(self.L), range(self.L)))
        return self._norm(m, p)

    def vbond(self, x, y):
        p = self.A[(x, y)].shape[-1]
        y2 = (y + 1) % self.L
        v = _column(self.left[x], self._opened(x, [y, y2]), "r")
        m = np.tensordot(self.right[x], v, axes=(range(self.L), range(self.L)))
        if y2 < y:
            m = m.transpose(1, 0)
        return self._norm(m, p)

    def hbond(self, x, y):
        p = self.A[(x, y)].shape[-1]
        x2 = (x + 1) % self.nx
        v = _column(self.left[x], self._opened(x, [y]), "r")
        v = _column(v, self._opened(x2, [y]), "r")
        m = np.tensordot(self.right[x2], v, axes=(range(self.L), range(self.L)))
        return self._norm(m, p)

    def all(self):
        out = {}
        for x in range(self.nx):
            for y in range(self.ny):
                out[(x, y)] = self.site(x, y)
                out[((x, y), ((x + 1) % self.nx, y), 2)] = self.hbond(x, y)
                out[((x, y), (x, (y + 1) % self.ny), 1)] = self.vbond(x, y)
        return out


def _swap_xy(A):
    """Reflect about the diagonal: (x, y) -> (y, x), left<->down, right<->up."""
    return {(y, x): a.transpose(3, 2, 1, 0, 4) for (x, y), a in A.items()}


def exact_rdms(A, nx, ny, max_states=4096):
    """Reference density matrices and an estimate of their finite-size error."""
    D2 = max(max(a.shape[:4]) for a in A.values()) ** 2
    import math
    Lmax = max(2, int(math.log(max_states) / math.log(max(D2, 2)) + 1e-9))

    def pick(n):
        ms = [m for m in range(1, Lmax // n + 1) if m * n >= 2]
        return ms[-1] if ms else None
    my, mx = pick(ny), pick(nx)
    swap = my is None or (mx is not None and mx * nx > my * ny)
    if swap and mx is not None:
        B, bx, by, m = _swap_xy(A), ny, nx, mx
    else:
        swap = False
        B, bx, by, m = A, nx, ny, my or 1
        while m * by < 2:
            m += 1
    cyl = Cylinder(B, bx, by, m)
    r = cyl.all()
    if swap:
        out = {}
        for k, v in r.items():
            if len(k) == 2:
                out[(k[1], k[0])] = v
            else:
                s1, s2, d = k
                out[((s1[1], s1[0]), (s2[1], s2[0]), 3 - d)] = v
        r = out
    return r, cyl.L


# ---- evolution of a finite cluster ------------------------------------------------
def cluster_evolve(h1, h2, start, bond, tau, w=4, h=3, order=14):
    """exp(-tau H)|start> on a w x h patch of the infinite lattice around bond; returns the
    bond's normalised density matrix.

    h1(site) and h2(s1, s2, k) take infinite-lattice coordinates; start(site) is a vector.
    """
    (x0, y0), _, k = bond
    if k == 2:
        xs, ys = range(x0 - (w - 2) // 2, x0 - (w - 2) // 2 + w), range(y0 - (h - 1) // 2, y0 - (h - 1) // 2 + h)
        s2 = (x0 + 1, y0)
    else:
        xs, ys = range(x0 - (h - 1) // 2, x0 - (h - 1) // 2 + h), range(y0 - (w - 2) // 2, y0 - (w - 2) // 2 + w)
        s2 = (x0, y0 + 1)
    sites = [(x, y) for x in xs for y in ys]
    idx = {s: i for i, s in enumerate(sites)}
    psi = np.array(1.0)
    for s in sites:
        psi = np.multiply.outer(psi, start(s))
    terms = []
    for s in sites:
        m = h1(s)
        if m is not None:
            terms.append(((idx[s],), m))
    for s in sites:
        for k2, t in ((2, (s[0] + 1, s[1])), (1, (s[0], s[1] + 1))):
            if t in idx:
                terms.append(((idx[s], idx[t]), h2(s, t, k2)))

    def apply(v):
        out = np.zeros_like(v)
        for ix, m in terms:
            if len(ix) == 1:
                out += np.moveaxis(np.tensordot(m, v, axes=([1], [ix[0]])), 0, ix[0])
            else:
                p = v.shape[ix[0]]
                mm = m.reshape(p, p, p, p)
                r = np.tensordot(mm, v, axes=([2, 3], list(ix)))
                out += np.moveaxis(r, [0, 1], list(ix))
        return out
    res, term = psi.copy(), psi
    for n in range(1, order + 1):
        term = apply(term) * (-tau / n)
        res = res + term
        if np.linalg.norm(term) < 1e-15 * np.linalg.norm(res):
            break
    a, b = idx[(x0, y0)], idx[s2]
    m = np.moveaxis(res, [a, b], [0, 1])
    p = m.shape[0]
    m = m.reshape(p * p, -1)
    rho = m @ m.T
    return rho / np.trace(rho)


def reduce_first(rho, p):
    return np.einsum("aibi->ab", rho.reshape(p, p, p, p))


def reduce_second(rho, p):
    return np.einsum("iaib->ab", rho.reshape(p, p, p, p))
