"""Small dense primal-dual interior-point solver for linear/semidefinite cone
programs (homogeneous self-dual embedding, NT scaling).

    minimise    c'x
    subject to  A x = b,   G x + s = h,   s in K = R_+^l x PSD(n1) x ...

PSD blocks use the scaled upper-triangle vectorisation (svec).  The result is
only reported as "optimal"/"pinf"/"dinf" after residuals were verified, so the
solver never has to be trusted: it either proves its answer or says "unknown".
"""
import numpy as np
from scipy.linalg import lu_factor, lu_solve

SQ2 = np.sqrt(2.0)
_cache = {}


def _tri(n):
    if n not in _cache:
        i, j = np.triu_indices(n)
        sc = np.where(i == j, 1.0, SQ2)
        _cache[n] = (i, j, sc)
    return _cache[n]


def svec(M):
    i, j, sc = _tri(M.shape[0])
    return M[i, j] * sc


def smat(v, n):
    i, j, sc = _tri(n)
    M = np.zeros((n, n))
    M[i, j] = v / sc
    M[j, i] = v / sc
    return M


class Cone:
    def __init__(self, l, psd):
        self.l, self.psd = l, list(psd)
        self.off = []
        o = l
        for n in self.psd:
            self.off.append(o)
            o += n * (n + 1) // 2
        self.dim = o
        self.nu = l + sum(self.psd)

    def e(self):
        v = np.zeros(self.dim)
        v[:self.l] = 1
        for o, n in zip(self.off, self.psd):
            v[o:o + n * (n + 1) // 2] = svec(np.eye(n))
        return v

    def blocks(self, v):
        return [smat(v[o:o + n * (n + 1) // 2], n)
                for o, n in zip(self.off, self.psd)]

    def mineig(self, v):
        m = np.inf
        if self.l:
            m = min(m, v[:self.l].min())
        for B in self.blocks(v):
            m = min(m, np.linalg.eigvalsh(B)[0])
        return m


def _scaling(K, s, z):
    """W as dense operator pieces and lambda."""
    lam = [np.sqrt(s[:K.l] * z[:K.l])]
    d = np.sqrt(s[:K.l] / z[:K.l])
    Rs = []
    for S, Z in zip(K.blocks(s), K.blocks(z)):
        L1 = np.linalg.cholesky(S)
        L2 = np.linalg.cholesky(Z)
        U, sv, Vt = np.linalg.svd(L2.T @ L1)
        r = np.sqrt(sv)
        R = (L1 @ Vt.T) / r
        Rinv = (U.T @ L2.T) / r[:, None]
        Rs.append((R, Rinv))
        lam.append(sv)
    return d, Rs, lam


def _W2(K, d, Rs):
    """W'W as a dense matrix on svec space (block diagonal)."""
    M = np.zeros((K.dim, K.dim))
    M[np.arange(K.l), np.arange(K.l)] = d ** 2
    for (R, _), o, n in zip(Rs, K.off, K.psd):
        P = R @ R.T  # W'W(Z) = RR' Z RR'
        i, j, sc = _tri(n)
        # column (k,l): svec(P E_kl P)
        B = (P[i][:, i] * P[j][:, j] + P[i][:, j] * P[j][:, i])
        B = B * 0.5 * np.outer(sc, sc)
        m = n * (n + 1) // 2
        M[o:o + m, o:o + m] = B
    return M


def _app(K, v, d, Rs, mode):
    """mode: 'W' W v ; 'WT' W^T v ; 'WiT' W^{-T} v."""
    out = np.empty(K.dim)
    l = K.l
    if mode == 'WiT':
        out[:l] = v[:l] / d
    else:
        out[:l] = v[:l] * d
    for (R, Ri), o, n in zip(Rs, K.off, K.psd):
        m = n * (n + 1) // 2
        V = smat(v[o:o + m], n)
        if mode == 'W':
            X = R.T @ V @ R
        elif mode == 'WT':
            X = R @ V @ R.T
        else:
            X = Ri @ V @ Ri.T
        out[o:o + m] = svec((X + X.T) / 2)
    return out


def _jprod(K, a, b):
    out = np.empty(K.dim)
    out[:K.l] = a[:K.l] * b[:K.l]
    for A, B, o, n in zip(K.blocks(a), K.blocks(b), K.off, K.psd):
        X = (A @ B + B @ A) / 2
        out[o:o + n * (n + 1) // 2] = svec(X)
    return out


def _jdiv(K, lam, v):
    """solve lam o u = v (lam diagonal)."""
    out = np.empty(K.dim)
    out[:K.l] = v[:K.l] / lam[0]
    for lm, o, n in zip(lam[1:], K.off, K.psd):
        m = n * (n + 1) // 2
        V = smat(v[o:o + m], n)
        out[o:o + m] = svec(2 * V / (lm[:, None] + lm[None, :]))
    return out


def _lamvec(K, lam):
    out = np.zeros(K.dim)
    out[:K.l] = lam[0]
    for lm, o, n in zip(lam[1:], K.off, K.psd):
        out[o:o + n * (n + 1) // 2] = svec(np.diag(lm))
    return out


def _maxstep(K, lam, v):
    a = np.inf
    if K.l:
        r = v[:K.l] / lam[0]
        m = r.min()
        if m < 0:
            a = min(a, -1 / m)
    for lm, o, n in zip(lam[1:], K.off, K.psd):
        m = n * (n + 1) // 2
        q = 1 / np.sqrt(lm)
        V = smat(v[o:o + m], n) * np.outer(q, q)
        w = np.linalg.eigvalsh(V)[0]
        if w < 0:
            a = min(a, -1 / w)
    return a


def solve(c, A, b, G, h, l, psd, maxit=80, tol=1e-9, acc=1e-6):
    """Returns dict(status, x, y, z, s, pobj, dobj).  status in
    optimal / pinf / dinf / unknown.  pinf: (y,z) with b'y+h'z=-1.
    dinf: x with c'x=-1."""
    c = np.asarray(c, float)
    nx = len(c)
    A = np.asarray(A, float).reshape(-1, nx)
    b = np.asarray(b, float)
    G = np.asarray(G, float).reshape(-1, nx)
    h = np.asarray(h, float)
    K = Cone(l, psd)
    p, m = A.shape[0], K.dim
    assert G.shape[0] == m
    # row equilibration of the equalities
    rs = np.maximum(np.abs(A).max(axis=1, initial=0), 1e-12) if p else np.ones(0)
    A = A / rs[:, None] if p else A
    b = b / rs if p else b
    # remove redundant equalities
    U = None
    if p:
        u, sv, vt = np.linalg.svd(A, full_matrices=False)
        r = int((sv > 1e-10 * max(sv[0], 1)).sum())
        U = u[:, :r]
        left = b - U @ (U.T @ b)
        if np.linalg.norm(left) > 1e-7 * (1 + np.linalg.norm(b)):
            return dict(status='pinf', x=np.zeros(nx), y=-left / (left @ b) / rs,
                        z=np.zeros(m), s=np.zeros(m), pobj=0.0, dobj=1.0, quality=0.0)
        A, b, p = vt[:r], (U.T @ b) / sv[:r], r
        U = U / sv[:r]
    x, y = np.zeros(nx), np.zeros(p)
    s, z = K.e(), K.e()
    tau = kap = 1.0
    nb, nh, nc = 1 + np.linalg.norm(b), 1 + np.linalg.norm(h), 1 + np.linalg.norm(c)
    best = None
    e = K.e()
    N = nx + p + m
    reg = np.concatenate([np.full(nx, 1e-11), np.full(p + m, -1e-11)])

    def done(st, sc, x, y, z, s, q):
        return dict(status=st, x=x / sc, y=(y if U is None else U @ y) / sc / rs, z=z / sc, s=s / sc,
                    pobj=c @ x / sc, dobj=-(b @ y + h @ z) / sc, quality=q)

    for it in range(maxit):
        r1 = A.T @ y + G.T @ z + c * tau
        r2 = A @ x - b * tau
        r3 = G @ x + s - h * tau
        r4 = kap + c @ x + b @ y + h @ z
        mu = (s @ z + kap * tau) / (K.nu + 1)
        # checks
        pr = max(np.linalg.norm(r2) / nb, np.linalg.norm(r3) / nh) / tau
        dr = np.linalg.norm(r1) / nc / tau
        po, do = c @ x / tau, -(b @ y + h @ z) / tau
        gap = abs(po - do) / (1 + min(abs(po), abs(do)))
        q = max(pr, dr, gap)
        if best is None or q < best[0]:
            best = (q, 'optimal', tau, x.copy(), y.copy(), z.copy(), s.copy())
        if q < tol:
            return done('optimal', tau, x, y, z, s, q)
        hz = b @ y + h @ z
        if hz < 0:
            qi = np.linalg.norm(A.T @ y + G.T @ z) / (-hz)
            if qi < 1e-9:
                return done('pinf', -hz, x, y, z, s, qi)
        cx = c @ x
        if cx < 0:
            qi = max(np.linalg.norm(A @ x), np.linalg.norm(G @ x + s)) / (-cx)
            if qi < 1e-9:
                return done('dinf', -cx, x, y, z, s, qi)
        if mu < 1e-18:
            break
        try:
            d, Rs, lam = _scaling(K, s, z)
        except np.linalg.LinAlgError:
            break
        W2 = _W2(K, d, Rs)
        KK = np.zeros((N, N))
        KK[:nx, nx:nx + p] = A.T
        KK[nx:nx + p, :nx] = A
        KK[:nx, nx + p:] = G.T
        KK[nx + p:, :nx] = G
        KK[nx + p:, nx + p:] = -W2
        Kr = KK + np.diag(reg)
        try:
            lu = lu_factor(Kr, check_finite=False)
        except Exception:
            break

        def ksolve(rhs):
            u = lu_solve(lu, rhs, check_finite=False)
            for _ in range(3):
                u = u + lu_solve(lu, rhs - KK @ u, check_finite=False)
            return u
        lv = _lamvec(K, lam)
        u1 = ksolve(np.concatenate([-c, b, h]))
        den = c @ u1[:nx] + b @ u1[nx:nx + p] + h @ u1[nx + p:] - kap / tau

        def step(sig, rc, rk):
            ld = _jdiv(K, lam, rc)
            wl = _app(K, ld, d, Rs, 'WT')
            u2 = ksolve(np.concatenate([-(1 - sig) * r1, -(1 - sig) * r2,
                                        -(1 - sig) * r3 - wl]))
            dt = (-(1 - sig) * r4 - rk / tau - c @ u2[:nx]
                  - b @ u2[nx:nx + p] - h @ u2[nx + p:]) / den
            u = u2 + dt * u1
            dz = u[nx + p:]
            wdz = _app(K, dz, d, Rs, 'W')
            wds = ld - wdz
            ds = _app(K, wds, d, Rs, 'WT')
            dk = (rk - kap * dt) / tau
            return u[:nx], u[nx:nx + p], dz, ds, dt, dk, wdz, wds

        def alpha(st):
            dx, dy, dz, ds, dt, dk, wdz, wds = st
            a = min(_maxstep(K, lam, wdz), _maxstep(K, lam, wds))
            if dt < 0:
                a = min(a, -tau / dt)
            if dk < 0:
                a = min(a, -kap / dk)
            return a
        try:
            st = step(0.0, -_jprod(K, lv, lv), -kap * tau)
            a = min(1.0, alpha(st))
            sig = (1 - a) ** 3
            rc = sig * mu * e - _jprod(K, lv, lv) - _jprod(K, st[7], st[6])
            rk = sig * mu - kap * tau - st[4] * st[5]
            st = step(sig, rc, rk)
            a = min(1.0, 0.99 * alpha(st))
        except (np.linalg.LinAlgError, ValueError):
            break
        if not np.isfinite(a) or not all(np.all(np.isfinite(q)) for q in st[:4]):
            break
        x = x + a * st[0]
        y = y + a * st[1]
        z = z + a * st[2]
        s = s + a * st[3]
        tau += a * st[4]
        kap += a * st[5]
        if a < 1e-7:
            break
        # rescale to avoid drift
        f = max(tau, kap)
        if f < 1e-3 or f > 1e3:
            x, y, z, s, tau, kap = x / f, y / f, z / f, s / f, tau / f, kap / f
    # final looser tests
    hz, cx = b @ y + h @ z, c @ x
    if hz < 0:
        qi = np.linalg.norm(A.T @ y + G.T @ z) / (-hz)
        if qi < 1e-7:
            return done('pinf', -hz, x, y, z, s, qi)
    if cx < 0:
        qi = max(np.linalg.norm(A @ x), np.linalg.norm(G @ x + s)) / (-cx)
        if qi < 1e-7:
            return done('dinf', -cx, x, y, z, s, qi)
    if best and best[0] < acc:
        q, stt, t, x, y, z, s = best
        return done('optimal', t, x, y, z, s, q)
    return dict(status='unknown', x=None, y=None, z=None, s=None,
                pobj=None, dobj=None, quality=best[0] if best else None)
