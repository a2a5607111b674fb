"""Stand-in for the (unlicensed) Mosek optimizer.

``mosek.Task.optimize`` is replaced by a function that reads the problem out of
the real Mosek task through its public getters, solves it with HiGHS (LP) or
with ``ipm`` (SDP), and writes the verified solution back with the public
setters.  Everything else of Mosek (task building, Fusion modelling) is real,
so the code under test is exercised exactly as shipped.

``install()`` returns a Log object; every solved task is appended to
``log.tasks`` (as plain arrays) when ``log.keep`` is set.
"""
import numpy as np
from scipy.optimize import linprog
import scipy.sparse as sp
from . import ipm

_state = {}


class Log:
    def __init__(self):
        self.keep = False
        self.tasks = []
        self.n = 0
        self.unknown = 0
        self.force = None       # None | "unknown"


LOG = Log()


def _extract(task):
    import mosek
    bk = mosek.boundkey
    nv, nc, nb = task.getnumvar(), task.getnumcon(), task.getnumbarvar()
    c = np.zeros(nv)
    if nv:
        c[:] = task.getcslice(0, nv)
    A = sp.coo_array((nc, nv))
    if nv and nc:
        ri, ci, v = task.getarowslicetrip(0, nc)
        A = sp.coo_array((np.asarray(v, float), (ri, ci)), shape=(nc, nv))
    inf = np.inf

    def bounds(t):
        keys, lo, up = t
        L, U = np.full(len(keys), -inf), np.full(len(keys), inf)
        for i, k in enumerate(keys):
            k = bk(int(k)) if not isinstance(k, bk) else k
            if k in (bk.lo, bk.ra, bk.fx):
                L[i] = lo[i]
            if k in (bk.up, bk.ra):
                U[i] = up[i]
            if k == bk.fx:
                U[i] = lo[i]
        return L, U
    cl, cu = bounds(task.getconboundslice(0, nc)) if nc else (np.zeros(0),) * 2
    vl, vu = bounds(task.getvarboundslice(0, nv)) if nv else (np.zeros(0),) * 2
    dims = [task.getdimbarvarj(j) for j in range(nb)]
    barA, barC = [], []
    if nb:
        n, i, j, k, l, v = task.getbarablocktriplet()
        barA = list(zip(i[:n], j[:n], k[:n], l[:n], v[:n]))
        n, j, k, l, v = task.getbarcblocktriplet()
        barC = list(zip(j[:n], k[:n], l[:n], v[:n]))
    return dict(nv=nv, nc=nc, c=c, c0=task.getcfix(), A=A, cl=cl, cu=cu,
                vl=vl, vu=vu, dims=dims, barA=barA, barC=barC,
                max=(task.getobjsense() == mosek.objsense.maximize))


def _linprog(c, A, cl, cu, vl, vu):
    """min c x; returns (status, x, y, obj). y = d obj / d rhs."""
    m = A.shape[0]
    A = sp.csr_array(A)
    eq = np.flatnonzero((cl == cu) & np.isfinite(cl))
    lo = np.flatnonzero(np.isfinite(cl) & (cl != cu))
    up = np.flatnonzero(np.isfinite(cu) & (cl != cu))
    Aub = sp.vstack([-A[lo], A[up]]) if len(lo) + len(up) else None
    bub = np.concatenate([-cl[lo], cu[up]]) if len(lo) + len(up) else None
    Aeq = A[eq] if len(eq) else None
    beq = cl[eq] if len(eq) else None
    if np.any(cl > cu) or np.any(vl > vu):
        return 'infeasible', None, None, None
    if A.shape[1] == 0:
        return None, None, None, None
    r = linprog(c, Aub, bub, Aeq, beq, bounds=np.column_stack([vl, vu]),
                method='highs-ds')
    if r.status == 4:
        r = linprog(c, Aub, bub, Aeq, beq, bounds=np.column_stack([vl, vu]),
                    method='highs-ipm')
    y = np.zeros(m)
    if r.status == 0:
        if len(eq):
            y[eq] = r.eqlin.marginals
        if len(lo) + len(up):
            mg = r.ineqlin.marginals
            np.add.at(y, lo, -mg[:len(lo)])
            np.add.at(y, up, mg[len(lo):])
        return 'optimal', r.x, y, r.fun
    return {2: 'infeasible', 3: 'unbounded'}.get(r.status, 'unknown'), None, None, None


def _solve_lp(P):
    sgn = -1.0 if P['max'] else 1.0
    c, A, cl, cu, vl, vu = (P[k] for k in ('c', 'A', 'cl', 'cu', 'vl', 'vu'))
    c = sgn * c
    nv, nc = P['nv'], P['nc']
    st, x, y, obj = _linprog(c, A, cl, cu, vl, vu)
    if st == 'optimal':
        return 'optimal', x, sgn * y, [], [], sgn * obj + P['c0'], sgn * obj + P['c0']
    if st == 'unknown' or st is None:
        return ('unknown',) + (np.zeros(nv), np.zeros(nc), [], [], 0., 0.)
    # phase 1 : is it really infeasible?
    I = sp.eye_array(nc)
    A1 = sp.hstack([sp.csr_array(A), I, -I])
    c1 = np.concatenate([np.zeros(nv), np.ones(2 * nc)])
    l1 = np.concatenate([vl, np.zeros(2 * nc)])
    u1 = np.concatenate([vu, np.full(2 * nc, np.inf)])
    st1, x1, y1, o1 = _linprog(c1, A1, cl, cu, l1, u1)
    if st1 != 'optimal':
        return ('unknown',) + (np.zeros(nv), np.zeros(nc), [], [], 0., 0.)
    if o1 > 1e-7:
        y = y1 / o1
        return 'pinf', np.zeros(nv), sgn * y, [], [], 0., sgn * 1.0
    # ray
    inf = np.inf
    rl = np.where(np.isfinite(vl), 0, -1.)
    ru = np.where(np.isfinite(vu), 0, 1.)
    rcl = np.where(np.isfinite(cl), 0, -inf)
    rcu = np.where(np.isfinite(cu), 0, inf)
    st2, x2, _, o2 = _linprog(c, A, rcl, rcu, rl, ru)
    if st2 == 'optimal' and o2 < -1e-7:
        x = x2 / -o2
        return 'dinf', x, np.zeros(nc), [], [], sgn * -1.0, 0.
    return ('unknown',) + (np.zeros(nv), np.zeros(nc), [], [], 0., 0.)


def _solve_conic(P):
    sgn = -1.0 if P['max'] else 1.0
    nv, nc, dims = P['nv'], P['nc'], P['dims']
    tri = [n * (n + 1) // 2 for n in dims]
    off = np.concatenate([[nv], nv + np.cumsum(tri)]).astype(int)
    N = off[-1]
    lookup = []
    for n in dims:
        T = np.zeros((n, n), int)
        i, j = np.triu_indices(n)
        T[i, j] = np.arange(len(i))
        T[j, i] = T[i, j]
        lookup.append(T)
    A = np.zeros((nc, N))
    if nc and nv:
        A[:, :nv] = P['A'].toarray()
    for i, j, k, l, v in P['barA']:
        A[i, off[j] + lookup[j][k, l]] += v * (1.0 if k == l else ipm.SQ2)
    c = np.zeros(N)
    c[:nv] = P['c']
    for j, k, l, v in P['barC']:
        c[off[j] + lookup[j][k, l]] += v * (1.0 if k == l else ipm.SQ2)
    c = sgn * c
    cl, cu, vl, vu = P['cl'], P['cu'], P['vl'], P['vu']
    E = np.eye(N)
    # fixed variables as equalities
    fx = np.flatnonzero(vl == vu)
    eq = np.flatnonzero(cl == cu)
    lo = np.flatnonzero(np.isfinite(cl) & (cl != cu))
    up = np.flatnonzero(np.isfinite(cu) & (cl != cu))
    vlo = np.flatnonzero(np.isfinite(vl) & (vl != vu))
    vup = np.flatnonzero(np.isfinite(vu) & (vl != vu))
    Aeq = np.vstack([A[eq], E[fx]])
    beq = np.concatenate([cl[eq], vl[fx]])
    G = np.vstack([-A[lo], A[up], -E[vlo], E[vup], -E[nv:]])
    h = np.concatenate([-cl[lo], cu[up], -vl[vlo], vu[vup], np.zeros(N - nv)])
    l = len(lo) + len(up) + len(vlo) + len(vup)
    r = ipm.solve(c, Aeq, beq, G, h, l, dims)
    for k in range(2):
        if r['status'] != 'unknown':
            break
        rng = np.random.default_rng(k)
        q = rng.permutation(len(beq))
        f = rng.uniform(.5, 2)
        r = ipm.solve(c * f, Aeq[q], beq[q], G, h, l, dims, maxit=120)
        if r['status'] != 'unknown':
            y0 = np.zeros(len(beq))
            y0[q] = r['y']
            r['y'] = y0
            for key in ('y', 'z'):
                if r['status'] == 'optimal':
                    r[key] = r[key] / f
            r['x'] = r['x'] * (f if r['status'] == 'dinf' else 1.0)
            r['pobj'], r['dobj'] = r['pobj'] / f, r['dobj'] / f
    st = r['status']
    if st == 'unknown':
        return ('unknown', np.zeros(nv), np.zeros(nc),
                [np.zeros(t) for t in tri], [np.zeros(t) for t in tri], 0., 0.)

    def unpack(v):
        out = []
        for j, n in enumerate(dims):
            M = ipm.smat(v[off[j] - nv:off[j + 1] - nv], n)
            # Mosek order: column-major lower triangle
            out.append(np.concatenate([M[q:, q] for q in range(n)]) if n else np.zeros(0))
        return out
    y = np.zeros(nc)
    y[eq] -= r['y'][:len(eq)]
    y[lo] += r['z'][:len(lo)]
    y[up] -= r['z'][len(lo):len(lo) + len(up)]
    S = unpack(r['z'][l:])
    x = r['x']
    X = unpack(x[nv:])
    if st == 'pinf':
        return ('pinf', np.zeros(nv), sgn * y, [0 * q for q in X],
                [sgn * q for q in S], 0., sgn * 1.0)
    if st == 'dinf':
        return ('dinf', x[:nv], np.zeros(nc), X, [0 * q for q in S], -sgn, 0.)
    return ('optimal', x[:nv], sgn * y, X, [sgn * q for q in S],
            sgn * r['pobj'] + P['c0'], sgn * r['dobj'] + P['c0'])


def _optimize(self, *a, **k):
    import mosek
    P = _extract(self)
    LOG.n += 1
    if LOG.keep:
        LOG.tasks.append(P)
    if LOG.force == 'unknown':
        res = ('unknown', np.zeros(P['nv']), np.zeros(P['nc']),
               [np.zeros(n * (n + 1) // 2) for n in P['dims']],
               [np.zeros(n * (n + 1) // 2) for n in P['dims']], 0., 0.)
    elif P['dims']:
        res = _solve_conic(P)
    else:
        res = _solve_lp(P)
        if res[0] == 'unknown' and P['nv']:
            res = _solve_conic(P)
    st, x, y, X, S, po, do = res
    if st == 'unknown':
        LOG.unknown += 1
    nv, nc = P['nv'], P['nc']
    sk = mosek.stakey
    xc = np.zeros(nc)
    if nv and nc:
        xc = np.asarray(sp.csr_array(P['A']) @ x)
    slc, suc = np.maximum(y, 0), np.maximum(-y, 0)
    if P['max']:
        slc, suc = np.minimum(y, 0), np.minimum(-y, 0)
    rc = P['c'] * (st == 'optimal') - (np.asarray(sp.csr_array(P['A']).T @ y) if nc and nv else 0) if nv else np.zeros(0)
    rc = np.asarray(rc, float).reshape(nv)
    slx, sux = np.maximum(rc, 0), np.maximum(-rc, 0)
    if P['max']:
        slx, sux = np.minimum(rc, 0), np.minimum(-rc, 0)
    kinds = [mosek.soltype.itr] if P['dims'] else [mosek.soltype.itr, mosek.soltype.bas]
    for which in kinds:
        self.putsolution(which, [sk.unk] * nc, [sk.unk] * nv, [], xc, x, y,
                         slc, suc, slx, sux, np.zeros(nv))
        for j in range(len(P['dims'])):
            self.putbarxj(which, j, X[j])
            self.putbarsj(which, j, S[j])
    _state[id(self)] = (st, po, do)
    return mosek.rescode.ok


def install():
    import mosek
    if getattr(mosek.Task, '_standin', False):
        return LOG
    T = mosek.Task
    T._standin = True
    orig = dict(getsolution=T.getsolution, getsolsta=T.getsolsta,
                getprosta=T.getprosta, getprimalobj=T.getprimalobj,
                getdualobj=T.getdualobj)

    def sta(self):
        st = _state.get(id(self), ('unknown', 0., 0.))[0]
        S, Q = mosek.solsta, mosek.prosta
        return {'optimal': (Q.prim_and_dual_feas, S.optimal),
                'pinf': (Q.prim_infeas, S.prim_infeas_cer),
                'dinf': (Q.dual_infeas, S.dual_infeas_cer),
                'unknown': (Q.unknown, S.unknown)}[st]

    def getsolution(self, which, *a):
        r = orig['getsolution'](self, which, *a)
        return sta(self) + tuple(r[2:])
    T.optimize = _optimize
    T.getsolution = getsolution
    T.getsolsta = lambda self, w: sta(self)[1]
    T.getprosta = lambda self, w: sta(self)[0]
    T.getprimalobj = lambda self, w: _state.get(id(self), (0, 0., 0.))[1]
    T.getdualobj = lambda self, w: _state.get(id(self), (0, 0., 0.))[2]
    return LOG
