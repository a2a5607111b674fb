"""The linear program of an inflation, written out by brute force: a symmetric
non-negative probability for every set of jointly measurable events, with
consistent marginals.  Nothing of the library is used."""
import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog
from .runner import Discard


class BruteLP:
    def __init__(self, R, limit=4000):
        self.R = R
        C = R.comm
        tmpl = {}
        for i, (p, c, x, a) in enumerate(R.ops):
            tmpl.setdefault((p, c, x), []).append(i)
        T = list(tmpl.values())
        comp = [[bool(C[s[0], t[0]]) for t in T] for s in T]
        events = [()]
        where = {(): ()}                    # event -> templates used
        layer = [((), ())]
        while layer:
            nxt = []
            for ev, ts in layer:
                for k in range(ts[-1] + 1 if ts else 0, len(T)):
                    if all(comp[k][j] for j in ts):
                        for o in T[k]:
                            nxt.append((ev + (o,), ts + (k,)))
            for ev, ts in nxt:
                events.append(ev)
                where[ev] = ts
            if len(events) > limit:
                raise Discard("program too large")
            layer = nxt
        # symmetric copies carry one variable
        perms = np.array(R.perms)
        self.var, self.reps = {}, []
        for ev in events:
            if ev in self.var:
                continue
            k = len(self.reps)
            self.reps.append(ev)
            img = np.sort(perms[:, list(ev)], axis=1) if ev else np.zeros((1, 0), int)
            for q in set(map(tuple, img.tolist())):
                self.var[q] = k
        self.n = len(self.reps)
        r, c, d = [], [], []
        row = 0
        for ev in self.reps:
            ts = where[ev]
            for k in range(len(T)):
                if k in ts or not all(comp[k][j] for j in ts):
                    continue
                r.append(row), c.append(self.var[ev]), d.append(-1.)
                for o in T[k]:
                    r.append(row), c.append(self.var[tuple(sorted(ev + (o,)))]), d.append(1.)
                row += 1
        self.Aeq = sp.csr_array((d, (r, c)), shape=(row, self.n))
        self.beq = np.zeros(row)

    def index(self, parts):
        """variable of a product given by words of its independent parts (any
        choice of copies within each part); None if not jointly measurable"""
        if not parts:
            return 0
        # place the parts on disjoint copies
        key = tuple(sorted(self.R.rep(f, conj=False) for f in parts))
        return self.by_key.get(key)

    @property
    def by_key(self):
        if not hasattr(self, "_bk"):
            self._bk = {self.key(ev): k for k, ev in enumerate(self.reps)}
        return self._bk

    def key(self, ev):
        return tuple(sorted(self.R.rep(f, conj=False) for f in self.R.factors(list(ev))))

    def maximal(self):
        """representatives of events that cannot be extended"""
        rows = set()
        A = self.Aeq.tocoo()
        for i, j, v in zip(A.row, A.col, A.data):
            if v < 0:
                rows.add(int(j))
        return [k for k in range(self.n) if k not in rows]

    def solve(self, obj, fixed=(), ties=(), lower=(), upper=(), extra_eq=(), extra_ub=()):
        """min obj.  fixed: (var, value); ties: (var, coeff, var2); extra
        rows: dicts var->coeff (None = constant), == 0 or >= 0.
        -> (status, value, slack) """
        lo, up = np.zeros(self.n), np.full(self.n, np.inf)
        lo[0] = up[0] = 1.
        rows, rhs = [], []
        for k, v in fixed:
            rows.append({k: 1.}), rhs.append(v)
        for k, c, k2 in ties:
            d = {k: 1.}
            d[k2] = d.get(k2, 0.) - c
            rows.append(d), rhs.append(0.)
        for e in extra_eq:
            rows.append(dict(e)), rhs.append(0.)
        for k, v in lower:
            lo[k] = max(lo[k], v)
        for k, v in upper:
            up[k] = min(up[k], v)
        Aeq, beq = self.Aeq, self.beq
        if rows:
            Aeq = sp.vstack([Aeq, _mat(rows, self.n)]).tocsr()
            beq = np.concatenate([beq, rhs])
        Aub = bub = None
        if extra_ub:
            Aub, bub = -_mat(list(extra_ub), self.n), np.zeros(len(extra_ub))
        if (lo > up).any():
            return "infeasible", None
        r = linprog(obj, Aub, bub, Aeq, beq, bounds=np.column_stack([lo, up]), method="highs")
        if r.status == 0:
            return "feasible", r.fun
        if r.status == 3:
            return "unbounded", None
        # how far from feasible?
        ne = Aeq.shape[0]
        nu = 0 if Aub is None else Aub.shape[0]
        I = sp.eye_array(ne)
        A1 = sp.hstack([Aeq, I, -I, sp.csr_array((ne, nu))])
        U1 = None
        if nu:
            U1 = sp.hstack([Aub, sp.csr_array((nu, 2 * ne)), -sp.eye_array(nu)])
        lo1 = np.concatenate([lo, np.zeros(2 * ne + nu)])
        up1 = np.concatenate([up, np.full(2 * ne + nu, np.inf)])
        c1 = np.concatenate([np.zeros(self.n), np.ones(2 * ne + nu)])
        r1 = linprog(c1, U1, bub, A1, beq, bounds=np.column_stack([lo1, up1]), method="highs")
        if r1.status == 0 and r1.fun > 1e-5:
            return "infeasible", None
        raise Discard("borderline feasibility")


def _mat(rows, n):
    r, c, d = [], [], []
    for i, e in enumerate(rows):
        for k, v in e.items():
            r.append(i), c.append(k), d.append(float(v))
    return sp.csr_array((d, (r, c)), shape=(len(rows), n))
