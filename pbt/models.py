"""Concrete realisations of a scenario: classical models (deterministic
functions of source values) and hybrid quantum models (real pure states,
projective measurements, unitaries at quantum latents).  All numbers are
derived from one integer seed, so a case is a pure function of its JSON."""
import itertools
import math

import numpy as np


class ClassicalModel:
    """Values of the sources, party outcomes f_p(values, effective setting)."""

    def __init__(self, ref, seed, d=2, sparse=False):
        self.ref = ref
        r = np.random.default_rng(seed)
        self.d = [int(d)] * ref.S
        self.w = []
        for s in range(ref.S):
            w = r.integers(1, 8, self.d[s]).astype(float)
            if sparse and r.random() < .5:
                w[r.integers(self.d[s])] = 0
                if w.sum() == 0:
                    w[0] = 1
            self.w.append(w / w.sum())
        self.f = []
        for p in range(ref.n):
            shape = [self.d[s] for s in ref.fed[p]] + [len(ref.eff[p])]
            f = r.integers(0, ref.out[p], shape)
            if sparse and r.random() < .3:
                f[...] = r.integers(ref.out[p])
            self.f.append(f)

    # ---- observable distribution
    def distribution(self):
        R = self.ref
        P = np.zeros(tuple(R.out) + tuple(R.priv))
        topo = _topo(R)
        for vals in itertools.product(*[range(d) for d in self.d]):
            pr = math.prod(self.w[s][v] for s, v in enumerate(vals))
            if pr == 0:
                continue
            for xs in itertools.product(*[range(x) for x in R.priv]):
                a = [None] * R.n
                for p in topo:
                    e = R.eff[p].index((xs[p],) + tuple(a[q] for q in R.parents[p]))
                    a[p] = self.f[p][tuple(vals[s] for s in R.fed[p]) + (e,)]
                P[tuple(a) + xs] += pr
        return P

    # ---- inflated sample space
    def _space(self):
        if hasattr(self, "_om"):
            return
        R = self.ref
        axes = [(s, c) for s in range(R.S) for c in range(R.lev[s])]
        pos = {ax: i for i, ax in enumerate(axes)}
        grids = np.indices([self.d[s] for s, _ in axes]).reshape(len(axes), -1)
        w = np.ones(grids.shape[1])
        for i, (s, c) in enumerate(axes):
            w = w * self.w[s][grids[i]]
        self._om, self._w, self._pos = grids, w, pos
        self._opv = {}

    def opvec(self, i):
        self._space()
        if i not in self._opv:
            R = self.ref
            p, c, x, a = R.ops[i]
            idx = tuple(self._om[self._pos[(s, c[s] - 1)]] for s in R.fed[p])
            idx = idx + (np.full(self._om.shape[1], x),)
            self._opv[i] = self.f[p][idx] == a
        return self._opv[i]

    def moment(self, w):
        self._space()
        v = self._w
        for i in w:
            v = v * self.opvec(i)
        return float(v.sum())

    def gram(self, words):
        self._space()
        M = np.empty((len(words), self._om.shape[1]))
        for k, w in enumerate(words):
            v = np.sqrt(self._w)
            for i in w:
                v = v * self.opvec(i)
            M[k] = v
        return M @ M.T


def _topo(R):
    done, order = set(), []
    while len(order) < R.n:
        for p in range(R.n):
            if p not in done and all(q in done for q in R.parents[p]):
                done.add(p)
                order.append(p)
    return order


class QuantumModel:
    """Hybrid model.  Every source copy carries a classical value; quantum
    sources carry in addition a real pure state of qubits (one subsystem per
    direct visible child and per quantum-latent child) that may depend on the
    value.  Classical values of a classical source are read by everything it
    reaches; those of a quantum source only by what it reaches through
    classical latents."""

    def __init__(self, ref, seed, nv=2):
        R = self.ref = ref
        r = np.random.default_rng(seed)
        spec = R.spec
        P = {x: i for i, x in enumerate(R.names)}
        self.P = P
        nil, cil = spec["nil"], spec["cil"]
        # number of classical values
        self.nvals = []
        for s, name in enumerate(R.sources):
            reach_c = R.cl[s] or any(ch in cil for ch in R.dag[name])
            self.nvals.append(nv if reach_c else 1)
        self.w = []
        for s in range(R.S):
            w = r.integers(1, 6, self.nvals[s]).astype(float)
            self.w.append(w / w.sum())
        # qubits per latent input
        self.lat_in = {L: [s for s, nm in enumerate(R.sources)
                           if L in R.dag[nm]] for L in nil}
        self.lat_out = {L: [P[c] for c in R.dag[L]] for L in nil}
        per = {}
        for L in nil:
            qs = [s for s in self.lat_in[L] if not R.cl[s]]
            k = max(1, len(qs))
            per[L] = max(1, math.ceil(len(self.lat_out[L]) / k))
        # qubit layout of one copy of each source: list of (owner, index)
        self.layout = []
        for s, name in enumerate(R.sources):
            lay = []
            if not R.cl[s]:
                for ch in R.dag[name]:
                    if ch in P:
                        lay.append((("p", P[ch]), 0))
                    elif ch in nil:
                        lay += [(("L", ch), j) for j in range(per[ch])]
            self.layout.append(lay)
        self.nq = [len(l) for l in self.layout]
        # states per classical value
        self.psi = []
        for s in range(R.S):
            k = []
            for v in range(self.nvals[s]):
                x = r.normal(size=2 ** self.nq[s])
                if r.random() < .3 and self.nq[s] >= 2:   # maximally entangled-ish
                    x = np.zeros(2 ** self.nq[s])
                    x[0] = x[-1] = 1
                k.append(x / np.linalg.norm(x))
            self.psi.append(k)
        self.rng_seed = seed
        self._unit, self._meas = {}, {}

    @property
    def bits(self):
        R = self.ref
        return sum(R.lev[s] * (self.nq[s] + math.log2(self.nvals[s]))
                   for s in range(R.S))

    # ---- which classical contexts
    def _ctx_sources(self, p):
        R = self.ref
        out = set()
        for s, via in R.paths[p]:
            if R.cl[s]:
                out.add(s)
            elif via in R.spec["cil"]:
                out.add(s)
        return sorted(out)

    def _lat_ctx(self, L):
        return [s for s in self.lat_in[L] if self.ref.cl[s]]

    def _lat_qubits(self, L):
        R = self.ref
        q = []
        for s in self.lat_in[L]:
            if not R.cl[s]:
                q += [(s, k) for k, (o, j) in enumerate(self.layout[s]) if o == ("L", L)]
        return q

    def _orth(self, key, n):
        import zlib
        r = np.random.default_rng([self.rng_seed, zlib.crc32(repr(key).encode())])
        if r.random() < .15:
            return np.eye(n)
        q, _ = np.linalg.qr(r.normal(size=(n, n)))
        return q

    def _latU(self, L, ctx):
        n = len(self._lat_qubits(L))
        return self._orth(("U", L, ctx), 2 ** n)

    def qubits_of(self, p):
        """[(source, index within copy)] read by party p, direct first."""
        R = self.ref
        q = []
        for s in range(R.S):
            q += [(s, k) for k, (o, j) in enumerate(self.layout[s]) if o == ("p", p)]
        for L in R.spec["nil"]:
            if p in self.lat_out[L]:
                q += self._lat_qubits(L)
        return q

    def opmatrix(self, p, x, a, ctx):
        """matrix on qubits_of(p); ctx: dict source -> classical value."""
        R = self.ref
        c = tuple((s, ctx[s]) for s in self._ctx_sources(p))
        key = (p, x, a, c)
        if key in self._meas:
            return self._meas[key]
        direct = [q for q in self.qubits_of(p)
                  if self.layout[q[0]][q[1]][0] == ("p", p)]
        Ls = [L for L in R.spec["nil"] if p in self.lat_out[L]]
        # output qubits of each latent that go to p
        outs = []
        for L in Ls:
            kids = self.lat_out[L]
            n = len(self._lat_qubits(L))
            mine = [j for j in range(n) if kids[j % len(kids)] == p]
            outs.append((L, n, mine))
        ndim = len(direct) + sum(len(m) for _, _, m in outs)
        import zlib
        B = self._orth(("M", p, x, c), 2 ** ndim)
        r = np.random.default_rng([self.rng_seed, zlib.crc32(repr(("Z", p, x, c)).encode())])
        assign = r.integers(0, R.out[p], 2 ** ndim)
        cols = B[:, assign == a]
        M = cols @ cols.T            # projector on direct + own outputs
        # embed to direct + all latent qubits, then conjugate by the unitaries
        n_all = len(direct) + sum(n for _, n, _ in outs)
        pos = list(range(len(direct)))
        o = len(direct)
        for L, n, mine in outs:
            pos += [o + j for j in mine]
            o += n
        F = embed(M, pos, n_all)
        o = len(direct)
        for L, n, mine in outs:
            lc = tuple((s, ctx[s]) for s in self._lat_ctx(L))
            U = embed(self._latU(L, lc), list(range(o, o + n)), n_all)
            F = U.T @ F @ U
            o += n
        self._meas[key] = F
        return F

    # ---- inflated states
    def _space(self):
        if hasattr(self, "_V"):
            return
        R = self.ref
        axes = [(s, c) for s in range(R.S) for c in range(R.lev[s])]
        self._axes = axes
        qpos, o = {}, 0
        for s, c in axes:
            for k in range(self.nq[s]):
                qpos[(s, c, k)] = o
                o += 1
        self._qpos, self._Q = qpos, o
        vals = list(itertools.product(*[range(self.nvals[s]) for s, _ in axes]))
        V = []
        for v in vals:
            w = 1.0
            x = np.ones(1)
            for (s, c), vv in zip(axes, v):
                w *= self.w[s][vv]
                x = np.kron(x, self.psi[s][vv])
            V.append(np.sqrt(w) * x)
        self._vals, self._V = vals, np.array(V)
        self._ax = {a: i for i, a in enumerate(axes)}

    def apply(self, i, T):
        """Apply operator i to the block vector T (|V|, 2^Q)."""
        R = self.ref
        p, c, x, a = R.ops[i]
        qs = self.qubits_of(p)
        pos = [self._qpos[(s, c[s] - 1, k)] for s, k in qs]
        cs = self._ctx_sources(p)
        # latent contexts are classical sources reaching p through the latent
        out = np.empty_like(T)
        groups = {}
        for b, v in enumerate(self._vals):
            key = tuple(v[self._ax[(s, c[s] - 1)]] for s in cs)
            groups.setdefault(key, []).append(b)
        for key, bs in groups.items():
            ctx = dict(zip(cs, key))
            M = self.opmatrix(p, x, a, ctx)
            out[bs] = apply_qubits(M, pos, T[bs], self._Q)
        return out

    def vec(self, w):
        self._space()
        memo = self.__dict__.setdefault("_vm", {(): self._V})
        w = tuple(w)
        if w not in memo:
            memo[w] = self.apply(w[0], self.vec(w[1:]))
        return memo[w]

    def moment(self, w):
        self._space()
        w = tuple(w)
        h = len(w) // 2
        l, r = self.vec(w[:h][::-1]), self.vec(w[h:])
        return float(np.sum(l * r))

    def gram(self, words):
        """<(w_i)^dagger w_j>"""
        self._space()
        M = np.array([self.vec(w).ravel() for w in words])
        return M @ M.T

    def distribution(self):
        """p(a|x) of the original scenario via the first copies."""
        R = self.ref
        P = np.zeros(tuple(R.out) + tuple(R.priv))
        for a in itertools.product(*[range(o) for o in R.out]):
            for xs in itertools.product(*[range(x) for x in R.priv]):
                w = []
                for p in range(R.n):
                    e = R.eff[p].index((xs[p],) + tuple(a[q] for q in R.parents[p]))
                    c = tuple(1 if s in R.fed[p] else 0 for s in range(R.S))
                    R.ops
                    w.append(R.idx[(p, c, e, a[p])])
                P[a + xs] = self.moment(w)
        return P


def embed(M, pos, n):
    k = len(pos)
    T = M.reshape((2,) * (2 * k))
    E = np.eye(2 ** n).reshape((2,) * (2 * n))
    # apply M on row axes pos of the identity
    X = np.tensordot(T, E, axes=(list(range(k, 2 * k)), pos)) if k else M.reshape(()) * E
    if k:
        rest = [i for i in range(2 * n) if i not in pos]
        order = list(pos) + rest
        X = np.transpose(X, np.argsort(order))
    return X.reshape(2 ** n, 2 ** n)


def apply_qubits(M, pos, T, n):
    """T: (m, 2^n)."""
    k = len(pos)
    m = T.shape[0]
    if k == 0:
        return M.reshape(()) * T
    X = T.reshape((m,) + (2,) * n)
    Y = np.tensordot(M.reshape((2,) * (2 * k)), X,
                     axes=(list(range(k, 2 * k)), [1 + p for p in pos]))
    rest = [i for i in range(n + 1) if i - 1 not in pos]
    order = [1 + p for p in pos] + rest
    Y = np.transpose(Y, np.argsort(order))
    return Y.reshape(m, 2 ** n)
