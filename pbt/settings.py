"""User settings on relaxations: notations, expected effect, reference programs."""
import warnings
import numpy as np
from hypothesis import strategies as st
from .common import pick, mixed_int
from .runner import check, Discard
from .scen import scenario, build, Ref
from .cols import colspec, choose
from .checks.c12 import FromLP
from .checks import c13


def make(case, kind, limit=None, spec=None):
    """a fresh relaxation -> prog, shift, moments"""
    R = Ref(case["spec"])
    opts = case.get("opts", {})
    if kind == "sdp":
        from inflation import InflationSDP
        p = InflationSDP(build(case["spec"]), include_all_outcomes=case["all"], **opts)
        cs, lab = choose(p, R, case["c"], limit or 10)
        if spec is not None:
            cs = spec
        p.generate_relaxation(cs)
        p._verif_spec = case["spec"]
        return p, 1, list(p.moments), cs
    from inflation import InflationLP
    p = InflationLP(build(case["spec"]), include_all_outcomes=case["all"], **opts)
    p._verif_spec = case["spec"]
    return p, 0, list(p.monomials), None


def alias(prog, m, form):
    """moment m in one of the accepted notations (a dictionary key)"""
    if m.is_one:
        return [m, m, 1, "1"][form % 4]
    f = form % 6
    if f == 1:
        return m.name
    if f == 2:
        return m.symbol
    if f == 3:
        return m.legacy_name
    if f == 4 and m.n_factors == 1:
        return m.factors[0]
    if f == 5 and m.n_factors == 1:
        sh = 1 if hasattr(prog, "momentmatrix") else 0
        R = Ref(prog._verif_spec)
        return tuple(tuple(int(v) for v in R.row(int(i) - sh)) for i in m.factors[0].as_lexmon)
    return m


def fill(R, shift, kind, moments, given, lpi, only):
    """(fixed, tied) moments implied by given values {moment: number}"""
    def akey(f):
        return R.rep([int(i) - shift for i in f.as_lexmon], conj=kind == "sdp")
    key = {akey(m.factors[0]): v for m, v in given.items() if m.n_factors == 1}
    wk, ws = dict(given), {}
    if only:
        return wk, ws
    for m in moments:
        if m in wk or m.n_factors < 2:
            continue
        have = [akey(f) in key for f in m.factors]
        v = 1.0
        for f, h in zip(m.factors, have):
            if h:
                v *= key[akey(f)]
        if all(have):
            wk[m] = v
        elif lpi and any(have):
            if v <= 1e-8:
                wk[m] = 0.
            else:
                ws[m] = (v, [f for f, h in zip(m.factors, have) if not h])
    return wk, ws


def from_distribution(R, shift, moments, dist, lpi, sr=False):
    wk, ws = {}, {}
    for m in moments:
        if m.is_one or m.is_zero:
            continue
        fs = [[int(i) - shift for i in f.as_lexmon] for f in m.factors]
        kn = [R.knowable(f) for f in fs]
        v = 1.0
        for f, k in zip(fs, kn):
            if k:
                v *= R.event_prob(f, dist)
        if sr:
            if len(fs) == 1 and kn[0]:
                wk[m] = v
        elif all(kn):
            wk[m] = v
        elif lpi and any(kn):
            if v <= 1e-8:
                wk[m] = 0.
            else:
                ws[m] = (v, [f for f, k in zip(m.factors, kn) if not k])
    return wk, ws


class Program:
    """reference program over names of moments: base relaxation + settings"""

    def __init__(self, prog, kind):
        self.kind = kind
        self.prog = prog
        if kind == "lp":
            b = FromLP(prog, prog.default_non_negative)
            nm = dict(zip(b.names, [m.name for m in b.mons]))
            self.names = [nm[k] for k in b.names]

            def tr(d):
                return {nm[k]: v for k, v in d.items()}
            self.eq, self.ineq = [tr(r) for r in b.eq], [tr(r) for r in b.ineq]
            self.lo, self.up = tr(b.lo), tr(b.up)
            self.one = nm[b.one]
            self.nn = b.nn
        else:
            self.one = prog.One.name
            self.names = [m.name for m in prog.moments]
            self.eq = [{m.name: float(v) for m, v in r.items()} for r in prog.minimal_equalities]
            self.ineq = [{m.name: float(v) for m, v in r.items()}
                         for r in prog.minimal_inequalities]
            self.lo = {m.name: 0. for m in prog.hermitian_moments}
            self.up = {}
            self.nn = False
            M = np.asarray(prog.momentmatrix)
            self.dim = len(M)
            self.masks = {prog.compmoment_from_idx[int(i)].name: (M == i).astype(float)
                          for i in np.unique(M)}
        self.known, self.semi, self.obj = {self.one: 1.}, {}, {}
        if kind == "sdp" and prog.momentmatrix_has_a_zero:
            self.known[prog.Zero.name] = 0.

    def add(self, s):
        """s: dict with obj, up, lo, eq, ineq, known, semi over moments"""
        for m, v in s.get("up", {}).items():
            self.up[m.name] = v
        for m, v in s.get("lo", {}).items():
            self.lo[m.name] = v
        for k in ("eq", "ineq"):
            for r in s.get(k, []):
                getattr(self, k).append({m.name: v for m, v in r.items()})
        for m, v in s.get("known", {}).items():
            self.known[m.name] = v
        for m, (c, fs) in s.get("semi", {}).items():
            u = self.prog._monomial_from_atoms(fs).name
            self.semi[m.name] = (c, u)
            if u not in self.names:
                self.names.append(u)
        self.obj = {m.name: v for m, v in s.get("obj", {}).items()}
        return self

    def reference(self):
        """max obj -> status, value, ill-posed"""
        if self.kind == "lp":
            q = FromLP.__new__(FromLP)
            q.names, q.nv = self.names, len(self.names)
            q.eq, q.ineq, q.obj, q.known, q.semi = self.eq, self.ineq, self.obj, self.known, self.semi
            q.lo, q.up, q.nn, q.one = self.lo, self.up, self.nn, self.one
            st_, v = q.reference()
            self.q = q
            return {"optimal": "feasible"}.get(st_, st_), v, False
        ineq = self.ineq + [{k: 1., self.one: -v} if k != self.one else {k: 1. - v}
                            for k, v in self.lo.items()] + \
            [{k: -1., self.one: v} if k != self.one else {k: v - 1.} for k, v in self.up.items()]
        self.all_ineq = ineq
        return c13.reference(self.masks, self.obj, self.known, self.semi, ineq, self.eq,
                             False, False, self.dim)

    def verify(self, x, tol):
        """solution values (by name) satisfy the program"""
        if self.kind == "lp":
            self.q.verify({k: x[k] for k in self.names}, "solution:", False, False, 0)
            full = x
        else:
            class P:
                pass
            p = P()
            p.known, p.semi, p.eq, p.ineq = self.known, self.semi, self.eq, self.all_ineq
            p.nn, p.masks, p.dim = False, self.masks, self.dim
            full, _ = c13.verify({k: v for k, v in x.items() if k in self.names}, p, "solution:",
                                 0., tol)
        return sum(v * full[k] for k, v in self.obj.items())


def poly(moments, ts, div=4.):
    """merge terms [index, numerator, form] -> {moment: coefficient}"""
    d = {}
    for k, v, f in ts:
        m = moments[k % len(moments)]
        d[m] = d.get(m, 0) + v / div
    return d


def polykeys(prog, moments, ts, div=4.):
    """the same as a dictionary in mixed notation"""
    d = {}
    for k, v, f in ts:
        a = alias(prog, moments[k % len(moments)], f)
        d[a] = d.get(a, 0) + v / div
    return d


def polysym(moments, ts, div=4):
    import sympy as sp
    e = sp.S.Zero
    for k, v, f in ts:
        m = moments[k % len(moments)]
        e += sp.Rational(v, div) * (m.symbol if not m.is_one else 1)
    return e


terms = st.lists(st.tuples(mixed_int(9973), st.integers(-8, 8), mixed_int(12)).map(list),
                 min_size=1, max_size=4)
