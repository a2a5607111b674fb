"""C18 relabelling."""
import itertools
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..cols import colspec
from .. import standin
from .c06 import moment_sym_key
from .c08 import behaviour
from .c14 import box

ID = "C18"
RULE = ("non-trivial: the relabelling is not the identity and the programs have moments of two or "
        "more operators; for optima, the optimum is not a constant of the data or the program is "
        "infeasible")
NAMES = ["Z", "Ab", "A", "B10", "B2", "mu", "C", "Bob", "zeta", "E5"]
SNAMES = ["s", "Lam", "h2", "h10", "h1", "U7", "k", "hh"]


def perm(rng, n, on):
    return list(rng.permutation(n)) if on else list(range(n))


class Relabelling:
    """spec -> spec2 with the correspondence of operators and of distributions"""

    def __init__(self, spec, case):
        R = self.R = Ref(spec)
        rng = np.random.default_rng(case["rseed"])
        how = case["how"]
        pi = self.pi = perm(rng, R.n, "p" in how)              # new party k is old party pi[k]
        names = list(rng.permutation(NAMES)[:R.n]) if "n" in how else [R.names[p] for p in pi]
        if "n" in how and case["sorted"]:
            names = sorted(names)
        names = [str(x) for x in names]
        new = {R.names[p]: names[k] for k, p in enumerate(pi)}
        so = self.so = perm(rng, R.S, "s" in how)
        sn = [str(x) for x in rng.permutation(SNAMES)[:R.S]] if "m" in how else None
        lat = list(spec["cil"]) + list(spec["nil"])
        for k, s in enumerate(so):
            new[R.sources[s]] = sn[k] if sn else R.sources[s]
        for i, x in enumerate(lat):
            new[x] = "Q%d" % (len(lat) - i) if sn else x
        dag = {k: list(v) for k, v in spec["dag"]}
        others = [k for k in dag if k not in R.sources]
        if "s" in how:
            rng.shuffle(others)
            others = [str(x) for x in others]
        keys = [R.sources[s] for s in so] + others
        if "s" in how:      # interleaved
            pos = sorted(rng.choice(len(keys), len(others), replace=False)) if others else []
            srcs, oth = iter(R.sources[s] for s in so), iter(others)
            keys = [next(oth) if i in pos else next(srcs) for i in range(len(keys))]
        else:
            keys = list(dag)
        self.sigma = [perm(rng, k, "x" in how) for k in R.priv]   # old -> new setting
        self.tau = [perm(rng, k, "o" in how) for k in R.out]
        order = names if names != sorted(names) or case["rseed"] % 2 else None

        def kids(k):
            v = [new[c] for c in dag[k]]
            if "s" in how:
                rng.shuffle(v)
            return [str(x) for x in v]
        self.spec = dict(
            dag=[[new[k], kids(k)] for k in keys], out=[R.out[p] for p in pi],
            set=[R.priv[p] for p in pi], lev=[R.lev[s] for s in so],
            cl=spec["cl"] if spec["cl"] == "all" else [new[s] for s in spec["cl"]],
            cil=[new[x] for x in spec["cil"]], nil=[new[x] for x in spec["nil"]], order=order)
        Q = self.Q = Ref(self.spec)
        self.trivial = (pi == sorted(pi) and so == sorted(so) and "n" not in how and "m" not in how
                        and all(t == sorted(t) for t in self.sigma + self.tau))
        inv = {p: k for k, p in enumerate(pi)}
        self.outcomes = any(t != sorted(t) for t in self.tau)
        self.map = []
        for p, c, x, a in R.ops:
            k = inv[p]
            e = R.eff[p][x]
            par = {inv[q]: self.tau[q][v] for q, v in zip(R.parents[p], e[1:])}
            e2 = (self.sigma[p][e[0]],) + tuple(par[q] for q in Q.parents[k])
            self.map.append(Q.idx[(k, tuple(c[s] for s in so), Q.eff[k].index(tuple(
                int(v) for v in e2)), int(self.tau[p][a]))] if Q.ops else None)

    def word(self, w):
        return [self.map[i] for i in w]

    def dist(self, P):
        n = self.R.n
        out = np.empty([self.R.out[p] for p in self.pi] + [self.R.priv[p] for p in self.pi])
        for i in np.ndindex(P.shape):
            a = [self.tau[p][i[p]] for p in self.pi]
            x = [self.sigma[p][i[n + p]] for p in self.pi]
            out[tuple(a + x)] = P[i]
        return out


def key(R, words):
    """of a product of independent parts, identified with its conjugate"""
    return min(tuple(sorted(R.rep(w, conj=False) for w in words)),
               tuple(sorted(R.rep(w[::-1], conj=False) for w in words)))


def words(m, shift):
    return [[int(i) - shift for i in f.as_lexmon] for f in m.factors]


def make(spec, case, kind):
    if kind == "sdp":
        from inflation import InflationSDP
        p = InflationSDP(build(spec), include_all_outcomes=case["all"])
        cols, cap = case["cols"]
        R = Ref(spec)
        if R.max_event_bound(False) > 4000 and cols.startswith("physical") or \
                cols.startswith("local") and len(R.ops) ** min(2 * R.n, cap or 9) > 9000 or \
                cols == "npa2" and len(R.ops) > 60:
            cols, cap = "npa1", 0
        spec = p.build_columns(cols, max_monomial_length=cap)
        if len(spec) > case["columns"]:
            raise Discard("too large")
        p.generate_relaxation(spec if cap else cols)
        return p, list(p.moments)
    from inflation import InflationLP
    p = InflationLP(build(spec), include_all_outcomes=case["all"],
                    default_non_negative=case["nn"])
    return p, list(p.monomials)


def run(case, ctx, kind, solve):
    standin.install()
    L = Relabelling(case["spec"], case)
    R, Q = L.R, L.Q
    shift = 1 if kind == "sdp" else 0
    a, ma = make(case["spec"], case, kind)
    if len(ma) > case["limit"]:
        raise Discard("too large")
    b, mb = make(L.spec, case, kind)
    compact = not case["all"] and any(
        t[-1] != len(t) - 1 for p, t in enumerate(L.tau) if not R.has_children[p])
    ctx.label("compact description with other outcomes" if compact else "one to one")
    sizes = [("parties", "nr_parties"), ("sources", "nr_sources")]
    for what, at in sizes:
        x, y = getattr(a.InflationProblem if hasattr(a, "InflationProblem") else a, at, None), \
            getattr(b.InflationProblem if hasattr(b, "InflationProblem") else b, at, None)
        check(x == y, "number of", what, x, "and", y)
    if kind == "sdp":
        check(a.n_columns == b.n_columns, "numbers of columns", a.n_columns, b.n_columns)
    na = {}
    if not compact:
        kb = {}
        for m in mb:
            k = "0" if m.is_zero else () if m.is_one else key(Q, words(m, shift))
            check(k not in kb, "two moments for", m, kb.get(k))
            kb[k] = m
        for m in ma:
            k = "0" if m.is_zero else () if m.is_one else \
                key(Q, [L.word(w) for w in words(m, shift)])
            check(k in kb, m, "has no counterpart after relabelling")
            na[m] = kb[k]
        check(len(ma) == len(mb), "numbers of moments", len(ma), len(mb))
        for m, q in na.items():
            check(m.is_knowable == q.is_knowable and m.knowability_status == q.knowability_status and
                  m.n_factors == q.n_factors and m.n_operators == q.n_operators,
                  m, "and", q, "have different properties")
        if kind == "sdp":
            counts = dict(hermitian=lambda p: len(p.hermitian_moments),
                          equalities=lambda p: len(p.minimal_equalities),
                          inequalities=lambda p: len(p.minimal_inequalities),
                          bounds=lambda p: len(p.moment_lowerbounds))
        else:
            counts = dict(equalities=lambda p: len(p.moment_equalities),
                          inequalities=lambda p: len(p.moment_inequalities),
                          bounds=lambda p: len(p.moment_lowerbounds))
        for what, c in counts.items():
            check(c(a) == c(b), "numbers of", what, c(a), "and", c(b))
        if kind == "sdp":
            check({na[m] for m in a.hermitian_moments} == set(b.hermitian_moments),
                  "the non-negative moments differ")
        else:
            def rows(p, f):
                return {frozenset((f(m), float(v)) for m, v in r.items() if v)
                        for r in p.moment_inequalities}
            ra, rb = rows(a, lambda m: na[m]), rows(b, lambda m: m)
            check(ra == rb, "the inequalities differ:", list(ra ^ rb)[:3])
    ctx.nontrivial(not L.trivial and not solve and any(m.n_operators > 1 for m in ma))
    # data
    dist = None
    if compact and (case["sr"] or not R.network):
        # products that are only known as a whole are left free (K03, shared randomness), so
        # that which data are used depends on the outcomes that are left out
        case = dict(case, dist=0)
    if case["dist"]:
        dist = behaviour(R, dict(case, sparse=case["seed"] % 2 == 0,
                                 w=case["w"] if not compact else [1]))
        if case["dist"] == 2 and R.network and R.n > 1 and not compact and all(o > 1 for o in R.out):
            e = box(R, case["seed"])
            if e is not None:
                dist = .9 * e + .1 * dist
        lpi = case["lpi"] and not compact
        a.set_distribution(dist, use_lpi_constraints=lpi, shared_randomness=case["sr"])
        b.set_distribution(L.dist(dist), use_lpi_constraints=lpi, shared_randomness=case["sr"])
        if not compact:
            ka, kb_ = a.known_moments, b.known_moments
            check({na[m] for m in ka} == set(kb_), "different moments are fixed:",
                  {na[m] for m in ka} ^ set(kb_))
            for m, v in ka.items():
                check(abs(v - kb_[na[m]]) < 1e-9, m, "is fixed to", v, "and", na[m], "to", kb_[na[m]])
            sa, sb = a.semiknown_moments, b.semiknown_moments
            check({na[m] for m in sa} == set(sb), "different moments are tied")
            for m, (c, u) in sa.items():
                c2, u2 = sb[na[m]]
                ku = key(Q, [L.word(w) for w in words(u, shift)])
                check(abs(c - c2) < 1e-9 and ku == key(Q, words(u2, shift)), m, "is tied to", (c, u),
                      "and", na[m], "to", (c2, u2))
    if not solve:
        return
    # objective
    nz = [m for m in ma if not (m.is_zero or m.is_one)]
    if not nz:
        raise Discard("no moments")
    oa, ob = {}, {}
    if case["obj"] and not (case["dist"] == 2):
        table = {} if not compact else {
            (() if m.is_one else key(Q, words(m, shift))): m for m in mb if not m.is_zero}
        kept = [i for i, (p, c, x, o) in enumerate(Q.ops)
                if case["all"] or Q.has_children[p] or o < Q.out[p] - 1]
        keptset = set(kept)
        for k, v in case["obj"]:
            m = nz[k % len(nz)]
            oa[m] = oa.get(m, 0) + v / 4
            if not compact:
                ob[na[m]] = ob.get(na[m], 0) + v / 4
                continue
            # expand the outcomes that are left out
            ts = [(v / 4, [])]
            for w in words(m, shift):
                nt = [(c, f) for c, f in ts]
                exp = [(1., [])]
                for i in L.word(w):
                    if i in keptset:
                        exp = [(c, u + [i]) for c, u in exp]
                    else:
                        p, cp, x, o = Q.ops[i]
                        alt = [Q.idx[(p, cp, x, j)] for j in range(Q.out[p] - 1)]
                        exp = exp + [(-c, u + [j]) for c, u in exp for j in alt]
                ts = [(c * d, f + [u]) for c, f in nt for d, u in exp]
            for c, f in ts:
                full = [Q.reduce(u) for u in f]
                if any(u is None for u in full):
                    continue
                parts = [g for u in full if u for g in Q.factors(u)]
                kk = key(Q, parts) if parts else ()
                if kk not in table:
                    raise Discard("the objective is not in the relabelled matrix")
                ob[table[kk]] = ob.get(table[kk], 0) + c
        a.set_objective(oa, "min" if case["min"] else "max")
        b.set_objective(ob, "min" if case["min"] else "max")
    res = []
    n = standin.LOG.unknown
    feas = not oa and case["dist"] and case["feas"]
    for p in (a, b):
        kw = {}
        if kind == "sdp" and compact:
            # (positivity of single moments is imposed on the moments present, which differ)
            kw = dict(solver_arguments=dict(inequalities=[]))
        p.solve(feas_as_optim=bool(feas), **kw)
        res.append((bool(p.success), p.objective_value))
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    if kind == "sdp" and res[0][0] != res[1][0]:
        ms = []
        for p in (a, b):
            if oa:
                p.set_objective(None)
            p.solve(feas_as_optim=True, **kw)
            if not p.success:
                raise Discard("no smallest eigenvalue")
            ms.append(p.objective_value)
        if min(abs(v) for v in ms) < 1e-6:
            raise Discard("borderline")
    check(res[0][0] == res[1][0], "before:", res[0], "after relabelling:", res[1])
    ctx.label(("optimum" if oa else "smallest eigenvalue" if feas else "feasibility") +
              ("" if res[0][0] else ": infeasible"))
    if res[0][0] and (oa or feas and not compact):
        tol = (2e-5 if kind == "sdp" else 1e-6) * (1 + sum(abs(v) for v in oa.values()))
        check(abs(res[0][1] - res[1][1]) < tol, "optimum", res[0][1], "after relabelling", res[1][1])
    ctx.nontrivial(not L.trivial and (not res[0][0] or bool(oa) and abs(res[0][1]) > 1e-6))


def cases(s, cols, limit, columns=30, **kw):
    return st.fixed_dictionaries({**dict(
        spec=s, cols=cols, limit=st.just(limit), columns=st.just(columns), all=pick([False, False, True]),
        nn=st.booleans(),
        how=pick(["pnsmxo", "pnsmxo", "ps", "p", "s", "n", "m", "x", "o", "xo", "pnsmx", "pnsm", "po"]),
        sorted=st.booleans(), rseed=mixed_int(10 ** 6),
        obj=st.lists(st.tuples(mixed_int(9973), st.integers(-8, 8)).map(list), min_size=1,
                     max_size=5), min=st.booleans(), dist=pick([0, 1, 1, 2]), lpi=pick([False, True]),
        sr=pick([False, False, False, True]), feas=st.booleans(), seed=st.integers(0, 10 ** 6),
        w=st.lists(st.integers(0, 6), min_size=1, max_size=3)), **kw})


COLS = pick([["npa1", 0], ["npa2", 0], ["npa2", 0], ["local1", 0], ["local1", 2], ["local2", 2],
             ["physical", 0], ["physical1", 0], ["physical2", 2]])
SMALL = pick([["npa1", 0], ["npa2", 0], ["local1", 0], ["local1", 2]])
gen = scenario(parties=(1, 4), sources=(1, 3), lev_max=2, max_ops=22, max_group=8)
lpgen = scenario(parties=(1, 4), sources=(1, 3), lev_max=2, max_ops=24, max_group=8,
                 max_maxevents=400)
tiny = scenario(parties=(1, 3), sources=(1, 2), lev_max=2, max_ops=14, max_group=4)
PARTS = [
    Part("sdp", cases(gen, COLS, 300), lambda c, x: run(c, x, "sdp", False), 300, 6000),
    Part("lp", cases(lpgen, COLS, 500), lambda c, x: run(c, x, "lp", False), 500, 8000),
    Part("sdp-optima", cases(tiny, SMALL, 60, 14), lambda c, x: run(c, x, "sdp", True), 250, 5000),
    Part("lp-optima", cases(lpgen, SMALL, 200), lambda c, x: run(c, x, "lp", True), 400, 6000),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
