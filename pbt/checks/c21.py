"""C21 all-outcomes and compact descriptions are equivalent."""
import itertools
import warnings
from collections import defaultdict
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..cols import colspec, choose
from .. import standin
from .c06 import moment_sym_key
from .c08 import behaviour

ID = "C21"
RULE = ("non-trivial: the all-outcomes program has a normalization equality and more variables than "
        "the compact one; for optima, they also have to differ from every single value of the data")


class Expand:
    """moments written with the outcomes of a minimal set: the last outcome of
    each measurement is one minus the others"""

    def __init__(self, R, conj):
        self.R, self.conj = R, conj
        self.memo = {}

    def word(self, w):
        R = self.R
        w = tuple(w)
        if w in self.memo:
            return self.memo[w]
        for k, i in enumerate(w):
            p, c, x, a = R.ops[i]
            if a == R.out[p] - 1:
                res = defaultdict(int)
                for t, v in self.word(w[:k] + w[k + 1:]).items():
                    res[t] += v
                for b in range(a):
                    for t, v in self.word(w[:k] + (R.idx[(p, c, x, b)],) + w[k + 1:]).items():
                        res[t] -= v
                break
        else:
            r = R.reduce(w)
            res = {} if r is None else {tuple(r): 1}
        if len(self.memo) < 50000:
            self.memo[w] = res
        if len(res) > 400:
            raise Discard("too many terms")
        return res

    def key(self, parts):
        R = self.R
        fs = [f for w in parts for f in R.factors(list(w))]
        one = tuple(sorted(R.rep(f, conj=False) for f in fs))
        if not self.conj:
            return one
        return min(one, tuple(sorted(R.rep(f[::-1], conj=False) for f in fs)))

    def moment(self, factors):
        """factors: words -> {key: coefficient}"""
        res = defaultdict(int)
        for combo in itertools.product(*(self.word(f).items() for f in factors)):
            v = 1
            for _, c in combo:
                v *= c
            res[self.key([w for w, _ in combo])] += v
        if len(res) > 400:
            raise Discard("too many terms")
        return {k: v for k, v in res.items() if v}


def words_of(m, shift):
    return [[int(i) - shift for i in f.as_lexmon] for f in m.factors]


def analyse(prog, R, kind, complete, what):
    """equalities sound; complete if the generating set allows.
    Returns number of variables and of equalities"""
    shift = 1 if kind == "sdp" else 0
    mons = [m for m in (prog.moments if kind == "sdp" else prog.monomials) if not m.is_zero]
    E = Expand(R, kind == "sdp")
    ex = {m: E.moment(words_of(m, shift)) for m in mons}
    eqs = prog.minimal_equalities if kind == "sdp" else prog.moment_equalities
    for eq in eqs:
        tot = defaultdict(int)
        for m, c in eq.items():
            if m.is_zero:
                continue
            check(m in ex, what, "equality", eq, "contains", m, "which is not a variable")
            for k, v in ex[m].items():
                tot[k] += c * v
        bad = {k: v for k, v in tot.items() if abs(v) > 1e-9}
        check(not bad, what, "the equality", {str(m): c for m, c in eq.items()},
              "does not follow from normalization")
    keys = sorted({k for e in ex.values() for k in e}, key=str)
    ik = {k: i for i, k in enumerate(keys)}
    im = {m: i for i, m in enumerate(mons)}
    if len(mons) * len(keys) > 4e6:
        raise Discard("too large")
    M = np.zeros((len(mons), len(keys)))
    for m, e in ex.items():
        for k, v in e.items():
            M[im[m], ik[k]] = v
    Q = np.zeros((len(eqs), len(mons)))
    for r, eq in enumerate(eqs):
        for m, c in eq.items():
            if not m.is_zero:
                Q[r, im[m]] += c
    rank = np.linalg.matrix_rank(M) if len(mons) else 0
    rq = np.linalg.matrix_rank(Q) if len(eqs) else 0
    if complete:
        check(len(mons) - rq == rank, what, "normalization equalities are missing:", len(mons),
              "variables,", rq, "independent equalities, but the variables have", rank,
              "degrees of freedom; equalities", len(eqs))
    return len(mons), rq, {tuple(sorted(e.items(), key=str)): m for m, e in ex.items()
                           if len(e) == 1 and list(e.values()) == [1]}


CLOSED = ("npa", "local", "physical")


def programs(case, kind, ctx):
    R = Ref(case["spec"])
    if kind == "sdp":
        from inflation import InflationSDP
        res = []
        kindname, cap = case["cols"]
        k = kindname
        if k == "npa3" and len(R.ops) > 9:
            k = "npa2"
        if k == "npa2" and len(R.ops) > 26 or k.startswith("local") and len(R.ops) > 26 or \
                k.startswith("phys") and R.max_event_bound(True) > 60:
            k = "npa1"
        for all_ in (False, True):
            p = InflationSDP(build(case["spec"]), include_all_outcomes=all_)
            spec = p.build_columns(k, max_monomial_length=cap)
            if len(spec) > case["limit"]:
                raise Discard("too many columns")
            p.generate_relaxation(k if not cap else [np.asarray(w) for w in spec])
            res.append(p)
        ctx.label(k + (" cap" if cap else ""))
        return R, res
    from inflation import InflationLP
    res = []
    for all_ in (False, True):
        p = InflationLP(build(case["spec"]), include_all_outcomes=all_,
                        default_non_negative=case["nn"])
        res.append(p)
    return R, res


def run(case, ctx, kind):
    R, (small, big) = programs(case, kind, ctx)
    n1, q1, b1 = analyse(small, R, kind, True, "compact:")
    n2, q2, b2 = analyse(big, R, kind, True, "all outcomes:")
    if not R.has_children or not any(R.has_children):
        check(q1 == 0, "the compact description has equalities")
    check(n1 - q1 == n2 - q2, "degrees of freedom differ:", n1 - q1, "compact,", n2 - q2,
          "with all outcomes")
    ctx.nontrivial(q2 > q1 and n2 > n1)
    ctx.label("visible links" if not R.network else "network")


def run_words(case, ctx):
    """arbitrary generating sets: the equalities are sound"""
    from inflation import InflationSDP
    R = Ref(case["spec"])
    p = InflationSDP(build(case["spec"]), include_all_outcomes=True)
    cs, lab = choose(p, R, case["c"], 16)
    p.generate_relaxation(cs)
    _, q, _ = analyse(p, R, "sdp", False, "all outcomes:")
    ctx.label(lab + (" equalities" if q else ""))
    ctx.nontrivial(q > 0)


def run_optima(case, ctx, kind):
    standin.install()
    R, (small, big) = programs(case, kind, ctx)
    shift = 1 if kind == "sdp" else 0
    get = (lambda p: p.moments) if kind == "sdp" else (lambda p: p.monomials)
    if len(get(big)) > (60 if kind == "sdp" else 1500):
        raise Discard("too large")
    key = {moment_sym_key(R, m, shift): m for m in get(big) if not (m.is_zero or m.is_one)}
    pairs = []
    for m in get(small):
        if m.is_zero or m.is_one:
            continue
        k = moment_sym_key(R, m, shift)
        check(k in key, m, "of the compact description is not in the one with all outcomes")
        pairs.append((m, key[k]))
    if not pairs:
        raise Discard("no moments")
    terms = [(k % len(pairs), v / 4) for k, v in case["obj"]]
    objs = []
    for j in (0, 1):
        d = {}
        for k, v in terms:
            d[pairs[k][j]] = d.get(pairs[k][j], 0) + v
        objs.append(d)
    res = []
    dist = behaviour(R, dict(case, sparse=False))
    if case["noise"]:
        # any common cause of everybody: usually not compatible with the causal structure
        spec = case["spec"]
        links = [[k, [c for c in v if c in R.names]] for k, v in spec["dag"] if k in R.names]
        R2 = Ref(dict(spec, dag=[["hh", list(R.names)]] + [l for l in links if l[1]], lev=[1],
                      cl=[], cil=[], nil=[], order=list(R.names)))
        e = behaviour(R2, dict(case, sparse=True, seed=case["seed"] + 1))
        if case["noise"] == 3:
            # perfect correlations, some noise
            e = np.zeros_like(dist)
            for k in range(2):
                e[tuple([k % R.out[q] for q in range(R.n)])] += .5
            e = .95 * e + .05 / np.prod(R.out)
        dist = e if case["noise"] >= 2 else .5 * dist + .5 * e
    def data_conflict(m):
        """the data contain the product itself, and it is not set from there"""
        fs = words_of(m, shift)
        whole = [i for w in fs for i in w]
        if m.is_zero or m.n_factors < 2 or not R.knowable(whole):
            return False
        used = [s for w in fs for s in {s for i in w for s in range(R.S) if R.ops[i][1][s]}]
        if len(used) != len(set(used)):
            return False    # (on different copies)
        if not m.is_knowable:
            return True     # finding K03
        v = np.prod([R.event_prob(w, dist) for w in fs])
        return abs(v - R.event_prob(whole, dist)) > 1e-9
    if case["dist"] and any(map(data_conflict, get(big))):
        # which data are used depends on the outcomes that are left out
        case = dict(case, dist=0)
        ctx.label("correlated independent parties")
    for p, o in zip((small, big), objs):
        if case["dist"]:
            p.set_distribution(dist, use_lpi_constraints=case["dist"] == 2)
        else:
            p.set_objective(o, "min" if case["min"] else "max")
        kw = {}
        if kind == "sdp":
            # (positivity of single moments is imposed on the moments present, which differ)
            kw = dict(solver_arguments=dict(inequalities=[]))
        n = standin.LOG.unknown
        p.solve(**kw)
        if standin.LOG.unknown > n:
            raise Discard("stand-in solver gave up")
        res.append((bool(p.success), p.objective_value))
    ctx.label(("distribution " if case["dist"] else "objective ") +
              ("feasible" if res[0][0] else "infeasible"))
    if case["dist"] and kind == "sdp" and res[0][0] != res[1][0]:
        # decided by a margin?
        m = []
        for p in (small, big):
            p.solve(feas_as_optim=True, solver_arguments=dict(inequalities=[]))
            if not p.success:
                raise Discard("no smallest eigenvalue")
            m.append(p.objective_value)
        if min(abs(v) for v in m) < 1e-6:
            raise Discard("borderline")
    check(res[0][0] == res[1][0], "compact:", "feasible" if res[0][0] else "infeasible",
          "all outcomes:", "feasible" if res[1][0] else "infeasible")
    if res[0][0] and not case["dist"]:
        tol = 1e-5 if kind == "sdp" else 1e-7
        check(abs(res[0][1] - res[1][1]) < tol * (1 + abs(res[0][1])), "compact optimum", res[0][1],
              "all outcomes", res[1][1])
        ctx.nontrivial(abs(res[0][1]) > 1e-6)
    elif not res[0][0]:
        ctx.nontrivial()


def case_of(s, cols, limit, **kw):
    return st.fixed_dictionaries(dict(
        spec=s, cols=cols, limit=st.just(limit), nn=st.booleans(), c=colspec(),
        obj=st.lists(st.tuples(mixed_int(9973), st.integers(-8, 8)).map(list), min_size=1,
                     max_size=5), min=st.booleans(), dist=pick([0, 0, 1, 2]),
        noise=pick([0, 1, 2, 2]), seed=st.integers(0, 10 ** 6),
        w=st.lists(st.integers(0, 6), min_size=1, max_size=3), **kw))


COLS = pick([["npa1", 0], ["npa2", 0], ["npa2", 0], ["npa3", 0], ["local1", 0], ["local1", 2],
             ["local2", 2], ["physical", 0], ["physical1", 0], ["physical2", 2]])
SMALL = pick([["npa1", 0], ["npa2", 0], ["local1", 0], ["local1", 2], ["physical", 0],
              ["physical1", 0]])
net = scenario(parties=(1, 3), sources=(1, 3), lev_max=2, max_ops=30, max_group=8)
links = scenario(parties=(2, 3), sources=(1, 2), lev_max=2, max_ops=36, max_group=8).filter(
    lambda s: not Ref(s).network)
lpnet = scenario(parties=(1, 4), sources=(1, 3), lev_max=2, max_ops=24, max_group=8,
                 max_maxevents=400)
loops = st.builds(
    lambda n, lev, out, cl: dict(
        dag=[[f"h{i}", ["ABCD"[i], "ABCD"[(i + 1) % n]]] for i in range(n)], out=out[:n],
        set=[1] * n, lev=lev[:n], cl=[f"h{i}" for i in range(n) if cl[i]], cil=[], nil=[],
        order=list("ABCD"[:n])),
    pick([3, 3, 4]), st.lists(pick([1, 2, 2]), min_size=4, max_size=4),
    st.lists(pick([2, 2, 2, 3]), min_size=4, max_size=4),
    st.lists(st.booleans(), min_size=4, max_size=4)).filter(
        lambda s: np.prod(s["lev"]) * max(s["out"]) <= 8)
tiny = scenario(parties=(1, 3), sources=(1, 2), lev_max=2, max_ops=14, max_group=4)
PARTS = [
    Part("sdp", case_of(net, COLS, 60), lambda c, x: run(c, x, "sdp"), 500, 8000),
    Part("sdp-links", case_of(links, COLS, 60), lambda c, x: run(c, x, "sdp"), 300, 5000),
    Part("sdp-words", case_of(st.one_of(net, links), COLS, 60), run_words, 400, 6000),
    Part("lp", case_of(lpnet, COLS, 0), lambda c, x: run(c, x, "lp"), 500, 8000),
    Part("sdp-optima", case_of(tiny, SMALL, 16), lambda c, x: run_optima(c, x, "sdp"), 300, 5000),
    Part("lp-data", case_of(loops, SMALL, 0).map(
        lambda c: dict(c, dist=c["dist"] or 1, noise=3 - c["noise"] % 2, nn=True, w=c["w"][:1])),
        lambda c, x: run_optima(c, x, "lp"), 150, 4000),
    Part("lp-optima", case_of(lpnet, SMALL, 0), lambda c, x: run_optima(c, x, "lp"), 400, 6000),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
