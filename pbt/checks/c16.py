"""C16 critical-parameter search."""
import warnings
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from scipy.optimize import linprog
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..cols import colspec
from ..models import ClassicalModel
from .. import standin, settings as S
from . import c13
from .c14 import box
from .c08 import behaviour

ID = "C16"
RULE = ("non-trivial: the family is feasible at its start, infeasible at its end, and its critical "
        "parameter lies strictly inside")
NOISE = dict(lp=1e-8, sdp=3e-7)


def margin(P, soft=False):
    """largest slack t that all inequalities (or the smallest eigenvalue) can have;
    -inf if not even a negative one exists"""
    if P.kind == "sdp":
        for k in P.known:
            if k not in P.names:
                P.names.append(k)
        ineq = P.ineq + [{k: 1., P.one: -v} if k != P.one else {k: 1. - v}
                         for k, v in P.lo.items() if k not in P.known]
        s, v, hard = c13.reference(P.masks, {}, P.known, P.semi, ineq, P.eq, False, True, P.dim)
        if s == "infeasible":
            return -np.inf
        if s != "feasible" or hard:
            raise Discard("reference ill-posed")
        return v
    ix = {k: i for i, k in enumerate(P.names)}
    n = len(ix)
    A, b = [], []
    for r in P.eq:
        A.append(r), b.append(0.)
    for k, v in P.known.items():
        A.append({k: 1.}), b.append(v)
    for k, (c, k2) in P.semi.items():
        A.append({k: 1., k2: -c} if k != k2 else {k: 1. - c}), b.append(0.)

    def mat(rows, t):
        M = np.zeros((len(rows), n + 1))
        for i, r in enumerate(rows):
            for k, c in r.items():
                M[i, ix[k]] += c
        M[:, n] = t
        return M
    if soft:
        # equalities of the relaxation also hold up to t
        A, b, G0 = A[len(P.eq):], b[len(P.eq):], P.eq + [{k: -v for k, v in r.items()} for r in P.eq]
    else:
        G0 = []
    G = G0 + [r for r in P.ineq] + [{k: 1.} for k in (P.names if P.nn else [])]
    c = np.zeros(n + 1)
    c[n] = -1
    r = linprog(c, A_ub=-mat(G, -1.), b_ub=np.zeros(len(G)), A_eq=mat(A, 0.), b_eq=b,
                bounds=[(None, None)] * n + [(None, 1.)], method="highs",
                options=dict(primal_feasibility_tolerance=1e-10, dual_feasibility_tolerance=1e-10))
    if r.status == 2:
        return -np.inf
    if r.status != 0:
        raise Discard("reference gave up")
    return -r.fun


def run(case, ctx, kind):
    import sympy
    from inflation import max_within_feasible
    standin.install()
    R = Ref(case["spec"])
    prog, shift, moments, cs = S.make(case, kind, 7)
    if len(moments) > 140:
        raise Discard("too large")
    fresh = S.make(case, kind, 7, cs)[0]
    base0 = S.Program(fresh, kind)
    use = [m for m in moments if not m.is_zero]
    non1 = [m for m in use if not m.is_one]
    if not non1:
        raise Discard("no moments")
    lb, ub = [(0., 1.), (0., 1.), (-.5, .75), (.25, 2.)][case["range"]]
    v = sympy.Symbol(["v", "x_1"][case["range"] % 2])
    w = (v - sympy.Rational(lb)) / sympy.Rational(ub - lb)
    lpi = case["lpi"] and case["method"] == "bisection"
    only = case["only"] and not lpi
    model = ClassicalModel(R, case["seed"], 3)
    tie = None
    if case["tie"]:
        # the parameter is restricted through a product with an unknown moment
        single = {m.factors[0]: m for m in non1 if m.n_factors == 1}
        cands = [(m, single[a], single[b]) for m in non1 if m.n_factors == 2
                 for a, b in (m.factors, m.factors[::-1])
                 if a != b and a in single and b in single and not a.is_zero and
                 a.is_all_commuting and b.is_all_commuting and
                 0. < model.moment([int(i) - shift for i in b.as_lexmon])]
        if not cands:
            raise Discard("no product")
        tie = cands[case["seed"] % len(cands)]
        lpi, only = True, False
        case = dict(case, method="bisection", dist=False)
    kw = dict(precision=case["p"])
    path = {}              # moment -> polynomial in the position on the path, as callable + expr

    def curve(a, b, shape):
        """from a to b; -> numeric function of the parameter, symbolic expression"""
        if shape == 2:
            b = a
        a_, b_ = sympy.Float(a, 17), sympy.Float(b, 17)
        t = w ** 2 if shape == 1 else w

        def num(x):
            u = (x - lb) / (ub - lb)
            return a + (b - a) * (u ** 2 if shape == 1 else u)
        return num, (float(a) if shape == 2 else a_ + (b_ - a_) * t)
    dist = case["dist"]
    if dist:
        d0 = model.distribution()
        d1 = box(R, case["seed"]) if R.network and R.n > 1 else None
        if d1 is None:
            d1 = sum(.5 * ClassicalModel(R, case["seed"] + 1 + i, 1).distribution() for i in (0, 1))
        if kind == "lp":
            d1 = d0 + (d1 - d0) * [1, 2, 4][case["seed"] % 3]
        sym = np.empty(d0.shape, dtype=object)
        for i in np.ndindex(d0.shape):
            sym[i] = sympy.Float(d0[i], 17) * (1 - w) + sympy.Float(d1[i], 17) * w

        def wk_ws(x):
            u = (x - lb) / (ub - lb)
            return S.from_distribution(R, shift, moments, (1 - u) * d0 + u * d1, lpi)
        if lpi:
            # (symbolic known moments are not split into implied proportionalities)
            pass
        prog.set_distribution(sym)
        symbolic = dict(prog.known_moments)
        if case["drop1"]:
            symbolic.pop(prog.One, None)
        kw["only_specified_values"] = False
    else:
        pool = [m for m in non1 if m.n_factors == 1] or non1
        if case["focus"]:
            comps = [m for m in non1 if m.n_factors > 1]
            parts = {f for m in comps for f in m.factors}
            pool = [m for m in pool if m.factors[0] in parts] or pool
        if only:
            pool = non1
        given, exprs = {}, {}

        def val(m):
            return float(np.prod([model.moment([int(i) - shift for i in f.as_lexmon])
                                  for f in m.factors]))
        rows = None
        for k, t, shape, f in case["vals"][:1] if tie else case["vals"]:
            m = tie[1] if tie else pool[k % len(pool)]
            if m in given:
                continue
            if not given and shape == 2:
                shape = 0
            # (SDPs reject values that contradict lower bounds)
            if tie:
                t = abs(t) % 9
                x, y, u = val(m), t / 8, val(tie[2])
                c = x + (y - x) * (1 + case["seed"] % 7) / 8
                sg = 1. if x > y else -1.
                rows = [{tie[0]: sg, tie[2]: -sg * c}, {tie[2]: 1., prog.One: -u / 2}]
            given[m], e = curve(val(m), (abs(t) if kind == "sdp" else t) / 8, shape)
            exprs[S.alias(prog, m, f if case["names"] else 0)] = e
        if not any(isinstance(e, sympy.Expr) and e.free_symbols for e in exprs.values()):
            raise Discard("nothing depends on the parameter")

        def wk_ws(x):
            return S.fill(R, shift, kind, moments, {m: float(g(x)) for m, g in given.items()}, lpi,
                          only)
        if case["viaset"]:
            prog.set_values(exprs, only_specified_values=only)
            symbolic = dict(prog.known_moments)
            if case["drop1"]:
                symbolic.pop(prog.One, None)
        else:
            symbolic = exprs
        kw["only_specified_values"] = only
    if tie:
        case = dict(case, ineq=True)
    elif case["ineq"]:
        rows = [S.poly(use, r) for r in case["ineq"]]
        # satisfied at the start
        for r in rows:
            s = sum(c * (1. if m.is_one else val_(model, m, shift)) for m, c in r.items())
            if s < 0:
                for m in list(r):
                    r[m] = -r[m]
    if case["ineq"]:
        prog.set_extra_inequalities(rows)
        base0.add(dict(ineq=rows))
    if lpi:
        kw["use_lpi_constraints"] = True
    if case["range"] > 1:
        kw["bounds"] = np.array([lb, ub])
    if not case["dual"]:
        kw["solve_dual"] = False

    import copy

    def f(x, soft=False):
        P = copy.copy(base0)
        P.known, P.semi, P.names = dict(base0.known), {}, list(base0.names)
        obj = P.obj
        k, s = wk_ws(x)
        P.add(dict(known=k, semi=s))
        return margin(P, soft)
    noise = NOISE[kind]
    p = case["p"]
    grid = np.linspace(lb, ub, 9)
    fg = [f(x) for x in grid]
    if fg[0] < -noise:
        raise Discard("start not feasible")
    if kind == "sdp" and max(fg) < 1e-6:
        raise Discard("no interior")
    feas = [g > -noise for g in fg]
    method = case["method"]
    before = {k: e for k, e in symbolic.items()}
    n = standin.LOG.unknown

    def search(**k2):
        r = max_within_feasible(prog, symbolic, method, **{**kw, **k2})
        if standin.LOG.unknown > n:
            raise Discard("stand-in solver gave up")
        return r
    if all(feas):
        if min(fg) < p / 1000:
            raise Discard("feasible everywhere, barely")
        try:
            r = search()
        except AssertionError:
            ctx.label("feasible everywhere: rejected")
            return
        raise_ = check(False, "feasible everywhere, but the critical parameter is said to be", r)
    k = feas.index(False)
    if any(feas[k:]) or any(y > x + noise for x, y in zip(fg[k:], fg[k + 1:])):
        raise Discard("not an interval")
    a, b = grid[k - 1], grid[k]
    while b - a > p / 100:
        c = (a + b) / 2
        if f(c) > -noise:
            a = c
        else:
            b = c
    crit = a
    if f(crit + p) > -p / 64 - 4 * noise or f(max(lb, crit - p / 2)) < -noise / 10 or crit + p > ub:
        raise Discard("critical parameter ill-conditioned")
    if kind == "lp" and np.isinf(f(crit + p)) and f(crit + p, True) > -2e-6:
        raise Discard("critical parameter ill-conditioned")
    ctx.label(method + (" bounds" if case["range"] > 1 else "") + (" lpi" if lpi else ""))
    if np.isinf(fg[-1]):
        ctx.label("end infeasible even when relaxed")

    def verdict(r, what):
        check(isinstance(r, float), what, "result", r)
        check(r > crit - 1.1 * p - 1e-6, what, method, "gives", r, "although", crit, "is feasible")
        check(r < crit + 2.1 * p + 1e-6, what, method, "gives", r, "instead of", crit)
    if case["cert"]:
        r, cert = search(return_last_certificate=True)
        verdict(r, "with certificate:")
        if not lpi:
            size = 1e-9 + sum(map(abs, cert.values()))
            for x in list(grid[:k]) + [crit]:
                kn = wk_ws(x)[0]
                names = {m.name: q for m, q in kn.items()}
                names[prog.One.name] = 1.
                check(all(m.name in names for m in cert), "certificate", cert, "has unknown moments")
                q = sum(c * names[m.name] for m, c in cert.items())
                check(q > -size * (2e-3 + p), "last certificate", cert, "has value", q,
                      "at the feasible parameter", x)
            if cert and method == "dual" and not np.isinf(f(r)):
                x = min(ub, r)
                kn = {m.name: q for m, q in wk_ws(x)[0].items()}
                kn[prog.One.name] = 1.
                q = sum(c * kn[m.name] for m, c in cert.items())
                check(q < size * (2e-3 + p), "last certificate", cert, "has value", q,
                      "at the critical parameter", r)
    else:
        verdict(search(), "")
    check(set(before) == set(symbolic) and all(before[q] is symbolic[q] for q in before),
          "the symbolic values were changed")
    # another interval
    if case["again"]:
        lo = lb + (crit - lb) * case["again"] / 8
        hi = ub - (ub - crit - p) * case["again"] / 8
        if hi - crit > 3 * p and f(lo) > -noise and f(hi) < -p / 100 and crit - lo > 3 * p:
            verdict(search(bounds=np.array([lo, hi])), f"bounds {lo} {hi}:")
            ctx.label("second interval")
    # usable afterwards
    d = behaviour(R, dict(case, sparse=True))
    out = []
    for q in (prog, fresh):
        if q is fresh and case["ineq"]:
            q.set_extra_inequalities(rows)
        q.set_distribution(d)
        q.set_objective({use[case["seed"] % len(use)]: 1.}, "max")
        q.solve()
        out.append((q.status, q.objective_value))
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    check(out[0][0] == out[1][0] and (isinstance(out[1][1], str) or abs(out[0][1] - out[1][1]) < 1e-4),
          "after the search, a program gives", out[0], "instead of", out[1])
    ctx.nontrivial(lb < crit < ub)


def val_(model, m, shift):
    return float(np.prod([model.moment([int(i) - shift for i in f.as_lexmon]) for f in m.factors]))


def cases(s, p, **kw):
    return st.fixed_dictionaries({**dict(
        spec=s, all=pick([False] * 5 + [True]), c=colspec(), opts=st.just({}),
        dist=pick([True, False, False, False]), vals=st.lists(st.tuples(
            mixed_int(997), pick(list(range(-6, 19))), pick([0, 0, 0, 1, 2]), mixed_int(12)).map(list),
            min_size=2, max_size=6), names=st.booleans(), viaset=st.booleans(),
        drop1=pick([False, False, True]), only=pick([False, False, True]), focus=st.booleans(),
        lpi=pick([False, False, False, True]), method=pick(["bisection", "dual"]),
        dual=pick([True, True, False]), p=p, range=st.integers(0, 3), again=pick([0, 0, 3, 6]),
        cert=pick([False, True]), tie=st.just(False),
        ineq=st.one_of(*[st.just([])] * 4, st.lists(S.terms, min_size=1, max_size=1)),
        seed=st.integers(0, 10 ** 6),
        w=st.lists(st.integers(0, 6), min_size=1, max_size=3)), **kw})


s_lp = scenario(parties=(2, 3), sources=(1, 3), lev_max=2, max_ops=20, max_group=8,
                max_maxevents=120)
s_sdp = scenario(parties=(2, 3), sources=(1, 3), lev_max=2, max_ops=18, max_group=8)
PARTS = [
    Part("lp", cases(s_lp, pick([1e-2, 1e-3, 1e-4]),
                     opts=st.fixed_dictionaries(dict(default_non_negative=st.booleans()))),
         lambda c, x: run(c, x, "lp"), 300, 8000),
    Part("lp-product", cases(s_lp.filter(lambda s: max(s["lev"]) > 1), pick([1e-2, 1e-3]), tie=st.just(True),
                             opts=st.fixed_dictionaries(dict(default_non_negative=st.booleans()))),
         lambda c, x: run(c, x, "lp"), 120, 2000),
    Part("sdp-product", cases(s_sdp.filter(lambda s: max(s["lev"]) > 1), pick([2e-2, 1e-2]), tie=st.just(True)),
         lambda c, x: run(c, x, "sdp"), 120, 2000),
    Part("sdp", cases(s_sdp, pick([2e-2, 1e-2, 4e-3])), lambda c, x: run(c, x, "sdp"), 300, 6000),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
