"""C14 certificates are valid."""
import itertools
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..cols import colspec
from ..models import ClassicalModel
from .. import standin, settings as S
from .c03 import make_model
from .c08 import behaviour
from .c15 import text_poly

ID = "C14"
RULE = ("non-trivial: the certificate has at least one term besides the constant, and the program "
        "was infeasible, relaxed or had an objective")


def box(R, seed):
    """parity box: no-signalling and usually incompatible"""
    rng = np.random.default_rng(seed)
    P = np.zeros(tuple(R.out) + tuple(R.priv))
    f = rng.integers(0, 2, tuple(R.priv))
    for a in itertools.product(*[range(min(2, o)) for o in R.out]):
        for x in itertools.product(*[range(k) for k in R.priv]):
            P[a + x] = sum(a) % 2 == f[x]
    s = P.sum(axis=tuple(range(R.n)))
    if (s == 0).any():
        return None
    return P / s


def data(R, case):
    d = behaviour(R, dict(case, sparse=case["seed"] % 3 == 0))
    if R.network and all(o > 1 for o in R.out) and R.n > 1:
        b = box(R, case["seed"])
        if b is not None:
            v = case["box"] / 8
            d = v * b + (1 - v) * d
    return d


def value(d, of):
    return sum(c * of(m) for m, c in d.items())


def forms(prog, raw, ctx, case):
    """every presentation denotes the polynomial raw"""
    kw = {} if case["round"] == 0 else dict(
        chop_tol=[1e-10, 1e-6, 0, .05][case["round"] % 4], round_decimals=case["round"] % 6)
    tol, dec = abs(kw.get("chop_tol", 1e-10)), kw.get("round_decimals", 3)
    want = {m: c for m, c in raw.items() if abs(c) > tol}
    full = list(prog.solution_object["dual_certificate"].values())
    if want and not np.allclose(full, 0):
        n = (min if tol > 0 else max)(abs(c) for c in full if abs(c) > tol)
        want = {m: c / n for m, c in want.items()}
    else:
        want = {}
    clean = prog.certificate_as_dict(clean=True, **kw)
    for m in set(want) | set(clean):
        check(abs(clean.get(m, 0) - want.get(m, 0)) <= .5000001 * 10. ** -dec +
              1e-9 * abs(want.get(m, 0)), "rounded certificate: the coefficient of", m, "is",
              clean.get(m, 0), "instead of", want.get(m, 0))
        check(abs(clean.get(m, 0) - round(float(clean.get(m, 0)), dec)) <
              1e-9 * (1 + abs(clean.get(m, 0))), "certificate not rounded", clean.get(m))
    names = {m.name: m.name for m in raw if not (m.is_one or m.is_zero)}
    byname = {m.name: m for m in raw}
    sym = {m.symbol: m for m in raw}
    for d, k in ((raw, dict(clean=False)), (clean, dict(clean=True, **kw))):
        s = prog.certificate_as_string(**k)
        check(s.endswith(" < 0"), "string form", s)
        p = text_poly(s[:-4], names)
        e = prog.certificate_as_probs(**k)
        c = e.as_coefficients_dict()
        q = {}
        for t, v in c.items():
            if t == 1 or t.is_number:
                q[""] = q.get("", 0) + float(t * v)
            else:
                check(t in sym, "symbolic form: term", t)
                q[sym[t].name] = q.get(sym[t].name, 0) + float(v)
        w = {}
        for m, v in d.items():
            n = "" if m.is_one else m.name
            w[n] = w.get(n, 0) + float(v)
        for what, g in (("string", p), ("symbolic", q)):
            for n in set(g) | set(w):
                check(abs(g.get(n, 0) - w.get(n, 0)) <= 1e-8 + 2e-5 * (abs(abs(w.get(n, 0)) - 1) < 2e-5),
                      what, "form", s, ": coefficient of", n or 1, "is", g.get(n, 0), "instead of",
                      w.get(n, 0))
    return clean


def run(case, ctx, kind):
    standin.install()
    R = Ref(case["spec"])
    prog, shift, moments, cs = S.make(case, kind, 9)
    if len(moments) > 140:
        raise Discard("too large")
    fresh = S.make(case, kind, 9, cs)[0]
    use = [m for m in moments if not m.is_zero]
    non1 = [m for m in use if not m.is_one]
    if not non1:
        raise Discard("no moments")
    region, sign = {}, 1
    lpi = case["lpi"]
    for b, fn in (("eq", prog.set_extra_equalities), ("ineq", prog.set_extra_inequalities)):
        if case[b]:
            region[b] = [S.poly(use, r) for r in case[b]]
            fn(region[b])
    obj = {}
    if case["obj"]:
        o = S.poly(use, case["obj"])
        prog.set_objective(o, "min" if case["min"] else "max")
        obj = {m: -v if case["min"] else v for m, v in o.items()}
    dist, model = None, None
    if case["vals"] == "dist":
        if case["model"]:
            dist = make_model(R, dict(model=1, seed=case["seed"], sparse=False))[0].distribution() \
                if kind == "sdp" else ClassicalModel(R, case["seed"], 2).distribution()
        else:
            dist = data(R, case)
        prog.set_distribution(dist, use_lpi_constraints=lpi)
        wk, ws = S.from_distribution(R, shift, moments, dist, lpi)
        zero = {m: 0. for m in wk if not all(
            R.knowable([int(i) - shift for i in f.as_lexmon]) for f in m.factors)}
    else:
        pool = [m for m in non1 if m.n_factors == 1] or non1
        given = {}
        for k, v, f in case["vals"]:
            given.setdefault(pool[k % len(pool)], abs(v) / 8)
        prog.set_values(given, use_lpi_constraints=lpi)
        wk, ws = S.fill(R, shift, kind, moments, given, lpi, False)
        parts = {R.rep([int(i) - shift for i in m.factors[0].as_lexmon], conj=kind == "sdp")
                 for m in given if m.n_factors == 1}
        zero = {m: 0. for m in wk if m not in given and not all(
            R.rep([int(i) - shift for i in f.as_lexmon], conj=kind == "sdp") in parts
            for f in m.factors)}
    region["semi"], region["known"] = ws, zero
    mode = case["mode"]
    if mode != "plain" and obj and not (mode == "feas" and kind == "sdp"):
        mode = "plain"
    if kind == "sdp" and mode != "plain":
        mode = "feas"
    kw = dict(plain={}, feas=dict(feas_as_optim=True), rk=dict(relax_known_vars=True),
              ri=dict(relax_inequalities=True))[mode]
    if kind == "sdp" and mode == "feas" and any(not m.is_one and m not in prog.known_moments
                                                for m in prog.objective):
        mode = "plain"          # (the library optimizes the objective instead)
    n = standin.LOG.unknown
    prog.solve(solve_dual=case["dual"], **kw)
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    feasible = bool(prog.success)
    if mode != "plain":
        obj = {}
    ctx.label(mode + (" objective" if obj else "") + (" feasible" if feasible else " infeasible"))
    raw = prog.certificate_as_dict(clean=False)
    big = 1 + sum(abs(float(c)) for c in raw.values())
    check(np.isfinite(big), "certificate", raw)
    eps = (1e-6 if kind == "lp" else 3e-5) * big
    known = dict(prog.known_moments)
    known[prog.One] = 1.
    for m in raw:
        check(m in known or (kind == "lp" and m in obj), "the certificate contains", m,
              "which has no value")
    # region: everything imposed apart from the data
    target = {m: -float(c) for m, c in raw.items()}
    if obj and feasible and kind == "sdp":
        for m, c in obj.items():
            target[m] = target.get(m, 0) + c
    P = S.Program(fresh, kind).add(dict(region, obj=target))
    want, val, hard = P.reference()
    if want == "unbounded" and kind == "sdp" and hard:
        raise Discard("ill-posed")
    if want != "infeasible" and not hard:
        if want == "unbounded":
            # (unbounded programs have no certificate)
            check(feasible or not raw, "the certificate", raw, "takes arbitrarily negative values")
            check(not feasible, "the certificate", raw, "takes arbitrarily negative values")
        else:
            check(val < eps, "the certificate", {str(m): float(c) for m, c in raw.items()},
                  "reaches", -val, "within the relaxation" + (" (minus the objective)" if obj else ""))
    ctx.label("region " + want + (" ill-posed" if hard else ""))
    # on the data
    x = dict(prog.solution_object["x"])
    got = value(raw, lambda m: known[m] if m in known else x[m.name])
    if not feasible:
        if P.kind == "sdp":
            # (unbounded programs are reported as infeasible, too)
            full = S.Program(fresh, kind).add(dict(region, known=wk))
            w2, _, h2 = full.reference()
            if h2 or w2 != "infeasible":
                raise Discard("status not decided" if h2 else "unbounded")
        elif "dual" in prog.status if not case["dual"] else "prim" in prog.status:
            raise Discard("unbounded")
        if obj and not raw and S.Program(fresh, kind).add(dict(obj=obj)).reference()[0] == "unbounded":
            raise Discard("infeasible and unbounded at once")
        check(got < 0, "the program is infeasible but the certificate", raw, "has value", got)
        ctx.nontrivial(len([m for m in raw if not m.is_one]) > 0)
    else:
        want_v = prog.primal_objective if mode != "plain" or kind == "sdp" else 0.
        check(abs(got - want_v) < eps, "optimum", want_v, "but the certificate", raw, "has value",
              got, "(mode", mode, ", dual", case["dual"], ")")
        ctx.nontrivial((mode != "plain" or bool(obj)) and len([m for m in raw if not m.is_one]) > 0)
    clean = forms(prog, raw, ctx, case)

    def knowable(d):
        return all(R.knowable([int(i) - shift for i in f.as_lexmon])
                   for m in d if not (m.is_one or m.is_zero) for f in m.factors)

    def at(m, p):
        if m.is_one:
            return 1.
        return float(np.prod([R.event_prob([int(i) - shift for i in f.as_lexmon], p)
                              for f in m.factors]))
    if not knowable(raw):
        return
    ps = [("the data", dist)] if dist is not None else []
    if not (lpi or obj or case["eq"] or case["ineq"]) and raw:
        for k in range(2):
            m = ClassicalModel(R, case["seed"] + 17 + k, 2, sparse=bool(k)) \
                if kind == "lp" or sum(R.lev) <= 10 and k else \
                make_model(R, dict(model=1, seed=case["seed"] + 17, sparse=False))[0]
            ps.append((None, m.distribution()))
    default = prog.certificate_as_dict()
    for what, p in ps:
        a = prog.evaluate_polynomial(raw, p) if raw else 0.
        b = value(raw, lambda m: at(m, p))
        check(abs(a - b) < 1e-9 * big, "evaluate_polynomial gives", a, "instead of", b)
        if default:
            e = prog.evaluate_certificate(p)
            b = value(default, lambda m: at(m, p))
            check(abs(e - b) < 1e-9 * (1 + abs(b)) + 1e-9 * sum(map(abs, default.values())),
                  "evaluate_certificate gives", e, "instead of", b)
        if what is None:
            check(a > -eps, "the certificate", raw, "has value", a, "for a compatible behaviour")
            ctx.label("model evaluated")


def run_clean(case, ctx):
    from inflation.utils import clean_coefficients
    vals = [v * 10. ** -e if not case["int"] else v for v, e in case["vals"]]
    tol, dec = case["tol"][0] * 10. ** -case["tol"][1], case["dec"]
    d = {"k%d" % i: v for i, v in enumerate(vals)}
    before = dict(d)
    got = clean_coefficients(d, tol, dec)
    check(d == before, "the argument was changed")
    keep = {k: v for k, v in d.items() if abs(v) > tol}
    n = (min if tol > 0 else max)([abs(v) for v in keep.values()], default=1.)
    for k in d:
        w = keep.get(k, 0) / n
        check(abs(got.get(k, 0) - w) <= .5000001 * 10. ** -dec + 1e-9 * abs(w), "coefficient of", k,
              "is", got.get(k, 0), "instead of", w, "for", d, tol, dec)
    ctx.nontrivial(len(keep) > 1 and len(keep) < len(d))


def cases(s, **kw):
    some = S.terms
    return st.fixed_dictionaries({**dict(
        spec=s, all=pick([False, False, True]), c=colspec(), dual=st.booleans(),
        opts=st.just({}), model=pick([False, False, False, False, True]), box=pick([8, 8, 7, 6, 5, 3, 0]),
        obj=st.one_of(st.just([]), some), min=st.booleans(),
        eq=st.one_of(*[st.just([])] * 4, st.lists(some, min_size=1, max_size=1)),
        ineq=st.one_of(*[st.just([])] * 3, st.lists(some, min_size=1, max_size=2)),
        vals=st.one_of(st.just("dist"), st.just("dist"), some),
        lpi=pick([False, False, True]), seed=st.integers(0, 10 ** 6),
        mode=pick(["plain", "plain", "feas", "feas", "rk", "ri"]), round=pick([0, 0, 1, 2, 3, 4, 5, 6, 7]),
        w=st.lists(st.integers(0, 6), min_size=1, max_size=3)), **kw})


s_lp = scenario(parties=(1, 3), sources=(1, 3), lev_max=2, max_ops=20, max_group=8,
                max_maxevents=120)
s_sdp = scenario(parties=(1, 3), sources=(1, 3), lev_max=2, max_ops=18, max_group=8)
PARTS = [
    Part("lp", cases(s_lp, opts=st.fixed_dictionaries(dict(default_non_negative=st.booleans()))),
         lambda c, x: run(c, x, "lp"), 700, 14000),
    Part("sdp", cases(s_sdp), lambda c, x: run(c, x, "sdp"), 500, 9000),
    Part("rounding", st.fixed_dictionaries(dict(
        vals=st.lists(st.tuples(st.integers(-9, 9), st.integers(0, 13)).map(list), max_size=5),
        int=pick([False, False, True]), dec=st.integers(0, 6),
        tol=st.tuples(pick([1, 1, 3, 0]), st.integers(0, 11)).map(list))), run_clean, 400, 4000),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()


def lp_bounds():
    """Known limitation: the multipliers of the user's bounds are not part of LP certificates."""
    from inflation import InflationLP
    standin.install()
    lp = InflationLP(build(dict(dag=[["h1", ["A"]]], out=[2], set=[1], lev=[1], cl=[], cil=[], nil=[],
                                order=None)))
    m = lp.monomials[1]
    lp.set_bounds({m: .6}, "up")
    lp.set_objective({m: 1.})
    lp.solve()
    raw = lp.certificate_as_dict(clean=False)
    v = value(raw, lambda q: 1. if q.is_one else lp.solution_object["x"][q.name])
    check(abs(v) < 1e-6, "max", m, "with", m, "<= .6: the certificate", raw, "has value", v,
          "at the optimum", lp.objective_value)


FINDINGS = [("K05", lp_bounds)]
