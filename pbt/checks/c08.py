"""C08 values fixed from a distribution (and from partial values)."""
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..models import ClassicalModel
from ..cols import colspec, choose, conjspec

ID = "C08"
RULE = ("non-trivial: at least one moment of two or more operators or of two or more independent "
        "parts receives a value or a coefficient that is neither 0 nor 1")
TOL = 1e-9


def behaviour(R, case):
    """a behaviour consistent with the visible structure: a mixture of
    (possibly deterministic) classical models, hence correlated sources"""
    ws = np.array(case["w"], float) + .5
    ws /= ws.sum()
    return sum(w * ClassicalModel(R, case["seed"] + k, 2, sparse=case["sparse"]).distribution()
               for k, w in enumerate(ws))


def words_of(m, shift):
    return [[int(i) - shift for i in f.as_lexmon] for f in m.factors]


def equal(a, b):
    return abs(float(a) - float(b)) <= TOL * (1 + abs(float(b))) * 10


def compare(what, known, semi, moments, want_known, want_semi, ctx):
    """known: moment->number; want_known: moment->number"""
    for m in moments:
        if m.is_one:
            check(m not in known or equal(known[m], 1), what, "the identity has value", known.get(m))
            continue
        if m.is_zero:
            check(m in known and known[m] == 0, what, "the zero moment has value", known.get(m))
            continue
        if m in want_known:
            check(m in known, what, m, "is not fixed; expected", want_known[m])
            check(equal(known[m], want_known[m]), what, m, "is fixed to", known[m], "expected",
                  want_known[m])
            if not (equal(known[m], 0) or equal(known[m], 1)) and m.n_operators > 1:
                ctx.nontrivial()
        else:
            check(m not in known, what, m, "is fixed to", known.get(m), "but is not computable")
        if m in want_semi:
            c, u = want_semi[m]
            check(m in semi, what, m, "is not tied to its unknown part", u)
            check(equal(semi[m][0], c) and semi[m][1] == u, what, m, "is tied to", semi[m],
                  "expected", (c, u))
            ctx.nontrivial()
        else:
            check(m not in semi, what, m, "is tied to", semi.get(m), "without reason")
    for m in known:
        check(m in set(moments) or m.is_one or m.is_zero, what, "value fixed for", m,
              "which is not a variable")


def run_dist(case, ctx, kind):
    R = Ref(case["spec"])
    prog, shift = make(R, case, kind, ctx)
    dist = behaviour(R, case)
    if case["seed"] % 3 == 1:
        dist = np.where(dist == 0, -1e-17, dist)     # rounding errors
        ctx.label("rounding errors")
    lpi, sr = case["lpi"], case["sr"]
    prog.set_distribution(dist, use_lpi_constraints=lpi, shared_randomness=sr)
    wk, ws = {}, {}
    for m in prog.moments if kind == "sdp" else prog.monomials:
        if m.is_one or m.is_zero:
            continue
        fs = words_of(m, shift)
        kn = [R.knowable(f) for f in fs]
        check(m.is_knowable == all(kn), m, "knowable:", m.is_knowable)
        v = 1.0
        for f, k in zip(fs, kn):
            if k:
                v *= R.event_prob(f, dist)
        if sr:
            if len(fs) == 1 and kn[0]:
                wk[m] = v
        elif all(kn):
            wk[m] = v
        elif lpi and any(kn):
            if v <= 1e-8:
                wk[m] = 0
            else:
                un = [f for f, k in zip(m.factors, kn) if not k]
                ws[m] = (v, prog._monomial_from_atoms(un))
        if all(kn):
            check(equal(m.compute_marginal(dist), v), m, "has marginal", m.compute_marginal(dist),
                  "expected", v)
    compare("distribution:", prog.known_moments, prog.semiknown_moments,
            prog.moments if kind == "sdp" else prog.monomials, wk, ws, ctx)
    ctx.label(f"lpi {lpi} sr {sr}")
    if ws:
        ctx.label("proportional values")
    if not R.network:
        ctx.label("visible links")
    # values can be dropped again
    prog.set_distribution(None)
    check(not [m for m in prog.known_moments if not (m.is_one or m.is_zero)] and
          not prog.semiknown_moments, "values remain after set_distribution(None)")


def make(R, case, kind, ctx):
    if kind == "sdp":
        from inflation import InflationSDP
        p = InflationSDP(build(case["spec"]), include_all_outcomes=case["all"])
        cs, lab = choose(p, R, case["c"], case["limit"])
        p.generate_relaxation(cs)
        ctx.label(lab)
        return p, 1
    from inflation import InflationLP
    p = InflationLP(build(case["spec"]), include_all_outcomes=case["all"])
    return p, 0


def run_values(case, ctx, kind):
    """values for some of the moments"""
    R = Ref(case["spec"])
    prog, shift = make(R, case, kind, ctx)
    moments = list(prog.moments if kind == "sdp" else prog.monomials)
    atoms = [m for m in moments if m.n_factors == 1 and not (m.is_one or m.is_zero)]
    comps = [m for m in moments if m.n_factors > 1]
    if case["knowable_only"]:
        atoms = [m for m in atoms if m.is_knowable]
    if not atoms:
        raise Discard("no atoms")
    lpi, only = case["lpi"], case["only"]
    given, key = {}, {}

    def akey(f):
        return R.rep([int(i) - shift for i in f.as_lexmon], conj=kind == "sdp")
    vals = {}
    for t, v, form in case["vals"]:
        m = atoms[t % len(atoms)]
        v = v / 8
        if form == 3 and v > .9:
            vals[m] = (float("nan"), 0)
            continue
        vals[m] = (v, form)
    for m, (v, _) in vals.items():
        if v == v:
            given[m] = v
            key[akey(m.factors[0])] = v
    if case["comp"] and comps:
        m = comps[case["comp"] % len(comps)]
        # (a value contradicting a vanishing factor is not a consistent input)
        if any(akey(f) not in key for f in m.factors) and \
                all(key.get(akey(f)) != 0 for f in m.factors):
            given[m] = .3125
            vals[m] = (.3125, case["comp"] % 3)
            ctx.label("composite value")
    forms = {0: lambda m: m, 1: lambda m: m.name, 2: lambda m: m.symbol, 3: lambda m: m.name}
    prog.set_values({forms[f](m): v for m, (v, f) in vals.items()},
                    use_lpi_constraints=lpi, only_specified_values=only)
    wk, ws = dict(given), {}
    if not only and given:
        for m in comps:
            have = [akey(f) in key for f in m.factors]
            v = 1.0
            for f, h in zip(m.factors, have):
                if h:
                    v *= key[akey(f)]
            if m in given:
                continue
            if all(have):
                wk[m] = v
            elif lpi and any(have):
                if v <= 1e-8:
                    wk[m] = 0
                else:
                    ws[m] = (v, prog._monomial_from_atoms(
                        [f for f, h in zip(m.factors, have) if not h]))
    compare("values:", prog.known_moments, prog.semiknown_moments, moments, wk, ws, ctx)
    ctx.label(f"lpi {lpi} only {only} " + ("unknowable" if any(
        not m.is_knowable for m in given) else ""))


def base(s, c=None, **kw):
    return dict(spec=s, c=colspec() if c is None else c, all=pick([False, False, True]),
                seed=st.integers(0, 10 ** 6), w=st.lists(st.integers(0, 6), min_size=1, max_size=3),
                sparse=st.booleans(), lpi=st.booleans(), limit=pick([14, 20]), **kw)


def dist(s):
    return st.fixed_dictionaries(base(s, sr=pick([False, False, False, True])))


def values(s, c=None):
    return st.fixed_dictionaries(base(
        s, c, only=pick([False, False, True]), knowable_only=st.booleans(),
        comp=pick([0, 0, 5, 77, 131]),
        vals=st.lists(st.tuples(mixed_int(997), st.integers(0, 8), mixed_int(4)).map(list),
                      min_size=1, max_size=8)))


s1 = scenario(parties=(1, 4), lev_max=3, max_ops=32, max_group=24)
s1l = scenario(parties=(2, 4), sources=(1, 2), lev_max=2, max_ops=40, max_group=8)
s2 = scenario(parties=(1, 4), sources=(1, 3), lev_max=2, max_ops=24, max_group=24,
              max_maxevents=1500)
s3 = scenario(parties=(1, 2), sources=(1, 2), lev_max=3, max_ops=30, max_group=8,
              classical="none", links=False)
PARTS = [
    Part("sdp-distribution", dist(s1), lambda c, x: run_dist(c, x, "sdp"), 700, 15000),
    Part("sdp-distribution-links", dist(s1l.filter(lambda s: not Ref(s).network)),
         lambda c, x: run_dist(c, x, "sdp"), 600, 12000),
    Part("lp-distribution", dist(s2), lambda c, x: run_dist(c, x, "lp"), 700, 15000),
    Part("sdp-values", values(s1), lambda c, x: run_values(c, x, "sdp"), 700, 15000),
    # parts that do not commute next to their conjugates
    Part("sdp-values-conjugates", values(s3, conjspec()),
         lambda c, x: run_values(c, x, "sdp"), 700, 12000),
    Part("lp-values", values(s2), lambda c, x: run_values(c, x, "lp"), 700, 15000),
]


def identifiable():
    """Known limitation: P(A=0,B=0) = P(A=0) P(B=0|do(A=0)) is in the data, yet neither the
    product nor the do-conditional are fixed."""
    from inflation import InflationLP
    spec = dict(dag=[["h1", ["A"]], ["h2", ["B"]], ["A", ["B"]]], out=[2, 2], set=[1, 1],
                lev=[1, 1], cl=[], cil=[], nil=[], order=None)
    R = Ref(spec)
    lp = InflationLP(build(spec))
    lp.set_distribution(np.array([[.3, .2], [.1, .4]])[..., None, None])
    for m in lp.monomials:
        w = [i for f in words_of(m, 0) for i in f]
        if not m.is_one and R.knowable(w):
            check(m in lp.known_moments, m, "is not fixed although the data contain it:",
                  R.event_prob(w, np.array([[.3, .2], [.1, .4]])[..., None, None]))


FINDINGS = [("K03", identifiable)]


def SETUP():
    warnings.simplefilter("ignore")
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
