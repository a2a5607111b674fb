"""C03 SDP relaxation is sound: explicit models satisfy everything it imposes."""
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import classical_latent_commutation, pick, quantum_model
from ..models import ClassicalModel
from ..cols import colspec, choose

ID = "C03"
RULE = ("non-trivial: the program fixes at least one value from the model's distribution besides "
        "0 and 1 (or imposes an equality), and the model's moment matrix is not a 0/1 matrix")
TOL = 1e-7


def fac_value(R, m, mon):
    v = 1.0
    for f in mon.factors:
        v *= m.moment([int(i) - 1 for i in f.as_lexmon])
    return v


def near(a, b):
    return abs(a - b) <= TOL * (1 + abs(a) + abs(b))


def verify_arguments(args, val, gram, what):
    """the values satisfy the program handed to the solver"""
    n = len(gram)
    tot = np.zeros((n, n))
    for name, mask in args["mask_matrices"].items():
        check(name in val, what, "unknown variable", name)
        a = mask.toarray() if hasattr(mask, "toarray") else np.asarray(mask)
        tot += np.asarray(a, float) * val[name]
    check(np.abs(tot - gram).max() < 1e-6, what, "the moment matrix of the model is not of the "
          "form imposed")
    for name, v in args["known_vars"].items():
        check(near(float(v), val[name]), what, name, "is fixed to", v, "but equals", val[name])
    for name, (c, other) in args["semiknown_vars"].items():
        check(near(float(c) * val[other], val[name]), what, name, "is tied to", c, "*", other,
              "=", c * val[other], "but equals", val[name])
    for eq in args["equalities"]:
        s = sum(c * val[k] for k, c in eq.items())
        check(abs(s) < 1e-6, what, "equality", eq, "is violated by", s)
    for q in args["inequalities"]:
        s = sum(c * val[k] for k, c in q.items())
        check(s > -1e-6, what, "inequality", q, "is violated by", s)


def make_model(R, case):
    if case["model"] == 0 or all(R.cl):
        if sum(R.lev) <= 10:
            return ClassicalModel(R, case["seed"], 2, sparse=case["sparse"]), "classical"
    return quantum_model(R, case["seed"], 11), "quantum"


def run_model(case, ctx):
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    m, lab = make_model(R, case)
    ctx.label("model " + lab)
    sdp = InflationSDP(build(spec), include_all_outcomes=case["all"])
    cs, l2 = choose(sdp, R, case["c"], case["limit"])
    sdp.generate_relaxation(cs)
    cols = [[int(v) - 1 for v in w] for w in sdp.generating_monomials_1d]
    G = m.gram(cols)
    M = np.asarray(sdp.momentmatrix)
    values = {}
    for x in np.unique(M):
        c = G[M == x]
        check(np.ptp(c) < 1e-7, "cells with variable", x, "have different values in a model",
              c.min(), c.max())
        mon = sdp.compmoment_from_idx[int(x)]
        v = 0.0 if mon.is_zero else fac_value(R, m, mon)
        check(near(v, c[0]), "variable", mon, "has value", v, "but its cells have", c[0])
        values[mon] = v
    for mon in sdp.hermitian_moments:
        check(values[mon] > -TOL, "moment", mon, "declared non-negative has value", values[mon])
    for mon in sdp.moments:
        check(values[mon] < 1 + TOL, "value above 1")
    dist = m.distribution()
    check(near(dist.sum(), np.prod(R.priv)), "harness: distribution")
    kw = dict(use_lpi_constraints=case["lpi"], shared_randomness=case["sr"])

    def table():
        val = {mon.name: v for mon, v in values.items()}
        val[sdp.constant_term_name] = 1.0
        for mon, (_, other) in sdp.semiknown_moments.items():
            val.setdefault(other.name, fac_value(R, m, other))
        return val
    verify_arguments(sdp._prepare_solver_arguments(), table(), G, "without values:")
    sdp.set_distribution(dist, **kw)
    verify_arguments(sdp._prepare_solver_arguments(), table(), G, "with a distribution:")
    known = [v for k, v in sdp.known_moments.items() if not (k.is_one or k.is_zero)]
    ctx.label(f"lpi {case['lpi']} " + ("semiknown" if sdp.semiknown_moments else ""))
    ctx.label("equalities" if sdp.minimal_equalities else "no equalities")
    ctx.nontrivial((known or sdp.minimal_equalities) and
                   ((G > 1e-6) & (G < 1 - 1e-6)).any())


def cases(s):
    return st.fixed_dictionaries(dict(
        spec=s, c=colspec(), all=pick([False, False, True]),
        lpi=st.booleans(), sr=pick([False, False, False, True]), seed=st.integers(0, 10 ** 6),
        model=pick([0, 1, 1]), sparse=st.booleans(), limit=pick([10, 16, 22])))


PARTS = [
    Part("models", cases(scenario(parties=(1, 4), lev_max=3, max_ops=32, max_group=24)),
         run_model, 600, 9000),
    Part("networks-quantum", cases(scenario(parties=(1, 3), sources=(1, 2), lev_max=2, max_ops=24,
                                            max_group=8, links=False, classical="none")),
         run_model, 400, 6000),
    Part("links", cases(scenario(parties=(2, 3), sources=(1, 2), lev_max=2, max_ops=30,
                                 max_group=8, latents=False).filter(
        lambda s: any(k in [p for e in s["dag"] for p in e[1]] for k, _ in s["dag"]))),
         run_model, 300, 5000),
]


FINDINGS = [("K01", classical_latent_commutation)]


def SETUP():
    warnings.simplefilter("ignore")
    from ..warm import warm_sdp
    warm_sdp()
