"""C01 LP relaxation is sound: explicit models satisfy everything it imposes."""
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int, quantum_model
from ..models import ClassicalModel

ID = "C01"
RULE = ("non-trivial: the program has an inequality with three or more terms or an equality, and "
        "the model gives some variable a value strictly between 0 and 1")
TOL = 1e-7


class Values(dict):
    """value of every LP variable in a model (product over its parts)"""

    def __init__(self, lp, m):
        self.m = m
        for mon in lp.monomials:
            self[mon] = self.of(mon)

    def of(self, mon):
        v = 1.0
        for f in mon.factors:
            v *= self.m.moment([int(i) for i in f.as_lexmon])
        return v


def verify_matrices(lp, x, what):
    """the vector x satisfies the program handed to the solver"""
    a = lp._prepare_solver_matrices()
    check(list(a["variables"]) == [m.name for m in lp.monomials], "variables")

    def coo(M):
        M = M.tocoo()
        return zip(M.row.tolist(), M.col.tolist(), M.data.tolist())
    for key, sign in (("equalities", 0), ("inequalities", 1)):
        M = a[key]
        r = M @ x if M.shape[0] else np.zeros(0)
        bad = np.flatnonzero(np.abs(r) > 1e-6 if not sign else r < -1e-6)
        if len(bad):
            k = int(bad[0])
            row = {str(lp.monomials[c]): d for q, c, d in coo(M) if q == k}
            check(False, what, key, row, "is violated: the model gives", r[k])
    for _, c, v in coo(a["known_vars"]):
        check(abs(v - x[c]) < TOL, what, lp.monomials[c], "is fixed to", v, "but equals", x[c])
    for _, c, v in coo(a["lower_bounds"]):
        check(x[c] > v - TOL, what, lp.monomials[c], "is bounded below by", v, "but equals", x[c])
    for _, c, v in coo(a["upper_bounds"]):
        check(x[c] < v + TOL, what, lp.monomials[c], "is bounded above by", v, "but equals", x[c])
    if lp.default_non_negative:
        check((x > -TOL).all(), what, "negative variable")


def make_model(R, case, ctx):
    if case["model"] == 0 or all(R.cl):
        if sum(R.lev) <= 11:
            ctx.label("classical model")
            return ClassicalModel(R, case["seed"], 2, sparse=case["sparse"])
    ctx.label("quantum model")
    return quantum_model(R, case["seed"], 11)


def run_model(case, ctx):
    from inflation import InflationLP
    R = Ref(case["spec"])
    m = make_model(R, case, ctx)
    lp = InflationLP(build(case["spec"]), include_all_outcomes=case["all"],
                     default_non_negative=case["nn"],
                     nonfanout=not (all(R.cl) and case["fan"]))
    val = Values(lp, m)
    x = np.array([val[mon] for mon in lp.monomials])
    # variables stand for symmetric copies with one value
    rng = np.random.default_rng(case["seed"])
    for k in range(6):
        mon = lp.monomials[rng.integers(len(lp.monomials))]
        g = R.perms[rng.integers(len(R.perms))]
        w = [int(g[int(i)]) for i in mon.as_lexmon] if mon.n_factors == 1 else []
        if w:
            check(abs(m.moment(w) - val[mon]) < TOL, "symmetric copies of", mon, "differ")
    raw = np.asarray(lp._raw_monomials_as_lexboolvecs)
    inv = np.asarray(lp.inverse)
    for i in rng.integers(0, len(raw), 12):
        w = np.flatnonzero(raw[i]).tolist()
        check(abs(m.moment(w) - x[inv[i]]) < TOL, "the event", w, "is represented by",
              lp.monomials[inv[i]], "which has another value")
    verify_matrices(lp, x, "without values:")
    dist = m.distribution()
    lp.set_distribution(dist, use_lpi_constraints=case["lpi"], shared_randomness=case["sr"])
    verify_matrices(lp, x, "with a distribution:")
    mi = lp.minimal_sparse_inequalities.tocsr()
    ctx.nontrivial((np.diff(mi.indptr).max(initial=0) > 2 or lp.minimal_sparse_equalities.shape[0])
                   and ((x > 1e-6) & (x < 1 - 1e-6)).any())
    ctx.label(f"lpi {case['lpi']} sr {case['sr']}")
    ctx.label("equalities" if lp.minimal_sparse_equalities.shape[0] else "no equalities")


def cases(s):
    return st.fixed_dictionaries(dict(
        spec=s, all=pick([False, False, True]), nn=pick([True, True, False]), fan=st.booleans(),
        lpi=st.booleans(), sr=pick([False, False, False, True]), seed=st.integers(0, 10 ** 6),
        model=pick([0, 0, 1]), sparse=st.booleans()))


PARTS = [
    Part("models", cases(scenario(parties=(1, 4), sources=(1, 3), lev_max=3, max_ops=30,
                                  max_group=24, max_maxevents=1500)), run_model, 600, 9000),
    Part("classical", cases(scenario(parties=(1, 4), sources=(1, 3), lev_max=3, max_ops=24,
                                     max_group=24, max_maxevents=3000, classical="all")),
         run_model, 500, 8000),
    Part("links", cases(scenario(parties=(2, 4), sources=(1, 2), lev_max=2, max_ops=30,
                                 max_group=8, max_maxevents=2000).filter(
        lambda s: not Ref(s).network)), run_model, 400, 6000),
]


def SETUP():
    warnings.simplefilter("ignore")
    from ..warm import warm_lp
    warm_lp()
