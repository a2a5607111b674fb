"""C20 possibilistic mode decides from the support alone."""
import warnings
import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..blp import BruteLP
from ..cols import colspec, choose
from .. import standin
from .c08 import behaviour, words_of

ID = "C20"
RULE = ("non-trivial: some event of the data is impossible and at least two different moments are "
        "required to be possible")


def program(R, case, kind, ctx):
    if kind == "sdp":
        from inflation import InflationSDP
        p = InflationSDP(build(case["spec"]), supports_problem=True,
                         include_all_outcomes=case["all"])
        cs, lab = choose(p, R, case["c"], case["limit"])
        p.generate_relaxation(cs)
        ctx.label(lab)
        return p, 1
    from inflation import InflationLP
    return InflationLP(build(case["spec"]), supports_problem=True,
                       include_all_outcomes=case["all"]), 0


def support(R, case):
    """probabilities; any strictly positive numbers can be put on the support"""
    kind = case["dist"]
    if kind <= 1:
        d = behaviour(R, dict(case, w=case["w"] if kind else [1]))
    elif kind == 2:
        # arbitrary zeros on top of a behaviour (signalling is possible)
        d = behaviour(R, dict(case, sparse=False))
        rng = np.random.default_rng(case["seed"])
        d = d * (rng.random(d.shape) < .6)
    else:
        d = np.zeros(R.out + list(R.priv))
        for k in range(2):
            d[tuple([k % R.out[q] for q in range(R.n)])] = .5
    return np.where(d > 1e-9, d, 0)


def reweight(d, case):
    """the same support with other weights, some of them small"""
    rng = np.random.default_rng(case["seed"] + 5)
    e = d * rng.uniform(.2, 1., d.shape)
    if case["small"]:
        e = np.where(rng.random(d.shape) < .5, e * 10. ** -case["small"], e)
    return e


def expected(R, prog, shift, dist, lpi, shared, moments):
    zero, possible = set(), set()
    for m in moments:
        if m.is_zero or m.is_one:
            continue
        fs = words_of(m, shift)
        kn = [R.knowable(f) for f in fs]
        if shared and len(fs) > 1:
            continue
        v = [R.event_prob(f, dist) > 0 for f, k in zip(fs, kn) if k]
        if all(kn):
            (possible if all(v) else zero).add(m)
        elif lpi and any(kn) and not all(v):
            zero.add(m)
    return zero, possible


def state(prog, kind, moments, zero, possible, what, values=True):
    """impossible ones are zero, possible ones are positive, nothing else"""
    known = {m: v for m, v in prog.known_moments.items() if not (m.is_zero or m.is_one)}
    low = {m: b for m, b in prog.moment_lowerbounds.items() if not m.is_one}
    for m in moments:
        if m.is_zero or m.is_one:
            continue
        if m in zero:
            check(m in known and known[m] == 0, what, m, "is impossible; its value is",
                  known.get(m, "free"))
            check(low.get(m, 0) == 0, what, m, "is impossible, and has lower bound", low.get(m))
        else:
            check(m not in known, what, m, "is fixed to", known.get(m))
            want = 1 if m in possible else 0
            check(low.get(m, 0) == want, what, m, "is",
                  "possible" if want else "unconstrained", "and has lower bound", low.get(m))
    check(not prog.semiknown_moments, what, "proportional values", prog.semiknown_moments)
    check(not prog.moment_upperbounds, what, "upper bounds", prog.moment_upperbounds)
    if values:
        check(prog.One not in prog.known_moments and prog.moment_lowerbounds.get(prog.One) == 1,
              what, "the normalization is fixed to", prog.known_moments.get(prog.One),
              "with lower bound", prog.moment_lowerbounds.get(prog.One))
    extra = set(low) - set(moments)
    check(not extra, what, "bounds on", extra)


def arguments(prog, kind):
    a = prog._prepare_solver_arguments()
    if kind == "sdp":
        return dict(known=dict(a["known_vars"]), eq=a["equalities"], obj=a["objective"],
                    semi=a["semiknown_vars"],
                    ineq=sorted(sorted(i.items()) for i in a["inequalities"]))
    return dict(known=dict(a["known_vars"]), semi=a["semiknown_vars"], lo=a["lower_bounds"],
                up=a["upper_bounds"], obj=a["objective"], eq=len(a["equalities"]))


def run_state(case, ctx, kind):
    R = Ref(case["spec"])
    prog, shift = program(R, case, kind, ctx)
    moments = list(prog.moments if kind == "sdp" else prog.monomials)
    dist = support(R, case)
    other = reweight(dist, case)
    lpi, sr = case["lpi"], case["sr"]
    zero, possible = expected(R, prog, shift, dist, lpi, sr, moments)
    calls = [dist, other]
    if case["before"] is not None:
        # another support first
        b = support(R, dict(case, dist=case["before"], seed=case["seed"] + 1))
        if case["before"] == 2:
            b = np.ones_like(b) / np.prod(R.out)
        calls = [b, dist, other]
    if case["swap"]:
        calls = calls[:-2] + [other, dist]
    args = []
    for d in calls:
        prog.set_distribution(d, use_lpi_constraints=lpi, shared_randomness=sr)
        args.append(arguments(prog, kind))
        if d is dist or d is other:
            state(prog, kind, moments, zero, possible,
                  f"lpi={lpi} shared={sr}" + (" after another support:" if len(calls) > 2
                                              else ":") + (" other weights" if d is other else ""))
    check(args[-1] == args[-2], "distributions with the same support give different programs:",
          *[(k, args[-1][k], args[-2][k]) for k in args[-1] if args[-1][k] != args[-2][k]][:1])
    ctx.nontrivial(bool(zero) and len(possible) > 1)
    ctx.label(f"lpi {lpi} shared {sr}" + (" before" if case["before"] is not None else ""))
    # resetting bounds keeps the support, resetting values drops it
    if case["reset"] % 2:
        prog.reset("bounds" if case["reset"] == 1 else ["lowerbounds"])
        state(prog, kind, moments, zero, possible, "after reset of the bounds:")
        ctx.label("reset bounds")
    prog.set_distribution(None)
    state(prog, kind, moments, (), (), "after set_distribution(None):", False)


def run_values(case, ctx, kind):
    """some of the values, in one or two steps"""
    R = Ref(case["spec"])
    prog, shift = program(R, case, kind, ctx)
    moments = list(prog.moments if kind == "sdp" else prog.monomials)
    atoms = [m for m in moments if m.n_factors == 1 and not (m.is_one or m.is_zero)
             and m.is_knowable]
    if not atoms:
        raise Discard("no atoms")
    vals = {}
    for k, v in case["vals"]:
        vals[atoms[k % len(atoms)]] = v / 8 if v else 0
    ks = list(vals)
    cut = case["cut"] % (len(ks) + 1)
    kw = dict(use_lpi_constraints=case["lpi"], only_specified_values=case["sr"])
    first, second = {m: vals[m] for m in ks[:cut]}, {m: vals[m] for m in ks[cut:]}
    if case["flip"] and first:
        m = ks[case["flip"] % cut]
        second[m] = vals[m]
        first[m] = 0 if vals[m] else .5
        ctx.label("flipped")
    if first:
        prog.set_values(first, **kw)
    if second or not first:
        (prog.update_values if first else prog.set_values)(second, **kw)
    akey = {}
    for m, v in vals.items():
        akey[m] = v > 0
    byf = {m.factors[0]: v for m, v in akey.items()}
    if kind == "sdp":
        byf.update({f.dagger: v for f, v in list(byf.items())})
    zero, possible = set(), set()
    for m in moments:
        if m.is_one or m.is_zero:
            continue
        v = [byf.get(f) for f in m.factors]
        if len(v) > 1 and case["sr"]:
            continue
        if None not in v:
            (possible if all(v) else zero).add(m)
        elif len(v) > 1 and case["lpi"] and False in v and any(x is not None for x in v):
            zero.add(m)
    state(prog, kind, moments, zero, possible, "values:")
    ctx.nontrivial(bool(zero) and len(possible) > 1)
    ctx.label("two steps" if first and second else "one step")


def possibilistic(B, R, zero, possible):
    """is there a non-negative, unnormalised solution with this support?"""
    lo, up = np.zeros(B.n), np.full(B.n, np.inf)
    lo[0] = 1
    for k in zero:
        up[k] = 0
    for k in possible:
        lo[k] = 1
    if (lo > up).any():
        return False
    r = linprog(np.zeros(B.n), A_eq=B.Aeq, b_eq=B.beq, bounds=np.column_stack([lo, up]),
                method="highs")
    if r.status not in (0, 2):
        raise Discard("solver")
    return r.status == 0


def run_decide(case, ctx):
    standin.install()
    R = Ref(case["spec"])
    B = BruteLP(R, 3000)
    prog, _ = program(R, case, "lp", ctx)
    dist = support(R, case)
    if case["small"]:
        dist = reweight(dist, case)
    zero, possible = set(), set()
    conflict = False
    for k, ev in enumerate(B.reps):
        fs = R.factors(list(ev))
        kn = [R.knowable(f) for f in fs]
        if not fs or case["sr"] and len(fs) > 1:
            continue
        v = [R.event_prob(f, dist) > 0 for f, q in zip(fs, kn) if q]
        if all(kn):
            (possible if all(v) else zero).add(k)
        elif case["lpi"] and any(kn) and not all(v):
            zero.add(k)
    # (by construction, moments with the same independent parts are one variable)
    key = {}
    rows = []
    for k, ev in enumerate(B.reps):
        q = B.key(ev)
        if q in key:
            rows.append((key[q], k))
        else:
            key[q] = k
    if rows:
        A = sp.coo_array((np.tile([1., -1.], len(rows)),
                          (np.repeat(np.arange(len(rows)), 2), np.array(rows).ravel())),
                         shape=(len(rows), B.n))
        B.Aeq = sp.vstack([B.Aeq, A]).tocsr()
        B.beq = np.zeros(B.Aeq.shape[0])
    want = possibilistic(B, R, zero, possible)
    prog.set_distribution(dist, use_lpi_constraints=case["lpi"], shared_randomness=case["sr"])
    n = standin.LOG.unknown
    prog.solve(solve_dual=bool(case["seed"] % 2))
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    check(bool(prog.success) == want, "the support is declared",
          "possible" if prog.success else "impossible", "; brute force says",
          "possible" if want else "impossible")
    if case["dist"] == 0:
        check(want, "HARNESS realizable support")
    ctx.nontrivial(not want or bool(zero) and len(possible) > 1)
    ctx.label("possible" if want else "impossible")


def run_sdp(case, ctx):
    """supports of realizable behaviours are never excluded"""
    standin.install()
    R = Ref(case["spec"])
    prog, _ = program(R, case, "sdp", ctx)
    dist = behaviour(R, dict(case, w=[1]))
    dist = np.where(dist > 1e-9, dist, 0)
    if case["small"]:
        dist = reweight(dist, case)
    prog.set_distribution(dist, use_lpi_constraints=case["lpi"], shared_randomness=case["sr"])
    n = standin.LOG.unknown
    prog.solve()
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    check(prog.success, "the support of a realizable behaviour is excluded: status", prog.status)
    ctx.nontrivial(bool((dist == 0).any()) and bool(len(prog.moment_lowerbounds) > 2))


def case_of(s, **kw):
    return st.fixed_dictionaries(dict(
        spec=s, c=colspec(), all=st.booleans(), seed=st.integers(0, 10 ** 6),
        w=st.lists(st.integers(0, 6), min_size=1, max_size=3), sparse=pick([True, True, False]),
        lpi=st.booleans(), sr=pick([False, False, False, True]), limit=st.just(kw.pop("limit", 14)),
        dist=pick([0, 1, 2, 3]), small=pick([0, 0, 2, 4]), **kw))


def state_case(s):
    return case_of(s, before=pick([None, 0, 2, 3]), swap=st.booleans(), reset=mixed_int(4))


def value_case(s):
    return case_of(s, vals=st.lists(st.tuples(mixed_int(997), pick([0, 0, 1, 3, 8])).map(list),
                                    min_size=1, max_size=6), cut=mixed_int(7), flip=mixed_int(5))


s1 = scenario(parties=(1, 4), lev_max=2, max_ops=28, max_group=12)
s2 = scenario(parties=(1, 4), sources=(1, 3), lev_max=2, max_ops=24, max_group=12,
              max_maxevents=800)
tiny = scenario(parties=(1, 3), sources=(1, 2), lev_max=2, max_ops=12, max_group=4)
loops = st.builds(
    lambda lev, cl: dict(
        dag=[[f"h{i}", ["ABC"[i], "ABC"[(i + 1) % 3]]] for i in range(3)], out=[2] * 3,
        set=[1] * 3, lev=lev, cl=[f"h{i}" for i in range(3) if cl[i]], cil=[], nil=[],
        order=list("ABC")),
    pick([[1, 1, 2], [1, 2, 1], [2, 1, 1], [2, 2, 1]]),
    st.lists(st.booleans(), min_size=3, max_size=3))
PARTS = [
    Part("sdp-state", state_case(s1), lambda c, x: run_state(c, x, "sdp"), 500, 8000),
    Part("lp-state", state_case(s2), lambda c, x: run_state(c, x, "lp"), 500, 8000),
    Part("sdp-values", value_case(s1), lambda c, x: run_values(c, x, "sdp"), 400, 6000),
    Part("lp-values", value_case(s2), lambda c, x: run_values(c, x, "lp"), 400, 6000),
    Part("lp-decision", case_of(s2), run_decide, 500, 8000),
    Part("lp-loops", case_of(loops).map(lambda c: dict(c, dist=2 + c["dist"] % 2)), run_decide,
         120, 1500),
    Part("sdp-decision", case_of(tiny, limit=10), run_sdp, 250, 4000),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
