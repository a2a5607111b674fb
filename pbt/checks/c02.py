"""C02 LP relaxation is exactly the advertised one."""
import itertools
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..blp import BruteLP
from ..models import ClassicalModel
from .. import standin
from .c06 import moment_sym_key
from .c08 import behaviour

ID = "C02"
RULE = ("non-trivial: an optimum was compared that is attained strictly inside the range of the "
        "objective over single events, or a set of fixed values was found infeasible by both")
TOL = 1e-6


def variables(R, B, lp, ctx, allout):
    """library variable -> brute-force variable; exactly the expected set"""
    last = {i for i, (p, c, x, a) in enumerate(R.ops)
            if a == R.out[p] - 1 and not (allout or R.has_children[p])}
    want = {B.key(ev) for ev in B.reps if not last.intersection(ev)}
    got = {}
    for m in lp.monomials:
        k = moment_sym_key(R, m, 0) if not m.is_one else ()
        check(k not in got, "the variables", m, "and", got.get(k), "are the same event")
        got[k] = m
    check(set(got) <= want, "unexpected variables", [got[k] for k in set(got) - want][:4])
    check(want <= set(got), "missing variables", sorted(want - set(got))[:4])
    by = B.by_key
    return {m: by[k] for k, m in got.items()}


def settle(lp, **kw):
    n = standin.LOG.unknown
    lp.solve(**kw)
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    if lp.success:
        return "feasible", lp.objective_value
    check("infeas" in lp.status, "status", lp.status)
    return "infeasible", None


def values_for(R, B, lp, var, dist, lpi):
    """fixed values and ties by the definition"""
    fixed, ties = [], []
    for m, k in var.items():
        if m.is_one:
            continue
        fs = R.factors(list(B.reps[k]))
        kn = [R.knowable(f) for f in fs]
        v = 1.0
        for f, q in zip(fs, kn):
            if q:
                v *= R.event_prob(f, dist)
        if all(kn):
            fixed.append((k, v))
        elif lpi and any(kn):
            un = [f for f, q in zip(fs, kn) if not q]
            ties.append((k, v, B.index(un)))
    return fixed, ties


def distribution(R, case):
    kind = case["dist"]
    if kind == 0:
        return None
    d = behaviour(R, dict(case, w=case["w"] if kind > 1 else [1]))
    if case.get("net") and R.network and max(R.priv) == 1:
        # any distribution is consistent with the visible structure
        rng = np.random.default_rng(case["seed"])
        q = rng.dirichlet([.3 if case["sparse"] else 2.] * int(np.prod(R.out)))
        e = np.zeros(len(q))
        e[0], e[-1] = .5, .5
        t = rng.random()
        q = q.round(2 if case["sparse"] else 12)
        q = q / q.sum() if q.sum() else e
        return (t * q + (1 - t) * e).reshape(R.out + [1] * R.n)
    if kind == 3:
        # mostly deterministic points: often outside the set of the inflation
        d = behaviour(R, dict(case, w=[5, 5], sparse=True))
    if kind == 4:
        # as far as possible from one such point through another
        d = behaviour(R, dict(case, w=[4, 5, 6], sparse=False))
        for q in range(4):
            e = behaviour(R, dict(case, w=[1], sparse=True, seed=case["seed"] + 17 + q))
            g = d - e
            t = (d[g < -1e-12] / -g[g < -1e-12]).min(initial=1e9)
            if t < 1e9:
                d = np.maximum(d + .999 * t * g, 0)
    return d


def run(case, ctx):
    from inflation import InflationLP
    standin.install()
    R = Ref(case["spec"])
    B = BruteLP(R, 7000 if case.get("net") else 4000)
    lp = InflationLP(build(case["spec"]), include_all_outcomes=case["all"],
                     default_non_negative=case["nn"])
    var = variables(R, B, lp, ctx, case["all"])
    inv = np.asarray(lp.inverse)
    dist = distribution(R, case)
    fixed, ties = [], []
    if dist is not None:
        lp.set_distribution(dist, use_lpi_constraints=case["lpi"])
        fixed, ties = values_for(R, B, lp, var, dist, case["lpi"])
    mons = [m for m in lp.monomials if not m.is_one]
    rng = np.random.default_rng(case["seed"])
    objs = []
    for terms in case["objs"]:
        o = {}
        for t, c in terms:
            m = mons[t % len(mons)]
            o[m] = o.get(m, 0) + c
        objs.append(o)
    # the sign of one (representative) maximal event
    mx = B.maximal()
    for q in range(3):
        k = mx[rng.integers(len(mx))]
        # expressed by the library's variables through inclusion-exclusion
        objs.append(expand(R, B, lp, B.reps[k], {v: m for m, v in var.items()}, case["all"]))
    unknown = set(m for m in mons) - {m for m, k in var.items() if k in dict(fixed)}
    for j, o in enumerate(objs):
        o = {m: c for m, c in o.items() if abs(c) > 1e-12}
        vec = np.zeros(B.n)
        for m, c in o.items():
            vec[var[m]] += c
        for direction in ("max", "min"):
            s, f = B.solve(-vec if direction == "max" else vec, fixed, ties)
            lp.set_objective(o, direction)
            st_, g = settle(lp, solve_dual=bool((j + case["seed"]) % 2))
            check(s == st_, direction, o, ": brute force says", s, "and the library says", st_,
                  "(values: %s)" % (len(fixed),))
            if s == "feasible":
                f = -f if direction == "max" else f
                check(abs(f - g) < TOL * (1 + abs(f)), direction, o, "is", g, "instead of", f)
                if len(set(o) & unknown) and abs(f - round(f)) > 1e-6:
                    ctx.nontrivial()
                    ctx.label("fractional optimum")
            else:
                ctx.nontrivial()
                ctx.label("infeasible")
                return
    ctx.label("values" if fixed else "no values")
    if ties:
        ctx.label("proportional values")


def expand(R, B, lp, ev, mon, allout):
    o = {ev: 1}
    for i in ev:
        p, c, x, a = R.ops[i]
        if a == R.out[p] - 1 and not (allout or R.has_children[p]):
            n = {}
            for e, v in o.items():
                r = tuple(q for q in e if q != i)
                n[r] = n.get(r, 0) + v
                for b in range(a):
                    e2 = tuple(sorted(r + (R.idx[p, c, x, b],)))
                    n[e2] = n.get(e2, 0) - v
            o = n
    out = {}
    for e, v in o.items():
        m = mon[B.var[e]]
        out[m] = out.get(m, 0) + v
    return out


def run_single(case, ctx):
    """one common source without copies: the program is exactly the polytope of
    deterministic strategies (classical source), known in closed form"""
    from inflation import InflationLP
    standin.install()
    spec = case["spec"]
    R = Ref(spec)
    lp = InflationLP(build(spec), include_all_outcomes=case["all"])
    strategies = [list(itertools.product(range(R.out[p]), repeat=len(R.eff[p])))
                  for p in range(R.n)]
    total = np.prod([float(len(s)) for s in strategies])
    if total > 3000:
        raise Discard("too many strategies")
    mons = [m for m in lp.monomials if not m.is_one]
    if not mons:
        raise Discard("no moments")
    o = {}
    for t, c in case["obj"]:
        m = mons[t % len(mons)]
        o[m] = o.get(m, 0) + c
    words = {m: [[R.ops[int(i)] for i in f.as_lexmon] for f in m.factors] for m in o}
    best = {"max": -np.inf, "min": np.inf}
    for s in itertools.product(*strategies):
        v = 0
        for m, c in o.items():
            if all(s[p][x] == a for w in words[m] for p, _, x, a in w):
                v += c
        best["max"] = max(best["max"], v)
        best["min"] = min(best["min"], v)
    for d in ("max", "min"):
        lp.set_objective(o, d)
        s, g = settle(lp, solve_dual=case["dual"])
        check(s == "feasible", "status", s)
        check(abs(g - best[d]) < TOL * (1 + abs(g)), d, o, "is", g, "; the best strategy gives",
              best[d])
    ctx.nontrivial(len(o) > 2)
    ctx.label("visible links" if not R.network else "no links")


def bell_games(case, ctx):
    """two parties, one source: CHSH-like functionals; classical and
    no-signalling optima in closed form / by the textbook program"""
    from inflation import InflationLP, InflationProblem
    standin.install()
    g = np.array(case["game"], float).reshape(2, 2)
    if not g.any():
        raise Discard("zero game")
    corr = {}
    for x in range(2):
        for y in range(2):
            corr[x, y] = g[x, y]
    local = max(sum(g[x, y] * a[x] * b[y] for x in range(2) for y in range(2))
                for a in itertools.product([1, -1], repeat=2)
                for b in itertools.product([1, -1], repeat=2))
    ns = np.abs(g).sum()
    for cl, want in (("all", local), (None, ns)):
        P = InflationProblem(dag={"s": ["A", "B"]}, outcomes_per_party=[2, 2],
                             settings_per_party=[2, 2], inflation_level_per_source=[1],
                             classical_sources=cl)
        lp = InflationLP(P, include_all_outcomes=case["all"])
        o = {}

        def add(k, c):
            o[k] = o.get(k, 0) + c
        for x in range(2):
            for y in range(2):
                # <A_x B_y> = 4 p(00) - 2 pA(0) - 2 pB(0) + 1
                add(f"P[A_{x}=0 B_{y}=0]", 4 * g[x, y])
                add(f"P[A_{x}=0]", -2 * g[x, y])
                add(f"P[B_{y}=0]", -2 * g[x, y])
                add("1", g[x, y])
        lp.set_objective(o, "max")
        s, v = settle(lp, solve_dual=case["dual"])
        check(s == "feasible" and abs(v - want) < 1e-6, "the optimum of the game", g.tolist(),
              "is", v, "instead of", want, "classical" if cl else "no-signalling")
    ctx.nontrivial(abs(local - ns) > 1e-9)


def objectives(n=3):
    return st.lists(st.lists(st.tuples(mixed_int(9973), st.integers(-3, 3)).map(list),
                             min_size=1, max_size=5), min_size=1, max_size=n)


def cases(s):
    return st.fixed_dictionaries(dict(
        spec=s, all=pick([False, False, True]), nn=pick([True, True, False]),
        dist=pick([0, 1, 2, 3, 4, 4]), lpi=pick([False, False, True]), seed=st.integers(0, 10 ** 6),
        sparse=st.booleans(), w=st.lists(st.integers(0, 6), min_size=2, max_size=3),
        objs=objectives()))


NETS = {"triangle": (3, [[0, 1], [1, 2], [0, 2]]), "chain": (3, [[0, 1], [1, 2]]),
        "evans": (3, [[0, 1], [1, 2]]), "pair": (2, [[0, 1], [0, 1]]),
        "star": (3, [[0, 1, 2], [0]]), "bell": (2, [[0, 1]]), "three": (3, [[0, 1, 2]])}


@st.composite
def network(draw):
    """well-known networks with copies; settings of one or two values"""
    k = draw(pick(list(NETS)))
    n, src = NETS[k]
    names = ["A", "B", "C"][:n]
    lev = [draw(st.integers(1, 3)) for _ in src]
    if k == "triangle":
        lev = [2, 2, draw(st.integers(1, 2))]
    sett = [1] * n
    if k in ("bell", "three", "pair"):
        lev = [min(v, 2) for v in lev]
    if k in ("bell", "three", "chain") and draw(st.booleans()):
        sett[draw(st.integers(0, n - 1))] = 2
    out = [2] * n
    if k != "triangle" and draw(st.integers(0, 3)) == 0:
        out[draw(st.integers(0, n - 1))] = 3
    cl = [f"h{i}" for i in range(len(src)) if draw(st.integers(0, 2)) == 0 and k != "triangle"]
    dag = [[f"h{i}", [names[j] for j in c]] for i, c in enumerate(src)]
    if k == "evans":
        dag.append(["B", ["A", "C"]])
    return dict(dag=dag, out=out, set=sett, lev=lev, cl=cl, cil=[], nil=[], order=None)


PARTS = [
    Part("networks", cases(network()).map(lambda c: dict(c, objs=c["objs"][:2], net=True)),
         run, 160, 4000),
    Part("brute", cases(scenario(parties=(2, 4), sources=(1, 3), lev_max=3, max_ops=26,
                                 max_group=24, max_maxevents=1200)), run, 220, 5000),
    Part("brute-classical", cases(scenario(parties=(2, 4), sources=(1, 3), lev_max=3, max_ops=24,
                                           max_group=24, max_maxevents=1200, classical="all")),
         run, 160, 4000),
    Part("brute-links", cases(scenario(parties=(2, 4), sources=(1, 2), lev_max=2, max_ops=26,
                                       max_group=8, max_maxevents=1200).filter(
        lambda s: not Ref(s).network)), run, 160, 4000),
    Part("strategies", st.fixed_dictionaries(dict(
        spec=scenario(parties=(1, 4), sources=(1, 1), lev_max=1, max_ops=30, max_group=1,
                      max_maxevents=2500, classical="all", latents=False),
        all=st.booleans(), dual=st.booleans(),
        obj=st.lists(st.tuples(mixed_int(9973), st.integers(-5, 5)).map(list), min_size=1,
                     max_size=8))), run_single, 250, 4000),
    Part("games", st.fixed_dictionaries(dict(
        game=st.lists(st.integers(-5, 5), min_size=4, max_size=4), all=st.booleans(),
        dual=st.booleans())), bell_games, 100, 1500),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_lp
    warm_lp()
