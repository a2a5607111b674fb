"""C22 user-specified objectives, bounds, values and constraints all take effect."""
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..cols import colspec
from .. import standin
from .. import settings as S
from .c08 import behaviour

ID = "C22"
LIM = 12
RULE = ("non-trivial: the optimum differs from the optimum of the same objective without the "
        "other settings, or the settings make the program infeasible")


def run(case, ctx, kind):
    standin.install()
    R = Ref(case["spec"])
    prog, shift, moments, cs = S.make(case, kind, LIM)
    if len(moments) > 150:
        raise Discard("too large")
    fresh = S.make(case, kind, LIM, cs)[0]
    use = [m for m in moments if not m.is_zero]
    non1 = [m for m in use if not m.is_one]
    if not non1:
        raise Discard("no moments")
    comps = [m for m in non1 if m.n_factors > 1]
    if comps:
        ctx.label("has products")
    if case["focus"] and comps:
        # products and their parts
        parts = {f for m in comps for f in m.factors}
        non1 = [m for m in non1 if m.n_factors > 1 or m.factors[0] in parts]
        use = [m for m in use if m.is_one] + non1
    eff, calls = {}, []

    def bounds(ts, lo):
        """consistent spellings; scaled to make both tight and slack bounds frequent"""
        d, keys = {}, {}
        for k, v, f in ts:
            m = non1[k % len(non1)]
            if m in d:
                v = d[m]
            else:
                v = abs(v) / 16 if lo else abs(v) / 8
                d[m] = v
            keys[S.alias(prog, m, f)] = v
        return d, keys
    sign = -1 if case["min"] else 1
    if case["obj"]:
        obj = S.poly(use, case["obj"])
        eff["obj"] = {m: sign * v for m, v in obj.items()}
        arg = S.polysym(use, case["obj"]) if case["sym"] else S.polykeys(prog, use, case["obj"])
        calls.append(("obj", lambda: prog.set_objective(arg, "min" if case["min"] else "max")))
    for b in ("up", "lo"):
        if case[b]:
            eff[b], keys = bounds(case[b], b == "lo")
            calls.append((b, lambda b=b, keys=keys: prog.set_bounds(keys, b)))
    for b, fn in (("eq", prog.set_extra_equalities), ("ineq", prog.set_extra_inequalities)):
        if case[b]:
            eff[b] = [S.poly(use, r) for r in case[b]]
            args = [S.polysym(use, r) if len(r) % 2 and case["sym"] else S.polykeys(prog, use, r)
                    for r in case[b]]
            calls.append((b, lambda fn=fn, args=args: fn(args)))
    lpi = case["lpi"]
    if case["vals"] == "dist":
        d = behaviour(R, dict(case, sparse=False))
        eff["known"], eff["semi"] = S.from_distribution(R, shift, moments, d, lpi)
        calls.append(("vals", lambda: prog.set_distribution(d, use_lpi_constraints=lpi)))
    elif case["vals"]:
        given, keys = {}, {}
        pool = non1
        if case["focus"] and comps and not case["only"]:
            pool = [m for m in non1 if m.n_factors == 1]
            pool = pool or non1
        for k, v, f in case["vals"]:
            m = pool[k % len(pool)]
            if m.n_factors > 1 and not case["only"] or m in given:
                continue
            given[m] = abs(v) / 16
            keys[S.alias(prog, m, f)] = given[m]
        if keys:
            eff["known"], eff["semi"] = S.fill(R, shift, kind, moments, given, lpi, case["only"])
            calls.append(("vals", lambda: prog.set_values(
                keys, use_lpi_constraints=lpi, only_specified_values=case["only"])))
    if kind == "sdp" and any(prog._monomial_from_atoms(fs) not in set(moments)
                             for _, fs in eff.get("semi", {}).values()):
        ctx.label("tied to a moment outside the matrix")
    if eff.get("semi"):
        ctx.label("proportional")
        if set(eff["semi"]) & set(eff.get("obj", {})):
            ctx.label("objective with proportional moments")
    order = sorted(range(len(calls)), key=lambda i: (case["order"][i % len(case["order"])], i))
    known, semi = eff.get("known", {}), eff.get("semi", {})
    clash = [m for m, v in known.items()
             if eff.get("up", {}).get(m, np.inf) < v or eff.get("lo", {}).get(m, -np.inf) > v]
    done = []
    for i in order:
        name, f = calls[i]
        done.append(name)
        try:
            f()
        except AssertionError as e:
            # a value and a bound for the same moment may be refused if contradictory
            check(kind == "sdp" and clash and name in ("vals", "up", "lo"), name, "refused after",
                  done, ":", e)
            ctx.label("contradiction refused")
            return
    ref = S.Program(fresh, kind).add(eff)
    want, val, hard = ref.reference()
    if want == "unbounded":
        raise Discard("unbounded")
    tol = 5e-3 if hard else (2e-5 if kind == "sdp" else 1e-6)
    n = standin.LOG.unknown
    prog.solve(**({} if case["dual"] else dict(solve_dual=False)))
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    if hard and prog.success != (want == "feasible"):
        raise Discard("ill-posed")
    check(bool(prog.success) == (want == "feasible"), "status", prog.status, "after", done,
          "but the program is", want)
    ctx.label(want + (" dual" if case["dual"] else " primal"))
    for c in done:
        ctx.label("setting " + c)
    if want != "feasible":
        check(prog.objective_value == prog.status, "objective_value", prog.objective_value)
        check("infeas" in prog.status, "status", prog.status)
        ctx.nontrivial(bool(calls))
        return
    check(abs(prog.objective_value - sign * val) < tol * (1 + abs(val)), "after", done,
          "the optimum is", prog.objective_value, "instead of", sign * val)
    check(abs(prog.primal_objective - val) < tol * (1 + abs(val)), "primal_objective",
          prog.primal_objective, "instead of", val)
    v = ref.verify(prog.solution_object["x"], tol)
    check(abs(v - val) < 10 * tol * (1 + abs(val)), "the values reported give", v,
          "for the objective, not", val)
    if len(calls) > 1 and case["obj"]:
        w0, v0, _ = S.Program(fresh, kind).add(dict(obj=eff["obj"])).reference()
        ctx.nontrivial(w0 != "feasible" or abs(v0 - val) > 1e-4)


def cases(s, **kw):
    some = S.terms
    return st.fixed_dictionaries({**dict(
        spec=s, all=pick([False, False, True]), c=colspec(), dual=pick([True, True, False]),
        obj=st.one_of(some, some, some, st.just([])), min=st.booleans(), sym=st.booleans(),
        up=st.one_of(some, st.just([]), st.just([])), lo=st.one_of(some, st.just([]), st.just([])),
        eq=st.one_of(st.just([]), st.just([]), st.lists(some, min_size=1, max_size=2)),
        ineq=st.one_of(st.just([]), st.lists(some, min_size=1, max_size=2)),
        vals=st.one_of(st.just([]), st.just("dist"), some), only=pick([False, False, True]),
        lpi=st.booleans(), focus=st.booleans(), seed=st.integers(0, 10 ** 6),
        w=st.lists(st.integers(0, 6), min_size=1, max_size=3),
        order=st.lists(st.integers(0, 9), min_size=6, max_size=6)), **kw})


def colkinds(*kinds):
    return colspec().flatmap(lambda c: pick(kinds).map(lambda k: dict(c, kind=k)))


PARTS = [
    Part("lp", cases(scenario(parties=(1, 3), sources=(1, 3), lev_max=2, max_ops=20, max_group=8,
                              max_maxevents=250)), lambda c, x: run(c, x, "lp"), 600, 12000),
    Part("sdp", cases(scenario(parties=(1, 3), sources=(1, 3), lev_max=3, max_ops=20,
                               max_group=8)), lambda c, x: run(c, x, "sdp"), 450, 8000),
    # several copies of a source, hence products of independent moments
    Part("sdp-products", cases(
        scenario(parties=(1, 2), sources=(1, 2), lev_max=3, max_ops=12, max_group=8).filter(
            lambda s: max(s["lev"]) > 1),
        c=colkinds("physical2", "physical", "local1", "npa2", "words"), lpi=pick([True, True, False]),
        focus=pick([True, True, True, False]), up=st.one_of(st.just([]), st.just([]), S.terms),
        lo=st.one_of(st.just([]), st.just([]), S.terms),
        vals=st.one_of(st.just("dist"), st.lists(st.tuples(
            mixed_int(9973), st.integers(1, 8), mixed_int(12)).map(list), min_size=1, max_size=3))),
        lambda c, x: run(c, x, "sdp"), 900, 15000),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
