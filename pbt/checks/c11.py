"""C11 the state depends on what is set, not on how it was reached."""
import copy
import io
import contextlib
import os
import tempfile
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int
from ..cols import colspec, choose, conjspec
from ..settings import alias, polykeys, polysym, terms
from .. import standin
from .c08 import behaviour

ID = "C11"
RULE = ("non-trivial: the history contains a call that is undone, replaced or rejected, and settings "
        "of at least two kinds are in force at the end")


class World:
    """one problem, two programs, and the settings in force on the first"""

    def __init__(self, case, kind):
        self.case, self.kind = case, kind
        self.R = Ref(case["spec"])
        self.problem = build(case["spec"])
        self.digest = self.describe()
        self.cs = None
        for o in case.get("earlier", ()):
            self.another(o)
        self.prog = self.fresh(self.problem)
        self.other = None
        self.F = dict(values=[], obj=None, lo=None, up=None, eq=None, ineq=None)

    def fresh(self, problem=None):
        problem = problem or build(self.case["spec"])
        if self.kind == "sdp":
            from inflation import InflationSDP
            p = InflationSDP(problem, include_all_outcomes=self.case["all"])
            if self.cs is None:
                self.cs, self.lab = choose(p, self.R, self.case["c"], 9)
            p.generate_relaxation(copy.deepcopy(self.cs))
        else:
            from inflation import InflationLP
            p = InflationLP(problem, include_all_outcomes=self.case["all"],
                            default_non_negative=self.case["nn"])
        p._verif_spec = self.case["spec"]
        return p

    def another(self, o):
        """another program of the shared problem, with other options"""
        from inflation import InflationSDP, InflationLP
        kw = dict(include_all_outcomes=bool(o & 1), supports_problem=bool(o & 2))
        if o & 4:
            p = InflationSDP(self.problem, **kw)
            p.generate_relaxation("npa1")
        else:
            p = InflationLP(self.problem, default_non_negative=not o & 8, **kw)
        p._verif_spec = self.case["spec"]
        check(self.describe() == self.digest, "creating another program with", kw,
              "modifies the problem")
        return p

    def describe(self):
        P = self.problem
        return (list(P.names), list(P.outcomes_per_party), list(P.settings_per_party),
                list(P.has_children), np.asarray(P._lexorder).tobytes(),
                np.asarray(P._default_notcomm).tobytes(), np.asarray(P.hypergraph).tobytes(),
                np.asarray(P.inflation_level_per_source).tolist())

    def moments(self, p):
        ms = [m for m in (p.moments if self.kind == "sdp" else p.monomials) if not m.is_zero]
        if self.case.get("products"):
            # a few products of independent parts, and their parts
            few = [m for m in ms if m.n_factors > 1][:4]
            parts = {f for m in few for f in m.factors}
            ms = few + [m for m in ms if m.n_factors == 1 and (m.is_one or m.factors[0] in parts)]
        return ms

    # calls -------------------------------------------------------------
    def call(self, p, op, keep=None):
        """apply one setting call; keep: list to receive the arguments passed in"""
        mons = self.moments(p)
        non1 = [m for m in mons if not m.is_one]
        k = op[0]
        if k == "values":
            _, ts, lpi, only, upd = op
            d = {}
            seen = {}
            for i, v, f in ts:
                m = non1[i % len(non1)]
                if only == 2:      # (values of products are given only on their own)
                    pass
                elif m.n_factors > 1:
                    m = p._monomial_from_atoms([m.factors[0]])
                    if m not in mons:
                        continue
                seen[m] = (alias(p, m, f), abs(v) / 8)
            d = {a: v for a, v in seen.values()}
            if keep is not None:
                keep.append((d, dict(d)))
            if not d and upd:
                return
            (p.update_values if upd else p.set_values)(
                d, use_lpi_constraints=bool(lpi), only_specified_values=bool(only))
        elif k == "dist":
            _, seed, lpi, sr = op
            d = behaviour(self.R, dict(seed=seed, w=[1, seed % 3], sparse=seed % 2 == 0))
            if keep is not None:
                keep.append((d, d.copy()))
            p.set_distribution(d, use_lpi_constraints=bool(lpi), shared_randomness=bool(sr))
        elif k == "obj":
            _, ts, mn, nota = op
            if nota == 2:
                p.set_objective(polysym(mons, ts), "min" if mn else "max")
            else:
                d = polykeys(p, mons, ts)
                if keep is not None:
                    keep.append((d, dict(d)))
                p.set_objective(d, "min" if mn else "max")
        elif k in ("lo", "up"):
            d = {}
            for i, v, f in op[1]:
                m = non1[i % len(non1)]
                d[m] = abs(v) / 16 if k == "lo" else .25 + abs(v) / 8
            d = {alias(p, m, op[1][0][2]): v for m, v in d.items()}
            if keep is not None:
                keep.append((d, dict(d)))
            p.set_bounds(d, k)
        elif k in ("eq", "ineq"):
            rows = [polykeys(p, mons, ts) for ts in op[1]]
            if keep is not None:
                keep.append((rows, [dict(r) for r in rows]))
            (p.set_extra_equalities if k == "eq" else p.set_extra_inequalities)(rows)
        elif k == "none":
            {"values": lambda: p.set_values(None), "dist": lambda: p.set_distribution(None),
             "obj": lambda: p.set_objective(None), "lo": lambda: p.set_bounds(None, "lo"),
             "up": lambda: p.set_bounds(None, "up"), "eq": lambda: p.set_extra_equalities(None),
             "ineq": lambda: p.set_extra_inequalities(None)}[op[1]]()
        elif k == "reset":
            p.reset(op[1])
        else:
            raise AssertionError(k)

    def effect(self, op):
        """settings in force after the call"""
        F = dict(self.F)
        k = op[0]
        if k == "values":
            F["values"] = (F["values"] if op[4] else []) + [op]
        elif k == "dist":
            F["values"] = [op]
        elif k == "obj":
            F["obj"] = op
        elif k in ("lo", "up", "eq", "ineq"):
            F[k] = op
        elif k == "none":
            if op[1] in ("values", "dist"):
                F["values"] = []
            else:
                F[op[1]] = None
        elif k == "reset":
            for w in ([op[1]] if isinstance(op[1], str) else op[1]):
                if w in ("all", "values"):
                    F["values"], F["eq"], F["ineq"] = [], None, None
                if w in ("all", "bounds", "lowerbounds"):
                    F["lo"] = None
                if w in ("all", "bounds", "upperbounds"):
                    F["up"] = None
                if w in ("all", "objective"):
                    F["obj"] = None
        return F

    def replay(self, F):
        """a new program with these settings only"""
        if self.case["merge"]:
            try:
                return self.replay_in(F, True)
            except AssertionError:      # (values replaced later may contradict the bounds)
                pass
        return self.replay_in(F, False)

    def replay_in(self, F, bounds_first):
        p = self.fresh()

        def bounds():
            for k in ("lo", "up"):
                if F[k]:
                    self.call(p, F[k])
        if bounds_first:
            bounds()
        vals = F["values"]
        if vals and vals[0][0] == "values" and len({(bool(v[2]), v[3]) for v in vals}) == 1 \
                and self.case["merge"]:
            # one call with all the values
            vals = [["values", [t for v in vals for t in v[1]]] + list(vals[0][2:4]) + [False]]
        for j, v in enumerate(vals):
            if v[0] == "values":
                v = v[:4] + [j > 0]
            self.call(p, v)
        if not bounds_first:
            bounds()
        for k in ("obj", "eq", "ineq"):
            if F[k]:
                self.call(p, F[k])
        return p

    # observation -----------------------------------------------------------
    def state(self, p):
        a = p._prepare_solver_arguments()

        def d(x):
            return {str(k): round(float(v), 10) for k, v in x.items()}

        def nz(x):
            return {k: v for k, v in d(x).items() if v != 0}

        def rows(x):
            return sorted(sorted(nz(r).items()) for r in x)
        n = {m: m.name for m in p.known_moments}
        r = dict(known=d(a["known_vars"]), objective=nz(a["objective"]),
                 semi={k: (round(float(c), 10), u) for k, (c, u) in a["semiknown_vars"].items()},
                 equalities=rows(a["equalities"]), inequalities=rows(a["inequalities"]),
                 maximize=p.maximize, known_moments=d({n[m]: v for m, v in p.known_moments.items()}),
                 user_objective=nz({m.name: v for m, v in p.objective.items()}),
                 extra_equalities=rows({m.name: v for m, v in e.items()}
                                       for e in p.extra_equalities),
                 extra_inequalities=rows({m.name: v for m, v in e.items()}
                                         for e in p.extra_inequalities))
        if self.kind == "lp":
            r["lower"], r["upper"] = d(a["lower_bounds"]), d(a["upper_bounds"])
            M = p._prepare_solver_matrices()
            r["matrices"] = {k: (v.toarray().tolist() if hasattr(v, "toarray") else None)
                             for k, v in M.items() if k in ("objective", "known_vars")}
        else:
            r["masks"] = {k: (v.shape, sorted(zip(v.coords[0].tolist(), v.coords[1].tolist(),
                                                  v.data.tolist())))
                          for k, v in ((k, v.tocoo()) for k, v in a["mask_matrices"].items())}
        return r


def difference(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [q for q in set(x) | set(y) if x.get(q) != y.get(q)][:4]
                return f"{k}: " + "; ".join(f"{q}: {x.get(q)} / {y.get(q)}" for q in sorted(ks))
            if isinstance(x, list):
                return f"{k}: {[q for q in x if q not in y][:3]} / {[q for q in y if q not in x][:3]}"
            return f"{k}: {x} / {y}"
    return None


def same(W, before, what):
    d = difference(before, W.state(W.prog))
    check(d is None, what, "changed the program (before / after):", d)


def bad_calls(W, p, k):
    """calls that have to be rejected"""
    mons = [m for m in W.moments(p) if not m.is_one]
    m, m2 = mons[k % len(mons)], mons[(k // 7) % len(mons)]
    calls = [
        lambda: p.set_objective({m: 1, "no such moment": 2}),
        lambda: p.set_objective({m: 1}, "sideways"),
        lambda: p.set_bounds({m: .5, "no such moment": .5}, "up"),
        lambda: p.set_bounds({m: .5, "no such moment": .1}, "lo"),
        lambda: p.set_bounds({m: .5}, "middle"),
        lambda: p.set_bounds({m: .5, m.name: .75}, "up"),
        lambda: p.set_bounds({m: .5, m.name: .25}, "lo"),
        lambda: p.set_values({m2: .25, "no such moment": .25}),
        lambda: p.update_values({m2: .25, "no such moment": .25}),
        lambda: p.set_extra_equalities([{m: 1}, {"no such moment": 1}]),
        lambda: p.set_extra_inequalities([{m: 1}, {"no such moment": 1}]),
        lambda: p.reset("no such thing"),
        lambda: p.set_distribution(np.ones([2] + [o for o in W.R.out] + list(W.R.priv))),
        lambda: p.set_values({m2: .25}, nonsense=True),
    ]
    if W.kind == "sdp":         # (arrays of other shapes are accepted)
        del calls[12]
    return calls[k % len(calls)], k % len(calls)


def queries(W, p, k, tmp):
    q = k % 12
    if q == 0:
        p._prepare_solver_arguments()
        if W.kind == "lp":
            p._prepare_solver_matrices()
            p._prepare_solver_arguments(separate_bounds=False)
    elif q == 1:
        for ext in ((".lp", ".mps") if W.kind == "lp" else (".dat-s", ".csv", ".mat")):
            p.write_to_file(os.path.join(tmp, f"f{os.getpid()}{ext}"))
    elif q == 2:
        for m in W.moments(p):
            str(m), repr(m), m.symbol, m.legacy_name, hash(m)
    elif q == 3 and W.kind == "lp":
        p.moment_equalities_by_name, p.moment_inequalities_by_name, p.monomials_as_strings
        p.factorization_conditions, p.quadratic_factorization_conditions
    elif q == 4:
        p.atomic_monomials, p.knowable_atoms, p.do_conditional_atoms if hasattr(
            p, "do_conditional_atoms") else None
    elif q == 5:
        if getattr(p, "status", "Not yet solved") != "Not yet solved":
            for f in (p.certificate_as_dict, p.certificate_as_probs, p.certificate_as_string):
                try:
                    f()
                except Exception:
                    pass
    elif q == 6:
        p._sanitise_dict({m: 1. for m in W.moments(p)[:5]})
    elif q == 7:
        P = W.problem
        P.all_and_maximal_compatible_templates()
        str(P), repr(P)
    elif q == 8:
        # another program of the same problem, with its own settings
        o = W.fresh(W.problem) if k // 12 % 2 else W.another(
            k // 24 % 16 & 11 | (4 if W.kind == "sdp" else 0))
        for op in (["values", [[k, 3, 1]], 1, 0, False], ["obj", [[k, 2, 0]], True, 0],
                   ["lo", [[k + 1, 1, 0]]], ["eq", [[[k, 1, 0]]]]):
            try:
                W.call(o, op)
            except AssertionError:
                pass
    elif q == 9:
        try:
            p.evaluate_polynomial({m: 1. for m in W.moments(p)[:3]},
                                  behaviour(W.R, dict(seed=k, w=[1], sparse=False)))
        except Exception:
            pass
    elif q == 10:
        for m in W.moments(p)[:4]:
            p._sanitise_monomial(m.name) if W.kind == "lp" else p._sanitise_moment(m.name)
    elif q == 11 and W.kind == "sdp":
        p.build_columns("npa1")
        p.build_columns("physical1")


def run(case, ctx, kind):
    standin.install()
    W = World(case, kind)
    if len(W.moments(W.prog)) < 2:
        raise Discard("no moments")
    if len(W.moments(W.prog)) > 250:
        raise Discard("too many moments")
    undone = False
    solved = False
    with tempfile.TemporaryDirectory(prefix="c11") as tmp:
        for op in case["ops"]:
            p = W.prog
            k = op[0]
            ctx.label("call " + k)
            if k in ("bad", "query", "solve"):
                before = W.state(p)
                status = (p.status, getattr(p, "objective_value", None))
            if k == "bad":
                f, j = bad_calls(W, p, op[1])
                try:
                    f()
                except Exception:
                    pass
                else:
                    check(False, "malformed call", j, "is accepted")
                same(W, before, f"rejected call {j}")
                check((p.status, getattr(p, "objective_value", None)) == status,
                      "a rejected call discards the solution")
                undone = True
            elif k == "query":
                with contextlib.redirect_stdout(io.StringIO()):
                    queries(W, p, op[1], tmp)
                same(W, before, f"query {op[1] % 12}")
            elif k == "solve":
                kw = dict(solve_dual=bool(op[1] % 2))
                if op[1] % 3 == 0:
                    kw["feas_as_optim"] = True
                if op[1] % 5 == 0 and kind == "lp":
                    kw.pop("feas_as_optim", None)
                    kw["relax_known_vars"] = True
                args = dict(kw)
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        p.solve(**kw)
                    except NotImplementedError:
                        pass
                same(W, before, f"solve({args})")
                solved = True
            elif k == "regenerate":
                if kind == "sdp":
                    p.generate_relaxation("npa1")
                    p.generate_relaxation(copy.deepcopy(W.cs))
                    W.F = dict(values=[], obj=None, lo=None, up=None, eq=None, ineq=None)
                    undone = True
            else:
                G = W.effect(op)
                keep = []
                before = W.state(p)
                try:
                    W.call(p, op, keep)
                except AssertionError as e:
                    # has to be rejected however it is reached
                    try:
                        W.replay(G)
                    except AssertionError:
                        pass
                    else:
                        check(False, "the call", op, "is rejected after this history (", str(e)[:150],
                              ") but not by a new program")
                    same(W, before, f"the rejected call {op}")
                    ctx.label("rejected")
                    undone = True
                else:
                    undone = undone or any(W.F[q] and W.F[q] != G[q] for q in G)
                    W.F = G
                    if not (k == "none" or (k == "values" and not keep[0][1])):
                        check(p.status == "Not yet solved" and not hasattr(p, "objective_value"),
                              "after", op, "the program still has the previous solution:", p.status)
                for got, want in keep:
                    ok = np.array_equal(got, want) if isinstance(got, np.ndarray) else got == want
                    check(ok, "the call", k, "changed its argument from", want, "to", got)
    check(W.describe() == W.digest, "the problem has been modified")
    ref = W.replay(W.F)
    d = difference(W.state(W.prog), W.state(ref))
    check(d is None, "the state differs from that of a new program with the settings in force",
          {k: v for k, v in W.F.items() if v}, "(history / new):", d)
    if kind == "lp":
        lo = [{m.name: float(v) for m, v in q.moment_lowerbounds.items()} for q in (W.prog, ref)]
        check(lo[0] == lo[1], "lower bounds differ:", lo)
    ctx.nontrivial(undone and sum(bool(v) for v in W.F.values()) > 1)
    if solved:
        ctx.label("solved in between")


idx = mixed_int(9973)
vals = st.lists(st.tuples(idx, st.integers(0, 8), mixed_int(12)).map(list), min_size=1, max_size=4)
ops = st.one_of(
    st.tuples(st.just("values"), vals, mixed_int(2), pick([0, 0, 0, 2]), st.just(True)),
    st.tuples(st.just("values"), vals, mixed_int(2), pick([0, 0, 0, 2]), st.just(False)),
    st.tuples(st.just("dist"), st.integers(0, 99), mixed_int(2), pick([0, 0, 1])),
    st.tuples(st.just("obj"), terms, st.booleans(), mixed_int(3)),
    st.tuples(pick(["lo", "up"]), vals),
    st.tuples(pick(["eq", "ineq"]), st.lists(terms, min_size=1, max_size=2)),
    st.tuples(st.just("none"), pick(["values", "dist", "obj", "lo", "up", "eq", "ineq"])),
    st.tuples(st.just("reset"), pick(["all", "values", "bounds", "lowerbounds", "upperbounds",
                                      "objective", ["values", "bounds"], ["objective", "values"]])),
    st.tuples(st.just("bad"), mixed_int(9973)),
    st.tuples(st.just("query"), mixed_int(9973)),
    st.tuples(st.just("solve"), mixed_int(30)),
    st.tuples(st.just("regenerate"), st.just(0)),
).map(list)


def case_of(s):
    return st.fixed_dictionaries(dict(spec=s, c=colspec(), all=pick([False, False, True]),
                                      nn=st.booleans(), merge=st.booleans(),
                                      earlier=st.one_of(st.just([]), st.lists(
                                          mixed_int(16), min_size=1, max_size=2)),
                                      ops=st.lists(ops, min_size=2, max_size=9)))


s1 = scenario(parties=(1, 3), lev_max=2, max_ops=16, max_group=8)
s2 = scenario(parties=(1, 3), sources=(1, 3), lev_max=2, max_ops=16, max_group=8,
              max_maxevents=200)
s3 = scenario(parties=(1, 3), sources=(1, 2), lev_max=2, max_ops=16, max_group=8, links=False,
              max_maxevents=200).map(
    lambda s: {**s, "lev": [2] * len(s["lev"])}).filter(
    lambda s: Ref(s).count_ops() <= 24 and Ref(s).max_event_bound() <= 200)
lpi_ops = st.one_of(
    st.tuples(st.just("values"), vals, pick([0, 1, 1]), st.just(0), st.booleans()),
    st.tuples(st.just("dist"), st.integers(0, 99), pick([0, 1, 1]), st.just(0)),
    st.tuples(st.just("obj"), terms, st.booleans(), mixed_int(3)),
    st.tuples(pick(["lo", "up"]), vals),
    st.tuples(pick(["eq", "ineq"]), st.lists(terms, min_size=1, max_size=2)),
    st.tuples(st.just("none"), pick(["values", "dist", "obj", "lo", "up", "eq", "ineq"])),
    st.tuples(st.just("solve"), mixed_int(30)),
    st.tuples(st.just("query"), pick([0, 1, 3, 5])),
).map(list)


def products_of(s, c):
    """linearised identification of products, made and undone"""
    return st.fixed_dictionaries(dict(spec=s, c=c, all=st.just(False), nn=st.booleans(),
                                      merge=st.booleans(), products=st.just(True),
                                      ops=st.lists(lpi_ops, min_size=3, max_size=9)))


PARTS = [
    Part("sdp", case_of(s1), lambda c, x: run(c, x, "sdp"), 700, 12000),
    Part("lp", case_of(s2), lambda c, x: run(c, x, "lp"), 700, 12000),
    Part("sdp-products", products_of(s3, st.one_of(colspec(), conjspec())),
         lambda c, x: run(c, x, "sdp"), 700, 9000),
    Part("lp-products", products_of(s3, colspec()), lambda c, x: run(c, x, "lp"), 500, 9000),
]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
