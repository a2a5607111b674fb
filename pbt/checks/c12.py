"""C12 LP solver interface."""
import copy
import warnings
import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..common import pick, mixed_int
from ..scen import scenario, build, Ref
from .c08 import behaviour
from .. import standin

ID = "C12"
RULE = ("non-trivial: the program has a finite optimum with two or more variables away from zero, "
        "or is infeasible or unbounded")
TOL = 1e-6


class Prog:
    """max obj.x  s.t. the documented meaning of every argument"""

    def __init__(self, case):
        self.nv = nv = case["nv"]
        self.names = ["1"] + ["x%d" % i for i in range(1, nv)]
        if case["const"] == "last":
            self.names = ["x%d" % i for i in range(1, nv)] + ["z1"]
        self.one = self.names[0] if case["const"] != "last" else "z1"
        N = [self.one] + [n for n in self.names if n != self.one]

        def row(r):
            d = {}
            for k, v in r:
                k = N[k % nv]
                if k not in d and v:
                    d[k] = v / 2
            return d
        rows = [row(r) for r in case["ineq"]]
        self.ineq = [r for r in rows if r]
        self.eq = [r for r in (row(r) for r in case["eq"]) if r]
        if case["box"]:
            # keep most programs bounded
            for k in N[1:]:
                self.ineq += [{k: -1, self.one: case["box"]}, {k: 1, self.one: case["box"]}]
        self.obj = row(case["obj"])
        self.known = {self.one: 1.}
        for k, v in case["known"]:
            self.known.setdefault(N[k % nv], v / 2)
        self.semi = {}
        for k, c, k2 in case["semi"]:
            a, b = N[k % nv], N[k2 % nv]
            if a != b and a not in self.known and a not in self.semi:
                self.semi[a] = (c / 2, b)
        self.lo, self.up = {}, {}
        for k, v in case["lo"]:
            self.lo.setdefault(N[k % nv], v / 2)
        for k, v in case["up"]:
            self.up.setdefault(N[k % nv], v / 2)
        self.nn = case["nn"]
        if case["feas"]:
            self.make_feasible(case["point"])
        if case["relax"]:
            # (a row without terms is not an inequality to be relaxed)
            self.ineq = [r for r in self.ineq if any(r.values())]

    def make_feasible(self, pt):
        """shift constants so that a given point satisfies everything"""
        x = {n: (pt[i % len(pt)] + i % 3) / 2 for i, n in enumerate(self.names)}
        if self.nn:
            x = {n: abs(v) for n, v in x.items()}
        x[self.one] = 1.
        for a, (c, b) in list(self.semi.items()):
            if x[b] and b not in self.semi:
                self.semi[a] = (x[a] / x[b], b)
            else:
                del self.semi[a]
        for rows, eq in ((self.ineq, False), (self.eq, True)):
            for r in rows:
                v = sum(c * x[k] for k, c in r.items())
                if v < 0 or eq:
                    r[self.one] = r.get(self.one, 0) - v
        self.eq = [r for r in self.eq if any(r.values())]
        self.known = {k: x[k] for k in self.known}
        self.lo = {k: min(v, x[k]) for k, v in self.lo.items()}
        self.up = {k: max(v, x[k]) for k, v in self.up.items()}

    def mat(self, rows, extra=0):
        M = np.zeros((len(rows), self.nv + extra))
        for i, r in enumerate(rows):
            for k, v in r.items():
                M[i, self.names.index(k)] += v
        return M

    def reference(self, rk=False, ri=False):
        nv = self.nv
        relaxed = rk or ri
        c = np.zeros(nv + 1)
        for k, v in self.obj.items():
            c[self.names.index(k)] = v
        lo, up = np.full(nv + 1, -np.inf), np.full(nv + 1, np.inf)
        if self.nn and not relaxed:
            lo[:nv] = 0
        for k, v in self.lo.items():
            i = self.names.index(k)
            lo[i] = max(lo[i], v)
        for k, v in self.up.items():
            up[self.names.index(k)] = v
        A = self.mat(self.ineq, 1)
        if ri:
            A[:, nv] = 1
        E = self.mat(self.eq + [{x: 1., y: -c_} if x != y else {x: 1. - c_}
                                for x, (c_, y) in self.semi.items()], 1)
        b, e = np.zeros(len(A)), np.zeros(len(E))
        K = self.mat([{k: 1.} for k in self.known], 1)
        v = np.array(list(self.known.values()))
        if rk:
            K1, K2 = K.copy(), -K
            K1[:, nv], K2[:, nv] = 1, 1
            A, b = np.vstack([A, K1, K2]), np.concatenate([b, v, -v])
        else:
            E, e = np.vstack([E, K]), np.concatenate([e, v])
        if relaxed:
            c = np.zeros(nv + 1)
            c[nv] = -1
        else:
            lo[nv] = up[nv] = 0
        if (lo > up).any():
            return "infeasible", None
        kw = dict(A_ub=-A if len(A) else None, b_ub=-b if len(A) else None,
                  A_eq=E if len(E) else None, b_eq=e if len(E) else None,
                  bounds=np.column_stack([lo, up]))
        # margin of feasibility
        m = len(A)
        f = linprog(np.r_[np.zeros(nv + 1), np.ones(m + 2 * len(E))],
                    A_ub=np.hstack([-A, -np.eye(m), np.zeros((m, 2 * len(E)))]) if m else None,
                    b_ub=-b if m else None,
                    A_eq=np.hstack([E, np.zeros((len(E), m)), np.eye(len(E)), -np.eye(len(E))])
                    if len(E) else None, b_eq=e if len(E) else None,
                    bounds=np.vstack([np.column_stack([lo, up]),
                                      np.tile([0, np.inf], (m + 2 * len(E), 1))]))
        if f.status:
            raise Discard("reference failed")
        if f.fun > 1e-7:
            if f.fun < 1e-4:
                raise Discard("borderline")
            return "infeasible", None
        r = linprog(-c, **kw)
        if r.status == 0:
            return "optimal", -r.fun
        if r.status == 3:
            return "unbounded", None
        raise Discard("reference failed")

    def verify(self, x, what, rk, ri, lam):
        check(set(x) == set(self.names), what, "values for", sorted(x))
        for r in self.ineq:
            s = sum(v * x[k] for k, v in r.items())
            check(s >= -1e-6 - (lam if ri else 0), what, "inequality", r, "has value", s)
        for r in self.eq:
            s = sum(v * x[k] for k, v in r.items())
            check(abs(s) < 1e-6, what, "equality", r, "has value", s)
        for k, v in self.known.items():
            check(abs(x[k] - v) < 1e-6 + (lam if rk else 0), what, k, "=", x[k], "instead of", v)
        for k, (c, k2) in self.semi.items():
            check(abs(x[k] - c * x[k2]) < 1e-6, what, k, "is not", c, "*", k2)
        for k, v in self.lo.items():
            check(x[k] >= v - 1e-6, what, k, "below its bound")
        for k, v in self.up.items():
            check(x[k] <= v + 1e-6, what, k, "above its bound")
        if self.nn and not (rk or ri):
            check(min(x.values()) > -1e-6, what, "negative value")

    def args(self, form, omit=False):
        d = dict(objective=self.obj, known_vars=self.known, inequalities=self.ineq,
                 equalities=self.eq)
        if omit:
            d = {k: v for k, v in d.items() if v}
        if self.lo:
            d["lower_bounds"] = self.lo
        if self.up:
            d["upper_bounds"] = self.up
        if form == "dict":
            return dict({k: ([dict(r) for r in v] if isinstance(v, list) else dict(v))
                         for k, v in d.items()}, semiknown_vars=dict(self.semi))
        # matrices
        out = {}
        for k, v in d.items():
            M = self.mat(v if isinstance(v, list) else [v])
            if k in ("known_vars", "lower_bounds", "upper_bounds"):
                # (zeros are explicit entries)
                col = [self.names.index(n) for n in v]
                out[k] = sp.coo_array((list(v.values()), ([0] * len(col), col)),
                                      shape=(1, self.nv))
            else:
                out[k] = sp.coo_array(M)
            if form == "mixed" and len(k) % 2 and k != "known_vars":
                out[k] = [dict(r) for r in v] if isinstance(v, list) else dict(v)
        ties = [{x: 1., y: -c} for x, (c, y) in self.semi.items()]
        if form == "sparse":
            if ties:
                M = np.vstack([self.mat(self.eq), self.mat(ties)])
                out["equalities"] = sp.coo_array(M)
        else:
            out["semiknown_vars"] = dict(self.semi)
        out["variables"] = list(self.names)
        return out


def snapshot(a):
    return {k: (v.toarray().tolist() if hasattr(v, "toarray") else copy.deepcopy(v))
            for k, v in a.items()}


def used(p):
    """variables that occur somewhere (inferred when not declared)"""
    u = set(p.obj) | set(p.known) | {k for r in p.ineq + p.eq for k in r}
    return u | set(p.semi) | {b for _, b in p.semi.values()}


def run(case, ctx):
    from inflation.lp.lp_utils import solveLP
    standin.install()
    p = Prog(case)
    rk, ri = case["relax"] == 1 or case["relax"] == 3, case["relax"] >= 2
    want, val = p.reference(rk, ri)
    finite = False
    for form in case["forms"]:
        for dual in (False, True):
            a = p.args(form, case["omit"])
            if form == "dict":
                names = used(p)
                if case["declare"] or (set(p.lo) | set(p.up)) - names or len(names) < p.nv:
                    a["variables"] = list(p.names)
            n = standin.LOG.unknown
            before = snapshot(a)
            r = solveLP(**a, solve_dual=dual, default_non_negative=p.nn,
                        relax_known_vars=rk, relax_inequalities=ri)
            if standin.LOG.unknown > n:
                raise Discard("stand-in solver gave up")
            what = f"{form}, dual={dual}:"
            check(snapshot(a) == before, what, "an argument was changed by solving")
            check(bool(r["success"]) == (want == "optimal"), what, "status", r["status"],
                  "but the program is", want)
            if want != "optimal":
                continue
            check(abs(r["primal_value"] - val) < TOL * (1 + abs(val)), what, "optimum",
                  r["primal_value"], "instead of", val)
            check(abs(r["dual_value"] - val) < TOL * (1 + abs(val)), what, "dual value",
                  r["dual_value"], "instead of", val)
            check("optimal" in r["status"], "status", r["status"])
            lam = -val if rk or ri else 0
            p.verify(r["x"], what, rk, ri, lam)
            if not (rk or ri):
                o = sum(v * r["x"][k] for k, v in p.obj.items())
                check(abs(o - val) < TOL * (1 + abs(val)), what, "the values give", o,
                      "for the objective")
            finite = sum(abs(v) > 1e-6 for v in r["x"].values()) > 2
    ctx.nontrivial(want != "optimal" or finite)
    ctx.label(want + (" relaxed %d" % case["relax"] if case["relax"] else ""))


V = st.integers(-6, 6)


def row(n):
    return st.lists(st.tuples(st.integers(0, 20), V).map(list), min_size=1, max_size=n)


CASES = st.fixed_dictionaries(dict(
    feas=pick([True, True, True, False]), omit=st.booleans(),
    point=st.lists(V, min_size=1, max_size=6), nv=st.integers(2, 7), const=pick(["first", "first", "last"]), ineq=st.lists(row(4), max_size=5),
    eq=st.lists(row(4), max_size=2), box=pick([0, 2, 3, 3, 5]), obj=st.one_of(st.just([]), row(5)),
    known=st.lists(st.tuples(st.integers(1, 20), V).map(list), max_size=2),
    semi=st.lists(st.tuples(st.integers(1, 20), st.integers(-3, 4), st.integers(0, 20)).map(list),
                  max_size=2),
    lo=st.lists(st.tuples(st.integers(1, 20), V).map(list), max_size=2),
    up=st.lists(st.tuples(st.integers(1, 20), V).map(list), max_size=2),
    nn=st.booleans(), relax=pick([1, 2, 3, 0, 0, 0]), declare=st.booleans(),
    forms=pick([["dict"], ["sparse"], ["mixed"], ["dict", "sparse"]])))



class FromLP(Prog):
    """the program held by an InflationLP, read from its public attributes"""

    def __init__(self, lp, nn):
        nm = {m: "v%d" % i for i, m in enumerate(lp.monomials)}
        self.names = list(nm.values())
        self.nv = len(self.names)
        self.mons = list(lp.monomials)

        def row(d):
            return {nm[m]: float(v) for m, v in d.items()}
        self.one = nm[lp.One]
        # (a row without terms is not an inequality to be relaxed)
        self.ineq = [r for r in map(row, lp.moment_inequalities) if any(r.values())]
        self.eq = [row(r) for r in lp.moment_equalities]
        self.obj = row(lp.objective)
        self.known = row(lp.known_moments)
        self.semi = {nm[m]: (c, nm[m2]) for m, (c, m2) in lp.semiknown_moments.items()}
        self.lo, self.up = row(lp.moment_lowerbounds), row(lp.moment_upperbounds)
        self.nn = nn


def run_lp(case, ctx):
    from inflation import InflationLP
    standin.install()
    R = Ref(case["spec"])
    lp = InflationLP(build(case["spec"]), include_all_outcomes=case["all"],
                     default_non_negative=case["nn"])
    mons = [m for m in lp.monomials if not m.is_one]
    if not mons:
        raise Discard("no moments")

    def poly(ts):
        d = {}
        for k, v in ts:
            m = mons[k % len(mons)] if k % 11 else lp.One
            d[m] = d.get(m, 0) + v / 4
        return d
    if case["dist"]:
        d = behaviour(R, dict(case, sparse=case["dist"] > 1))
        lp.set_distribution(d, use_lpi_constraints=case["dist"] == 3)
    if case["obj"]:
        lp.set_objective(poly(case["obj"]), "min" if case["min"] else "max")
    for kind, ts in (("up", case["up"]), ("lo", case["lo"])):
        b = {mons[k % len(mons)]: abs(v) / 8 for k, v in ts}
        if b:
            lp.set_bounds(b, kind)
    if case["eq"]:
        lp.set_extra_equalities([poly(r) for r in case["eq"]])
    if case["ineq"]:
        lp.set_extra_inequalities([poly(r) for r in case["ineq"]])
    kw = {}
    rk, ri = False, False
    opt = case["opt"]
    if opt == 1:
        kw, rk = dict(relax_known_vars=True), True
    elif opt == 2:
        kw, ri = dict(relax_inequalities=True), True
    elif opt == 3:
        kw, rk, ri = dict(relax_known_vars=True, relax_inequalities=True), True, True
    elif opt == 4:
        kw, ri = dict(feas_as_optim=True), True
    elif opt == 5:
        kw = dict(feas_as_optim=False)
    nn = case["nn"]
    if case["override"]:
        kw["default_non_negative"] = nn = not nn
    if case["obj"] and opt in (1, 2, 3) and lp.objective:
        rk = ri = False                 # documented: the objective is optimised instead
    if case["obj"] and opt == 4 and lp.objective:
        raise Discard("objective and feas_as_optim")
    p = FromLP(lp, nn)
    want, val = p.reference(rk, ri)
    n = standin.LOG.unknown
    lp.solve(solve_dual=case["dual"], **kw)
    if standin.LOG.unknown > n:
        raise Discard("stand-in solver gave up")
    check(lp.success == (want == "optimal"), "status", lp.status, "but the program is", want)
    ctx.label(want + " option %d" % opt)
    ctx.nontrivial(want != "optimal" or abs(val) > 1e-6)
    if want != "optimal":
        check(lp.objective_value == lp.status == lp.primal_objective, "objective_value",
              lp.objective_value)
        return
    sign = -1 if case["min"] and case["obj"] else 1
    check(lp.status == "optimal", "status", lp.status)
    check(abs(lp.primal_objective - val) < TOL * (1 + abs(val)), "primal_objective is",
          lp.primal_objective, "instead of", val)
    check(abs(lp.objective_value - sign * val) < TOL * (1 + abs(val)), "objective_value is",
          lp.objective_value, "instead of", sign * val)
    x = lp.solution_object["x"]
    p.verify({"v%d" % i: x[m.name] for i, m in enumerate(p.mons)}, "solve:", rk, ri,
             -val if rk or ri else 0)


terms = st.lists(st.tuples(mixed_int(9973), st.integers(-8, 8)).map(list), min_size=1, max_size=4)
LPCASES = st.fixed_dictionaries(dict(
    spec=scenario(parties=(1, 3), sources=(1, 3), lev_max=2, max_ops=20, max_group=8,
                  max_maxevents=250),
    all=pick([False, False, True]), nn=st.booleans(), dist=pick([0, 1, 2, 3]),
    seed=st.integers(0, 10 ** 6), w=st.lists(st.integers(0, 6), min_size=1, max_size=3),
    obj=st.one_of(st.just([]), terms), min=st.booleans(),
    up=st.one_of(st.just([]), terms), lo=st.one_of(st.just([]), st.just([]), terms),
    eq=st.one_of(st.just([]), st.just([]), st.lists(terms, min_size=1, max_size=2)),
    ineq=st.one_of(st.just([]), st.lists(terms, min_size=1, max_size=2)),
    opt=pick([0, 0, 1, 2, 3, 4, 5]), override=pick([False, False, True]), dual=st.booleans()))

PARTS = [Part("programs", CASES, run, 1500, 30000),
         Part("inflation", LPCASES, run_lp, 700, 12000)]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_lp
    warm_lp()
