"""C13 SDP solver interface."""
import copy
import warnings
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..common import pick, mixed_int
from ..scen import scenario, build, Ref
from ..cols import colspec, choose
from .. import standin, ipm
from .c08 import behaviour

ID = "C13"
RULE = ("non-trivial: the program has a moment matrix with two or more unknown entries and a finite "
        "optimum that is not a constant of the data, or it is infeasible")
TOL = 2e-5


def reference(masks, obj, known, semi, ineq, eq, nn, feas, dim):
    """max obj (or the smallest eigenvalue) by a direct formulation;
    -> status, value, whether the program is ill-posed (its optimum or status
    changes disproportionately with a tiny relaxation: no interior point)"""
    names = sorted(set(masks) | set(obj) | {k for r in ineq + eq for k in r} | set(known) |
                   set(semi) | {b for _, b in semi.values()}, key=str)
    ix = {k: i for i, k in enumerate(names)}
    n = len(names)
    lam = feas and bool(masks)
    N = n + (1 if lam else 0)
    A, b = [], []

    def vec(r):
        v = np.zeros(N)
        for k, c in r.items():
            v[ix[k]] += c
        return v
    for k, v in known.items():
        A.append(vec({k: 1.})), b.append(v)
    for k, (c, k2) in semi.items():
        r = vec({k: 1.})
        r[ix[k2]] -= c
        A.append(r), b.append(0.)
    for r in eq:
        A.append(vec(r)), b.append(0.)
    G, h = [], []
    for r in ineq:
        G.append(-vec(r)), h.append(0.)
    if nn:
        for k in names:
            if k not in known:
                G.append(-vec({k: 1.})), h.append(0.)
    l = len(G)
    dims = []
    if masks:
        dims = [dim]
        M = np.zeros((dim * (dim + 1) // 2, N))
        for k, F in masks.items():
            M[:, ix[k]] = ipm.svec(F)
        if lam:
            M[:, n] = -ipm.svec(np.eye(dim))
        G = np.vstack([np.array(G).reshape(l, N), -M])
        h = np.concatenate([h, np.zeros(len(M))])
    else:
        G, h = np.array(G).reshape(l, N), np.array(h)
    c = np.zeros(N)
    if lam:
        c[n] = -1.
    else:
        for k, v in obj.items():
            c[ix[k]] -= v
    A, b = np.array(A).reshape(len(b), N), np.array(b)
    # drop redundant rows; inconsistent ones decide at once
    if len(b):
        x0 = np.linalg.lstsq(A, b, rcond=None)[0]
        res = np.abs(A @ x0 - b).max()
        if res > 1e-6:
            return "infeasible", None, False
        q, rr, p = __import__("scipy.linalg").linalg.qr(A.T, pivoting=True)
        rank = int((np.abs(np.diag(rr)) > 1e-9 * abs(rr[0, 0])).sum()) if rr.size else 0
        keep = np.sort(p[:rank])
        A, b = A[keep], b[keep]
    G, h = np.asarray(G, float), np.asarray(h, float)

    def go(eps):
        e = np.full(len(h), eps)
        if dims:
            e[l:] = eps * ipm.svec(np.eye(dim))
        r = ipm.solve(c, A, b, G, h + e, l, dims)
        st = {"optimal": "feasible", "pinf": "infeasible", "dinf": "unbounded"}.get(r["status"])
        if st is None:
            raise Discard("reference gave up")
        return st, -r["pobj"] if st == "feasible" else None
    (st, val), (st2, val2) = go(0.), go(1e-5)
    hard = st != st2 or st == "feasible" and abs(val - val2) > 1e-4 * (1 + abs(val))
    return st, val, hard


class Prog:
    def __init__(self, case):
        self.dim = d = case["dim"]
        nv = case["nv"]
        V = ["x%d" % i for i in range(nv)]
        cells = case["cells"]
        self.masks = {}
        t = 0
        for i in range(d):
            for j in range(i, d):
                c = cells[t % len(cells)]
                t += 1
                if i == j and case["unit"] and c % 3:
                    k = "1"
                elif i == j:
                    k = V[c % nv]
                else:
                    k = (V + ["0", "1"])[c % (nv + 2)]
                if k == "0":
                    continue
                M = self.masks.setdefault(k, np.zeros((d, d)))
                M[i, j] = M[j, i] = 1.
        if case["lp"]:
            self.masks = {}
        self.known = {"1": 1.}
        allv = V + ["y0", "y1"]

        def row(r):
            e = {}
            for k, v in r:
                k = (allv + ["1"])[k % (len(allv) + 1)]
                if v and k not in e:
                    e[k] = v / 4
            return e
        for k, v in case["known"]:
            self.known.setdefault(V[k % nv], v / 8)
        self.semi = {}
        for k, c, k2 in case["semi"]:
            a, b = V[k % nv], V[k2 % nv]
            if a != b and a not in self.known and a not in self.semi and \
                    (case["wild"] or (b not in self.semi and b not in self.known)) and \
                    (case["wild"] or all(b2 != a for _, b2 in self.semi.values())):
                self.semi[a] = (c / 4, b)
        self.obj = row(case["obj"])
        self.eq = [r for r in map(row, case["eq"]) if r]
        self.ineq = [r for r in map(row, case["ineq"]) if r]
        occur = set(self.masks) | set(self.obj) | {k for r in self.eq + self.ineq for k in r}
        if not case["wild"]:
            self.semi = {a: (c, b) for a, (c, b) in self.semi.items() if a in occur}
        occur |= set(self.semi) | {b for _, b in self.semi.values()}
        for k in sorted(occur - {"1"}):
            self.ineq += [{k: -1., "1": 1.5}, {k: 1., "1": 1.5}]
        self.nn = case["nn"]
        self.feas = case["feas"] and bool(self.masks)

    def args(self, fmt):
        f = {"coo": sp.coo_array, "lil": sp.lil_matrix, "csr": sp.csr_matrix}[fmt]
        return dict(mask_matrices={k: f(M) for k, M in self.masks.items()},
                    objective=dict(self.obj), known_vars=dict(self.known),
                    semiknown_vars=dict(self.semi), inequalities=copy.deepcopy(self.ineq),
                    equalities=copy.deepcopy(self.eq))


def snapshot(a):
    return {k: ({q: m.toarray().tolist() for q, m in v.items()} if k == "mask_matrices"
                else copy.deepcopy(v)) for k, v in a.items()}


def verify(x, p, what, lam=0., TOL=TOL):
    """the values satisfy the program"""
    full = dict(p.known)
    full.update(x)
    for _ in range(4):
        for k, (c, k2) in p.semi.items():
            if k not in full and k2 in full:
                full[k] = c * full[k2]
    for r in p.eq:
        s = sum(c * full[k] for k, c in r.items())
        check(abs(s) < TOL, what, "equality", r, "has value", s)
    for r in p.ineq:
        s = sum(c * full[k] for k, c in r.items())
        check(s > -TOL, what, "inequality", r, "has value", s)
    for k, (c, k2) in p.semi.items():
        check(abs(full[k] - c * full[k2]) < TOL, what, k, "is not", c, "times", k2)
    if p.nn:
        check(all(v > -TOL for k, v in x.items() if not str(k).startswith("lambda")), what,
              "negative value", x)
    if p.masks:
        G = sum(full[k] * M for k, M in p.masks.items())
        ev = np.linalg.eigvalsh(G)[0]
        check(ev > lam - TOL, what, "the matrix has an eigenvalue", ev)
        return full, G
    return full, None


def run(case, ctx):
    TOL = globals()["TOL"]
    from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
    standin.install()
    p = Prog(case)
    want, val, hard = reference(p.masks, p.obj, p.known, p.semi, p.ineq, p.eq, p.nn, p.feas, p.dim)
    if hard:
        TOL = 5e-3
        ctx.label("ill-posed: wide tolerance")
    for dual in (True, False):
        for proc in (True, False):
            a = p.args(case["fmt"])
            before = snapshot(a)
            n = standin.LOG.unknown
            r = solveSDP_MosekFUSION(**a, solve_dual=dual, process_constraints=proc,
                                     default_non_negative=p.nn, feas_as_optim=p.feas)
            if standin.LOG.unknown > n:
                raise Discard("stand-in solver gave up")
            what = f"dual={dual} process={proc}:"
            check(snapshot(a) == before, what, "an argument was changed by solving")
            if hard and (r["status"] == "feasible") != (want == "feasible"):
                raise Discard("ill-posed: the status is not decided numerically")
            check((r["status"] == "feasible") == (want == "feasible"), what, "status",
                  r["status"], r.get("error"), "but the program is", want)
            if want != "feasible":
                check(r["status"] == "infeasible", what, "status", r["status"], r.get("error"))
                continue
            check(abs(r["primal_value"] - val) < TOL * (1 + abs(val)), what, "optimum",
                  r["primal_value"], "instead of", val)
            check(abs(r["dual_value"] - val) < TOL * (1 + abs(val)), what, "dual value",
                  r["dual_value"], "instead of", val)
            lam = val if p.feas else 0.
            full, G = verify(r["x"], p, what, lam, TOL)
            if not p.feas:
                o = sum(c * full[k] for k, c in p.obj.items())
                check(abs(o - val) < TOL * 10, what, "the values give", o, "for the objective")
            if G is not None:
                F = np.asarray(r["F"].todense() if sp.issparse(r["F"]) else r["F"])
                H = G - lam * np.eye(p.dim) if p.feas else G
                check(np.abs(F - H).max() < 5 * TOL, what, "the reported matrix differs from the one "
                      "given by the values", F.round(3).tolist(), H.round(3).tolist())
    free = [k for k in p.masks if k not in p.known]
    ctx.nontrivial(want == "infeasible" or (len(free) > 1 and abs(val) > 1e-5))
    ctx.label(want + (" smallest eigenvalue" if p.feas else "") + (" no matrix" if not p.masks
                                                                     else ""))
    if p.semi:
        ctx.label("proportional")


V = st.integers(-8, 8)


def row(n):
    return st.lists(st.tuples(st.integers(0, 20), V).map(list), min_size=1, max_size=n)


CASES = st.fixed_dictionaries(dict(
    dim=pick([1, 2, 2, 3, 3, 4, 5, 6]), nv=st.integers(1, 6), cells=st.lists(st.integers(0, 30), min_size=3,
                                                                max_size=15),
    unit=pick([True, True, True, False]), lp=pick([False] * 5 + [True]),
    known=st.lists(st.tuples(st.integers(0, 20), V).map(list), max_size=2),
    semi=st.lists(st.tuples(st.integers(0, 20), st.integers(-4, 4), st.integers(0, 20)).map(list),
                  max_size=2), wild=pick([False, False, True]),
    obj=st.one_of(st.just([]), row(4), row(4)), eq=st.lists(row(3), max_size=1),
    ineq=st.lists(row(3), max_size=3), nn=pick([False, False, True]),
    feas=pick([False, False, True]), fmt=pick(["coo", "lil", "csr"])))


# few variables, of which some are proportional and occur together in the
# constraints and in the objective
PROPORTIONAL = st.fixed_dictionaries(dict(
    dim=pick([1, 2, 2, 3]), nv=st.integers(2, 4),
    cells=st.lists(st.integers(0, 30), min_size=3, max_size=6), unit=st.just(True),
    lp=pick([False, False, True]),
    known=st.lists(st.tuples(st.integers(0, 20), V).map(list), max_size=1),
    semi=st.lists(st.tuples(st.integers(0, 3), pick([-4, -2, -1, 1, 2, 3, 4, 6]),
                            st.integers(0, 3)).map(list), min_size=1, max_size=3),
    wild=pick([False, False, True]), obj=row(4), eq=st.lists(row(4), max_size=1),
    ineq=st.lists(st.lists(st.tuples(st.integers(0, 6), V).map(list), min_size=2, max_size=6),
                  min_size=1, max_size=3),
    nn=pick([False, False, True]), feas=pick([False] * 5 + [True]), fmt=pick(["coo", "lil", "csr"])))


PARTS = [Part("programs", CASES, run, 1100, 20000), Part("proportional", PROPORTIONAL, run, 700, 10000)]


def SETUP():
    warnings.simplefilter("ignore")
    standin.install()
    from ..warm import warm_sdp
    warm_sdp()
