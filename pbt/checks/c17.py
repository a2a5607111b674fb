"""C17 jointly measurable sets."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref

ID = "C17"
RULE = "non-trivial: the compatibility graph is neither empty nor complete"


def brute(A):
    n = len(A)
    out = []
    stack = [((), list(range(n)))]
    while stack:
        c, cand = stack.pop()
        out.append(c)
        if len(out) > 4000:
            raise Discard("too many compatible sets")
        for k, u in enumerate(cand):
            stack.append((c + (u,), [v for v in cand[k + 1:] if A[u][v]]))
    mx = [c for c in out if all(v in c or not all(A[u][v] for u in c) for v in range(n))]
    return out, mx


def compare(got, A, ref, limit, isolate, what):
    alls, mx = got
    want, wmx = ref
    big = max(map(len, want))
    if limit:
        want = [c for c in want if len(c) <= limit]
    ga = [tuple(sorted(map(int, c))) for c in alls]
    check(len(ga) == len(set(ga)), what, "a set is listed twice")
    check(set(ga) == set(want), what, "sets differ: extra", sorted(set(ga) - set(want))[:3],
          "missing", sorted(set(want) - set(ga))[:3])
    if isolate and (not limit or limit >= big):
        gm = [tuple(sorted(map(int, c))) for c in mx]
        wm = wmx if len(A) else []
        check(len(gm) == len(set(gm)), what, "a maximal set is listed twice")
        check(set(gm) == set(wm), what, "maximal sets differ: extra",
              sorted(set(gm) - set(wm))[:3], "missing", sorted(set(wm) - set(gm))[:3])
    if not isolate:
        check(list(mx) == [], what, "maximal sets reported though not asked for")


def run_graph(case, ctx):
    from inflation.utils import all_and_maximal_cliques
    n = case["n"]
    A = np.zeros((n, n), bool)
    for k, (i, j) in enumerate(itertools.combinations(range(n), 2)):
        A[i, j] = A[j, i] = bool(case["bits"] >> k & 1)
    if case["diag"]:
        np.fill_diagonal(A, True)
    B = A.copy()
    ref = brute(A)
    for limit in (0, case["limit"]):
        for iso in (True, False):
            compare(all_and_maximal_cliques(A, max_n=limit, isolate_maximal=iso), A, ref, limit, iso,
                    f"graph limit={limit} isolate={iso}:")
    check(np.array_equal(A, B), "the matrix passed in was changed")
    off = A[~np.eye(n, dtype=bool)]
    ctx.nontrivial(off.any() and not off.all())
    ctx.label(f"n={n}")


def run_problem(case, ctx):
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    tpl = [i for i, o in enumerate(R.ops) if o[3] == 0]
    C = R.comm[np.ix_(tpl, tpl)]
    if len(tpl) > 26:
        raise Discard("too many templates")
    ref = brute(C)
    limit = case["limit"]
    for lim in (0, limit):
        for iso in (True, False):
            got = P.all_and_maximal_compatible_templates(max_n=lim, isolate_maximal=iso)
            compare(got, C, ref, lim, iso, f"scenario limit={lim} isolate={iso}:")
    check(list(map(int, P._template_idxs)) == tpl, "measurement list differs")
    off = C[~np.eye(len(tpl), dtype=bool)]
    ctx.nontrivial(off.size and off.any() and not off.all())


PARTS = [
    Part("graphs", st.integers(0, 9).flatmap(lambda n: st.fixed_dictionaries(dict(
        n=st.just(n), bits=st.one_of(st.integers(0, 2 ** (n * (n - 1) // 2) - 1 if n else 0),
                                     st.builds(lambda a, b: a | b,
                                               st.integers(0, 2 ** (n * (n - 1) // 2) - 1 if n else 0),
                                               st.integers(0, 2 ** (n * (n - 1) // 2) - 1 if n else 0))),
        diag=st.booleans(), limit=st.integers(1, 6)))), run_graph, 1600, 30000),
    Part("scenarios", st.fixed_dictionaries(dict(spec=scenario(
        parties=(1, 4), sources=(1, 3), lev_max=3, out_max=3, max_ops=50), limit=st.integers(1, 4))),
        run_problem, 400, 6000),
]


def SETUP():
    from ..warm import warm_problem
    warm_problem()
