"""C04 cells of the moment matrix: same variable exactly when equal."""
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick
from ..cols import colspec, choose, wordspec, conjspec
from .c06 import sym_key, moment_sym_key

ID = "C04"
RULE = ("non-trivial: some variable of the moment matrix stands for two or more products that "
        "differ even after commutation and dropping repetitions (identified by symmetry, "
        "conjugation or factorisation)")


def run_matrix(case, ctx):
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    kw = dict(include_all_outcomes=case["all"], supports_problem=case["sup"])
    sdp = InflationSDP(build(spec), **kw)
    cs, lab = choose(sdp, R, case["c"], case["limit"])
    ctx.label(lab)
    if case["again"]:            # a second relaxation on the same object
        sdp.generate_relaxation("npa1")
    sdp.generate_relaxation(cs)
    cols = [[int(v) - 1 for v in w] for w in sdp.generating_monomials_1d]
    n = len(cols)
    M = np.asarray(sdp.momentmatrix)
    check(M.shape == (n, n), "shape", M.shape, "columns", n)
    check((M == M.T).all(), "the moment matrix is not symmetric")
    by_idx, by_key, words = {}, {}, {}
    merged = False
    memo = {}
    for i in range(n):
        for j in range(n):
            w = cols[i][::-1] + cols[j]
            r = R.reduce(w)
            x = int(M[i, j])
            if r is None:
                check(x == 0, "the cell of", cols[i], cols[j], "vanishes but has variable", x)
                continue
            f = R.foata(r)
            if f not in memo:
                memo[f] = sym_key(R, r)
            k = memo[f]
            check(x != 0, "the cell of", cols[i], cols[j], "is zero but its product is not")
            o = by_idx.setdefault(x, k)
            check(o == k, "the variable", x, "stands for", cols[i], cols[j],
                  "and for the different moment", words.get(x))
            words.setdefault(x, (cols[i], cols[j], f))
            merged |= words[x][2] != f
            o = by_key.setdefault(k, x)
            check(o == x, "one moment, two variables:", cols[i], cols[j], words[o][:2])
    used = set(map(int, np.unique(M)))
    check(set(sdp.compmoment_from_idx) == used, "variables without a cell:",
          set(sdp.compmoment_from_idx) ^ used)
    for x, m in sdp.compmoment_from_idx.items():
        if x == 0:
            check(m.is_zero, "variable 0 is", m)
            continue
        k = moment_sym_key(R, m, 1)
        check(k == by_idx[x], "the variable", x, "is called", m, "but its cells are", words[x])
        check(m.idx == x, "index of", m, m.idx, x)
        if k == ():
            check(m.is_one, "identity cell", m)
        else:
            check(not m.is_one and not m.is_zero, "moment", m)
            # knowability of the moment
            know = [R.knowable([int(v) - 1 for v in f.as_lexmon]) for f in m.factors]
            st_ = ("Knowable" if all(know) else "Semi" if any(know) else "Unknowable")
            check(m.knowability_status == st_, m, "is", m.knowability_status, "expected", st_)
    check(by_idx.get(int(M[0, 0])) == () if cols[0] == [] else True, "first cell is not 1")
    check(len(sdp.moments) == len(set(sdp.moments)) == len(used), "list of moments")
    check([sdp.n_knowable, sdp.n_something_knowable, sdp.n_unknowable] ==
          [sum(m.knowability_status == s for m in sdp.moments)
           for s in ("Knowable", "Semi", "Unknowable")], "counts of knowable moments")
    sdp._construct_mask_matrices()
    tot = np.zeros((n, n))
    for m, mask in sdp.maskmatrices.items():
        a = np.asarray(mask.todense()) if hasattr(mask, "todense") else np.asarray(mask)
        check(set(np.unique(a)) <= {0, 1}, "mask entries")
        x = [k for k, v in sdp.compmoment_from_idx.items() if v == m]
        check(len(x) == 1 and ((M == x[0]) == (a == 1)).all(), "mask of", m)
        tot += a
    check((tot == 1).all() if 0 not in used or len(sdp.maskmatrices) == len(used)
          else ((tot == 1) | (M == 0)).all(), "masks do not cover the matrix")
    ctx.nontrivial(merged)
    ctx.label("group " + ("trivial" if len(R.perms) == 1 else "nontrivial"))


def cases(**kw):
    return st.fixed_dictionaries(dict(
        spec=scenario(parties=(1, 4), lev_max=3, max_ops=40, max_group=24, **kw), c=colspec(),
        all=pick([False, False, True]), sup=pick([False, False, True]),
        again=pick([False, False, False, True]), limit=pick([12, 20, 26])))


def long_words():
    """products of up to twelve operators of few parties"""
    return st.fixed_dictionaries(dict(
        spec=scenario(parties=(1, 3), sources=(1, 2), lev_max=3, max_ops=30, max_group=8,
                      classical="none", links=False),
        c=st.one_of(wordspec(4, 8), wordspec(4, 8), conjspec()), all=st.just(False), sup=st.just(False), again=st.just(False),
        limit=st.just(12)))


PARTS = [Part("matrix", cases(), run_matrix, 600, 9000),
         Part("matrix-quantum", cases(classical="none", links=False), run_matrix, 400, 6000),
         Part("matrix-long", long_words(), run_matrix, 1600, 20000)]


def SETUP():
    warnings.simplefilter("ignore")
    from ..warm import warm_sdp
    warm_sdp()
