"""C07 factorisation of moments."""
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import wide, scenario, build, Ref
from ..common import with_words, quantum_model

ID = "C07"
RULE = "non-trivial: the word splits into at least two parts"


def run_split(case, ctx):
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    sdp = None
    for w in case["words"]:
        arr = np.array(w, dtype=np.intc)
        want = sorted(map(tuple, R.factors(w))) if w else []
        for canon in (False, True):
            got = [tuple(map(int, f)) for f in P.factorize_monomial_1d(arr, canonical_order=canon)]
            got = [f for f in got if len(f)]
            check(sorted(got) == want, "word", w, "split into", got, "instead of", want)
        if w:
            g2 = [tuple(R.from_row(r) for r in f) for f in P.factorize_monomial_2d(R.rows(w))]
            check(sorted(f for f in g2 if f) == want, "2d split differs:", w, g2, want)
        # presentation: the split does not depend on the order of the parts
        rot = w[1:] + w[:1]
        a = P.factorize_monomial_1d(np.array(rot, dtype=np.intc), canonical_order=True)
        check(sorted(tuple(sorted(map(int, f))) for f in a if len(f)) ==
              sorted(tuple(sorted(f)) for f in want), "split depends on the presentation", w)
        # compound moments
        r = R.reduce(w)
        if r is not None:
            sdp = sdp or InflationSDP(P)
            m = sdp._sanitise_moment(R.rows(w))
            fs = R.factors(r) if r else []
            check(sorted(map(len, fs)) == sorted(f.n_operators for f in m.factors),
                  "moment", w, "has factors", m.factors, "expected sizes", list(map(len, fs)))
            check(m.n_factors == len(fs) and m.is_atomic == (len(fs) <= 1), "factor count")
        ctx.nontrivial(len(want) > 1)
        ctx.label(f"parts {min(len(want), 5)}")


def run_many(case, ctx):
    """any number of parts: hundreds of copies"""
    from inflation import InflationProblem
    lv = case["lev"]
    if case["kind"] == 0:
        P = InflationProblem({"s": ["A"]}, (2,), (1,), (lv,))
        n = P._nr_operators
        pick = [(k * case["step"] + case["off"]) % n for k in range(case["n"])]
        key = lambda r: (int(r[1]),)
        parts = {}
        for i in pick:
            parts.setdefault(int(P._lexorder[i][1]), []).append(i)
        want = sorted(map(tuple, parts.values()))
    else:
        P = InflationProblem({"s": ["A", "B"], "t": ["B"]}, (2, 2), (1, 1), (lv // 4 + 2, 2))
        n = P._nr_operators
        pick = [(k * case["step"] + case["off"]) % n for k in range(case["n"])]
        # union-find
        par = list(range(len(pick)))
        def find(i):
            while par[i] != i:
                i = par[i]
            return i
        seen = {}
        for k, i in enumerate(pick):
            row = P._lexorder[i]
            for s in (1, 2):
                if row[s]:
                    t = (s, int(row[s]))
                    if t in seen:
                        par[find(k)] = find(seen[t])
                    seen[t] = k
        parts = {}
        for k, i in enumerate(pick):
            parts.setdefault(find(k), []).append(i)
        want = sorted(map(tuple, parts.values()))
    got = sorted(tuple(map(int, f)) for f in P.factorize_monomial_1d(np.array(pick, dtype=np.intc)))
    check(got == want, "split into", len(got), "parts instead of", len(want))
    ctx.nontrivial(len(want) > 1)
    ctx.label("more than 255 parts" if len(want) > 255 else "fewer parts")


def run_model(case, ctx):
    """moment of the whole = product of the moments of the parts, in models"""
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    m = quantum_model(R, case["seed"], 12)
    for w in case["words"]:
        fs = [list(map(int, f)) for f in P.factorize_monomial_1d(np.array(w, dtype=np.intc))]
        v = m.moment(w)
        p = float(np.prod([m.moment(f) for f in fs]))
        check(abs(v - p) < 1e-9, "moment of", w, "is", v, "but the product of its parts is", p)
        fs = [f for f in fs if f]
        ctx.nontrivial(len(fs) > 1)


PARTS = [
    Part("split", with_words(scenario(lev_max=4, max_ops=120, max_group=10 ** 4), 4, (0, 9),
                             (2, 8)), run_split, 2100, 36000),
    Part("wide", with_words(wide(), 4, (2, 9), (2, 8)), run_split, 40, 800),
    Part("many-parts", st.one_of(st.fixed_dictionaries(dict(
        kind=st.integers(0, 1), lev=st.integers(100, 320), step=st.sampled_from([1, 2, 2, 3, 7]),
        off=st.integers(0, 5), n=st.integers(20, 400))), st.fixed_dictionaries(dict(
        kind=st.just(0), lev=st.integers(262, 320), step=st.just(2), off=st.integers(0, 5),
        n=st.integers(258, 330)))), run_many, 192, 1800),
    Part("models", st.builds(lambda c, s: dict(c, seed=s), with_words(
        scenario(parties=(1, 3), sources=(1, 2), lev_max=2, out_max=2, max_ops=30,
                 max_group=8, fancy=False), 4, (2, 6), (2, 6)), st.integers(0, 10 ** 6)),
        run_model, 900, 12000),
]


def SETUP():
    from ..warm import warm_sdp
    warm_sdp()
