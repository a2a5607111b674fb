"""C05 operator algebra."""
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, wide, build, Ref
from ..common import classical_latent_commutation, with_words, rewrite, quantum_model

ID = "C05"
RULE = ("a case is non-trivial when its scenario has a non-commuting pair of operators "
        "(tables/models) or its word has at least one non-commuting pair or a pair of "
        "orthogonal operators (canonical forms)")
ASSUMPTIONS = ["operators of a system that reaches a party through a classical intermediate "
               "latent are taken to be jointly measurable (see known finding under C03)",
               "parties that share two different intermediate latents may be flagged "
               "non-commuting although they commute"]


def run_tables(case, ctx):
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    n = len(R.ops)
    rows = np.array([R.row(i) for i in range(n)])
    check(np.array_equal(P._lexorder, rows), "operator list differs from the scenario")
    C = R.comm
    D = np.asarray(P._default_notcomm, bool)
    bad = np.argwhere(D == C)
    check(not len(bad), "commutation of", [rows[b].tolist() for b in bad[:1]],
          "flagged commuting:", [not D[tuple(b)] for b in bad[:1]])
    sdp = InflationSDP(P)
    check(np.array_equal(np.asarray(sdp._notcomm)[1:, 1:].astype(bool), ~C),
          "SDP commutation table differs")
    check(not np.asarray(sdp._notcomm)[0].any() and not np.asarray(sdp._notcomm)[:, 0].any(),
          "zero operator flagged non-commuting")
    O = np.array([[R.ortho(i, j) for j in range(n)] for i in range(n)])
    check(np.array_equal(np.asarray(sdp._orthomat)[1:, 1:].astype(bool), O),
          "orthogonality table differs")
    check(sdp.all_operators_commute == bool(C.all()), "all_operators_commute is wrong")
    # groups of outcomes
    for g in P._ortho_idxs:
        g = list(map(int, g))
        check(all(R.ortho(i, j) for i in g for j in g if i != j) and
              len(g) == R.out[R.ops[g[0]][0]], "outcome group is wrong")
    check(sorted(int(i) for g in P._ortho_idxs for i in g) == list(range(n)),
          "outcome groups do not partition the operators")
    ctx.nontrivial((~C).any())
    for k in set(R.pair_kind.ravel()):
        ctx.label(f"pair kind {k}")
    if (~C).any():
        ctx.label("has noncommuting")
    if spec["cil"] or spec["nil"]:
        ctx.label("has latent")


def run_canon(case, ctx):
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    sdp = InflationSDP(build(spec))
    canon = lambda w, **k: [int(v) for v in sdp._to_canonical_memoized_1d(
        np.array(w, dtype=np.intc) + 1, **k)]
    keys = {}
    for w in case["words"]:
        v = rewrite(R, w, case["moves"])
        k = R.key(w)
        check(R.key(v) == k, "reference broken")
        for u in (w, v, w[::-1]):
            ku = R.key(u)
            c = canon(u)
            if ku is None:
                check(c == [0], "word", u, "vanishes but canonical form is", c)
                continue
            check(0 not in c, "word", u, "does not vanish but canonical form is", c)
            cc = [i - 1 for i in c]
            check(len(cc) == len(R.reduce(u)) and R.key(cc) == ku,
                  "canonical form of", u, "is", cc, "which is a different product")
            check(canon(cc) == c, "canonical form of", u, "is not idempotent:", c, canon(cc))
            old = keys.setdefault(ku, c)
            check(old == c, "equal products", u, "have different canonical forms", old, c)
        # 2d entry point agrees
        if w:
            arr = R.rows(w)
            c2 = sdp._to_canonical_memoized_1d(sdp.mon_to_lexrepr(arr))
            check(list(map(int, c2)) == canon(w), "2d entry point differs")
        inv = {}
        for k_, c in keys.items():
            check(inv.setdefault(tuple(c), k_) == k_, "different products share a form", c)
        if any(not R.comm[a, b] for a in w for b in w) or k is None:
            ctx.nontrivial()
        ctx.label("zero" if k is None else f"len {len(R.reduce(w))}")


def run_columns(case, ctx):
    """products given as generating set, in any spelling, do not affect how
    products are read afterwards"""
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    sdp = InflationSDP(build(spec))
    cols = [np.empty((0, R.S + 3), dtype=int)] + [R.rows(w) for w in case["words"]]
    try:
        sdp.generate_relaxation(cols)
    except Exception as e:
        raise Discard(f"columns refused: {type(e).__name__}")
    keys = {}
    for w in case["words"]:
        for g in R.perms[:12]:
            u = [int(g[i]) for i in w]
            k = R.key(u)
            c = [int(v) for v in sdp._to_canonical_memoized_1d(np.array(u, dtype=np.intc) + 1)]
            if k is None:
                check(c == [0], "word", u, "vanishes but its canonical form is", c)
                continue
            check(len(c) == len(R.reduce(u)) and R.key([i - 1 for i in c]) == k,
                  "canonical form of", u, "is", c, "after it was used as a column")
            m = sdp._sanitise_moment(R.rows(u))
            k = R.moment_key(u)
            old = keys.setdefault(k, m)
            check(old == m, "equal moments", old, m, "of", u)
        ctx.nontrivial(len(R.reduce(w) or []) < len(w))


def run_commonly(case, ctx):
    """canonical order by commutations only (no projector rules)."""
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    sdp = InflationSDP(build(spec))
    seen = {}
    for w in case["words"]:
        if not w:
            continue
        v = rewrite(R, w, [m for m in case["moves"] if m[0] == 0])
        cs = []
        for u in (w, v):
            c = [int(x) - 1 for x in sdp._to_canonical_memoized_1d(
                np.array(u, dtype=np.intc) + 1, apply_only_commutations=True)]
            check(sorted(c) == sorted(u), "commutations alone changed the operators of", u, c)
            check(R.foata(c) == R.foata(u), "commutations alone changed the product", u, c)
            cs.append(c)
        check(cs[0] == cs[1], "equal up to commutations but different", w, v, cs)
        k = R.foata(w)
        check(seen.setdefault(k, cs[0]) == cs[0], "history dependent")
        ctx.nontrivial(any(not R.comm[a, b] for a in w for b in w))


def run_model(case, ctx):
    """Declared commutation / orthogonality / canonical forms hold in concrete
    Hilbert-space models; pairs declared not to commute fail to in some."""
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    sdp = InflationSDP(P)
    D = np.asarray(P._default_notcomm, bool)
    n = len(R.ops)
    m = quantum_model(R, case["seed"], 11)
    i, j = case["pair"][0] % n, case["pair"][1] % n
    dev = np.abs(m.vec((i, j)) - m.vec((j, i))).max()
    if not D[i, j]:
        check(dev < 1e-9, "operators", R.row(i), R.row(j), "declared commuting but do not")
    for w in case["words"]:
        c = [int(v) for v in sdp._to_canonical_memoized_1d(np.array(w, dtype=np.intc) + 1)]
        val = m.moment(w)
        if c == [0]:
            check(abs(val) < 1e-9, "vanishing word", w, "has value", val)
        else:
            check(abs(m.moment([q - 1 for q in c]) - val) < 1e-9,
                  "canonical form changes the value of", w)
            ctx.nontrivial(any(D[a, b] for a in w for b in w))
    # completeness
    # (the only outcome of a measurement commutes with everything)
    pairs = [(a, b) for a, b in np.argwhere(np.triu(D))
             if R.out[R.ops[a][0]] > 1 and R.out[R.ops[b][0]] > 1]
    if len(pairs):
        a, b = map(int, pairs[case["pair"][0] % len(pairs)])
        p, q = R.ops[a][0], R.ops[b][0]
        lat = {v for _, v in R.paths[p] if v} & {v for _, v in R.paths[q] if v}
        if p == q or len(lat) <= 1:
            ctx.nontrivial()
            ctx.label("noncommuting pair, same party" if p == q else "noncommuting pair, latent")
            for s in range(60):
                mm = quantum_model(R, case["seed"] * 64 + s, 11, nv=1 if s % 2 else 2)
                if np.abs(mm.vec((a, b)) - mm.vec((b, a))).max() > 1e-7:
                    break
            else:
                check(False, "operators", R.row(a), R.row(b), "declared non-commuting "
                      "but commute in 60 generic models")


small = scenario(parties=(1, 3), sources=(1, 2), lev_max=2, out_max=2, max_ops=24,
                 max_group=8, fancy=False)
PARTS = [
    Part("tables", scenario(max_ops=48).map(lambda s: dict(spec=s)), run_tables, 1280, 24000),
    Part("canonical", with_words(scenario(parties=(1, 3), max_ops=40, max_group=12), 4,
                                 (2, 8), (2, 6), moves=14), run_canon, 1920, 36000),
    Part("wide-tables", wide().map(lambda s: dict(spec=s)), run_tables, 12, 200),
    Part("wide-canonical", with_words(wide(), 4, (2, 6), (2, 6), moves=10), run_canon, 24, 500),
    Part("commute-only", with_words(scenario(parties=(1, 3), max_ops=40, max_group=12), 3,
                                    (2, 8), (2, 6), moves=14), run_commonly, 960, 16000),
    Part("columns", with_words(scenario(parties=(1, 3), max_ops=24, max_group=8, out_max=2,
                                        fancy=False), 3, (1, 4), (1, 4)), run_columns, 400, 8000),
    Part("models", st.builds(lambda c, s, a, b: dict(c, seed=s, pair=[a, b]),
                             with_words(small, 3, (2, 6), (2, 5)),
                             st.integers(0, 10 ** 6), st.integers(0, 10 ** 4),
                             st.integers(0, 10 ** 4)), run_model, 960, 16000),
]


FINDINGS = [("K02", classical_latent_commutation)]


def SETUP():
    from ..warm import warm_sdp
    warm_sdp()
