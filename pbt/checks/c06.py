"""C06 inflation symmetries."""
import math
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import wide, scenario, build, Ref
from ..common import with_words, rewrite

ID = "C06"
RULE = ("non-trivial: at least one source has two or more copies and (for representatives) the "
        "word is moved by some relabelling")


def sym_key(R, w):
    """orbit key of a whole product: factors up to relabelling, conjugation of
    the product as a whole."""
    r = R.reduce(w)
    if r is None:
        return 0
    one = tuple(sorted(R.rep(f, conj=False) for f in R.factors(r)))
    two = tuple(sorted(R.rep(f[::-1], conj=False) for f in R.factors(r)))
    return min(one, two)


def moment_sym_key(R, m, shift):
    """the same key read off a library moment: the product of its factors"""
    fs = [[int(i) - shift for i in f.as_lexmon] for f in m.factors]
    for f in fs:
        check(len(R.factors(f)) == 1 and R.reduce(f) is not None and
              len(R.reduce(f)) == len(f), "factor", f, "is not an independent reduced part")
    one = tuple(sorted(R.rep(f, conj=False) for f in fs))
    two = tuple(sorted(R.rep(f[::-1], conj=False) for f in fs))
    return min(one, two)


def run_group(case, ctx):
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    want = {tuple(map(int, g)) for g in R.perms}
    got = [tuple(map(int, g)) for g in np.asarray(P.lexorder_symmetries)]
    check(len(set(got)) == len(got), "a symmetry is listed twice")
    check(set(got) == want, "symmetry group has", len(got), "elements; expected", len(want),
          "extra", len(set(got) - want), "missing", len(want - set(got)))
    check(got[0] == tuple(range(len(R.ops))), "the identity does not come first")
    sdp = InflationSDP(P)
    g2 = {tuple(map(int, g)) for g in np.asarray(sdp.lexorder_symmetries)}
    check(g2 == {(0,) + tuple(i + 1 for i in g) for g in want}, "SDP symmetries differ")
    ctx.nontrivial(len(want) > 1)
    ctx.label(f"order {len(want)}")


def run_rep(case, ctx):
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    names = []
    variants = []
    for k, w in enumerate(case["words"]):
        g = R.perms[case["g"][k] % len(R.perms)]
        h = R.perms[case["g"][-1 - k] % len(R.perms)]
        variants += [w, [int(g[i]) for i in w], rewrite(R, [int(h[i]) for i in w], case["moves"]),
                     [int(g[i]) for i in w][::-1]]
    for order in (0, 1):
        sdp = InflationSDP(P)
        seq = list(enumerate(variants))
        if order:
            seq = seq[::-1]
        res, seen, inv = {}, {}, {}
        for k, w in seq:
            if order and case.get("warm"):
                sdp._sanitise_moment(R.rows(w[:1] + w[-1:])) if w else None
            m = sdp._sanitise_moment(R.rows(w))
            key = sym_key(R, w)
            res[k] = m.name
            if key == 0:
                check(m.is_zero, "vanishing product", w, "read as", m)
                continue
            check(not m.is_zero, "non-vanishing product", w, "read as zero")
            if key == ():
                check(m.is_one, "identity read as", m)
            check(moment_sym_key(R, m, 1) == key, "representative", m.factors, "of", w,
                  "is not in its orbit")
            old = seen.setdefault(key, m)
            check(old == m and hash(old) == hash(m),
                  "one orbit, two representatives:", w, old.as_lexmon, m.as_lexmon)
            o2 = inv.setdefault(m, key)
            check(o2 == key, "two orbits, one representative:", w, m)
            check(len(m.factors) == len(R.factors(R.reduce(w))), "wrong number of factors")
        names.append(res)
    for k in names[0]:
        check(names[0][k] == names[1][k], "representative depends on the order in which "
              "products are met:", variants[k], names[0][k], names[1][k])
    for w in case["words"]:
        r = R.reduce(w)
        if r:
            fk = R.foata(r)
            moved = any(R.foata([int(g[i]) for i in r]) != fk for g in R.perms)
            ctx.nontrivial(moved)
            ctx.label("moved" if moved else "fixed")


def run_rep_lp(case, ctx):
    from inflation import InflationLP
    spec = case["spec"]
    R = Ref(spec)
    lp = InflationLP(build(spec))
    seen, inv = {}, {}
    for k, w in enumerate(case["words"]):
        ev = []
        for i in w:       # largest prefix-greedy event of jointly measurable operators
            if i not in ev and all(R.comm[i, j] and not R.ortho(i, j) for j in ev):
                ev.append(i)
        if not ev:
            continue
        for g in [R.perms[x % len(R.perms)] for x in case["g"]]:
            for order in (1, -1):
                u = sorted(int(g[i]) for i in ev)[::order]
                m = lp._sanitise_monomial(R.rows(u))
                key = tuple(sorted(R.rep(f, conj=False) for f in R.factors(u)))
                check(moment_sym_key(R, m, 0) == sym_key(R, u),
                      "LP representative", m.as_lexmon, "of", u, "is not in its orbit")
                check(seen.setdefault(key, m) == m, "one orbit, two LP variables", u)
                check(inv.setdefault(m, key) == key, "two orbits, one LP variable", u, m)
        ctx.nontrivial(len(R.perms) > 1 and any(
            int(g[i]) not in ev for g in R.perms for i in ev))
        ctx.label(f"event size {len(ev)}")


gs = st.lists(st.integers(0, 10 ** 4), min_size=6, max_size=6)
PARTS = [
    Part("group", scenario(lev_max=4, max_ops=90, max_group=150).map(lambda s: dict(spec=s)),
         run_group, 1200, 18000),
    Part("group-many-copies", scenario(parties=(1, 3), sources=(1, 2), lev_max=6, max_ops=60,
         max_group=1500).filter(lambda s: max(s["lev"]) > 3).map(lambda s: dict(spec=s)),
         run_group, 80, 1200),
    Part("wide", st.builds(lambda c, g, wm: dict(c, g=g, warm=wm),
         with_words(wide(), 3, (1, 5), (2, 6), moves=6), gs, st.booleans()),
         lambda c, x: (run_group(c, x), run_rep(c, x)), 24, 400),
    Part("representatives", st.builds(lambda c, g, wm: dict(c, g=g, warm=wm),
         with_words(scenario(parties=(1, 3), max_ops=48, max_group=24), 3, (1, 6), (2, 6),
                    moves=8), gs, st.booleans()), run_rep, 1800, 27000),
    Part("lp-representatives", st.builds(lambda c, g: dict(c, g=g), with_words(
        scenario(parties=(1, 3), sources=(1, 2), lev_max=2, out_max=3, max_ops=24, max_group=12,
                 max_maxevents=3000), 3, (2, 6), (2, 6)), gs), run_rep_lp, 720, 9000),
]


def SETUP():
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
