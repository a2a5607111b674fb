"""C09 names, symbols and arrays."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard, Violation
from ..scen import wide, scenario, build, Ref
from ..common import with_words, rewrite, pick
from .c06 import sym_key, moment_sym_key

ID = "C09"
RULE = ("non-trivial: some word has several operators (or several factors) and is not already in "
        "the form in which the library spells it; rejections: the unbroken spelling is accepted")
ASSUMPTIONS = ["party names without underscores, blanks or the characters of the name syntax"]


def lp_key(R, ev):
    return tuple(sorted(R.rep(f, conj=False) for f in R.factors(sorted(ev))))


def check_sdp_moment(R, sdp, m, w, what):
    key = sym_key(R, w)
    if key == 0:
        check(m.is_zero, what, "of a vanishing product read as", m)
    else:
        check(not m.is_zero, what, "of", w, "read as zero")
        got = moment_sym_key(R, m, 1)
        check(got == key, what, "of", w, "read as", m, m.as_lexmon)


def word_spellings(R, P, w, sel, lp=False):
    """(description, spelling) pairs all denoting the product of operators w"""
    names = [R.op_name(i) for i in w]
    leg = [R.op_legacy(i) for i in w]
    leg_e = [R.op_legacy(i, trivial="∅") for i in w]
    out = [("<names>", "<" + " ".join(names) + ">"),
           ("P[names]", "P[" + " ".join(names) + "]"),
           ("<names &>", "<" + " & ".join(names) + ">"),
           ("<legacy>", "<" + " ".join(leg) + ">"),
           ("<legacy empty>", "<" + " ".join(leg_e) + ">"),
           ("names*", "*".join(names)),
           ("legacy*", "*".join(leg)),
           ("array", R.rows(w)),
           ("list", R.rows(w).tolist()),
           ("mixed", "<" + " ".join(n if (sel >> k) & 1 else l
                                    for k, (n, l) in enumerate(zip(names, leg))) + ">")]
    syms = P._lexrepr_to_symbols
    s = 1
    for i in w:
        s = s * syms[i]
    out.append(("symbols", s))
    # runs of equal operators as powers
    runs = [(k, len(list(g))) for k, g in itertools.groupby(names)]
    out.append(("powers", "*".join(n if c == 1 else f"{n}^{c}" for n, c in runs)))
    if lp:
        out.append(("indices", np.array(w)))
    return out


def fresh_reader(R, P):
    from inflation import InflationSDP
    return InflationSDP(P)


def run_words(case, ctx):
    """every spelling of a product, in every program state, is read as it"""
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    sdp = fresh_reader(R, P)
    if case["gen"]:
        sdp.generate_relaxation([[], [0]])
    sel = case["sel"]
    seen = {}
    todo = []
    for w in case["words"]:
        todo += [w, rewrite(R, w, case["moves"]),
                 rewrite(R, [int(R.perms[sel % len(R.perms)][i]) for i in w], case["moves"])]
    for w in todo:
        if not w:
            continue
        for what, s in word_spellings(R, P, w, sel):
            m = sdp._sanitise_moment(s)
            check_sdp_moment(R, sdp, m, w, f"spelling {what} {s!r}")
            k = sym_key(R, w)
            check(seen.setdefault(k, m) == m, "two moments for one product:", w, m, seen[k])
        ctx.nontrivial(len(w) > 1)
        ctx.label(f"length {min(len(w), 4)}")
    # names, legacy names, symbols of the moments met
    byname = {}
    for k, m in seen.items():
        for attr in ("name", "legacy_name", "symbol"):
            v = getattr(m, attr)
            check(byname.setdefault((attr, str(v)), k) == k, attr, v, "denotes two moments")
            check(sdp._sanitise_moment(v) == m, attr, v, "of", m, "read back as",
                  sdp._sanitise_moment(v))
        check(sdp._sanitise_moment(m) == m, "the moment itself")
    # products of moments
    ms = [(k, m) for k, m in seen.items() if k != 0 and k != ()]
    ms = ms[:3]
    if ms:
        pows = [1 + (sel >> k) % 3 for k in range(len(ms))]
        fs = []
        fsd = []
        for (k, m), p in zip(ms, pows):
            fs += [[int(i) - 1 for i in f.as_lexmon] for f in m.factors] * p
        one = tuple(sorted(R.rep(f, conj=False) for f in fs))
        two = tuple(sorted(R.rep(f[::-1], conj=False) for f in fs))
        # the conjugate of a product is the product of the conjugates: only
        # products of self-conjugate moments have one reading
        selfc = all(tuple(sorted(R.rep([int(i) - 1 for i in f.as_lexmon], conj=False)
                                 for f in m.factors)) ==
                    tuple(sorted(R.rep([int(i) - 1 for i in f.as_lexmon][::-1], conj=False)
                                 for f in m.factors)) for _, m in ms)
        if selfc or len(ms) == 1:
            for rd, reader in (("same", sdp), ("fresh", fresh_reader(R, P))):
                for attr in ("name", "legacy_name"):
                    parts = [getattr(m, attr) for _, m in ms]
                    if rd == "fresh" and (attr == "legacy_name" or not R.network):
                        continue
                    if any("*" in q or "^" in q.split(">")[-1] for q in parts):
                        ex = [q for q, p in zip(parts, pows) for _ in range(p)]
                    else:
                        ex = [q + (f"^{p}" if p > 1 else "") for q, p in zip(parts, pows)]
                    for order in (1, -1):
                        s = "*".join(ex[::order])
                        if s.count("*") + s.count("^") == 0:
                            continue
                        try:
                            m = reader._sanitise_moment(s)
                        except Exception:
                            # factors in which do() was left out as implied
                            if R.network and attr == "name":
                                raise
                            ctx.label("product with links rejected")
                            continue
                        check(moment_sym_key(R, m, 1) == min(one, two), "product of moments", s,
                              "read as", m, "by a", rd, "program")
                        ctx.label(f"product of moments, {rd}")
            sy = 1
            for (k, m), p in zip(ms, pows):
                sy = sy * m.symbol ** p
            try:
                m = sdp._sanitise_moment(sy)
            except Exception:
                # a factor that has not been met on its own is unknown
                if all(f.symbol in sdp.monomial_from_symbol for _, m in ms for f in m.factors):
                    raise
                ctx.label("product of symbols rejected")
                continue_ = False
            else:
                continue_ = True
            if continue_:
                check(moment_sym_key(R, m, 1) == min(one, two), "product of symbols", sy,
                      "read as", m)
                ctx.label("product of symbols read")
    check(sdp._sanitise_moment("1").is_one and sdp._sanitise_moment(1).is_one and
          sdp._sanitise_moment(1.0).is_one and sdp._sanitise_moment(0).is_zero and
          sdp._sanitise_moment(R.rows([])).is_one, "constants")


SPECS = ["npa1", "npa2", "local1", "physical1", "physical2"]


def run_relaxation(case, ctx):
    """moments of a whole relaxation"""
    from inflation import InflationSDP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    sdp = InflationSDP(P, include_all_outcomes=case["all"])
    sdp.generate_relaxation(case["cols"])
    other = InflationSDP(P)
    seen = {}
    for m in sdp.moments:
        for attr in ("name", "legacy_name", "symbol"):
            v = getattr(m, attr)
            old = seen.setdefault((attr, str(v)), m)
            check(old is m, attr, v, "denotes both", old.as_lexmon, "and", m.as_lexmon)
            got = sdp._sanitise_moment(v)
            check(got == m, attr, v, "of", m.as_lexmon, "read back as", got, got.as_lexmon)
        check(sdp.names_to_symbols[m.name] == m.symbol, "names_to_symbols")
        if m.is_atomic and not m.is_one and not m.is_zero:
            check(sdp._sanitise_moment(m.factors[0]) == m, "factor read as another moment")
            check(sdp._sanitise_moment(np.asarray(m.factors[0].as_2d_array)) == m, "array form")
            w = [int(i) - 1 for i in m.as_lexmon]
            check_sdp_moment(R, sdp, sdp._sanitise_moment(
                "<" + " ".join(R.op_name(i) for i in w) + ">"), w, "operator names")
        if m.is_zero:
            continue
        # the name read by a program that has not met the moment
        try:
            g = other._sanitise_moment(m.name)
        except Exception:
            check(not R.network, "name", m.name, "rejected by a fresh program")
            ctx.label("name of a non-network moment rejected by a fresh program")
            continue
        check(moment_sym_key(R, g, 1) == moment_sym_key(R, m, 1),
              "name", m.name, "read by a fresh program as", g)
    ctx.nontrivial(len(sdp.moments) > 4)
    ctx.label("moments", )
    ctx.label("network" if R.network else "links")


def run_lp(case, ctx):
    from inflation import InflationLP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    lp = InflationLP(P, include_all_outcomes=case["all"])
    seen = {}
    for m in lp.monomials:
        for attr in ("name", "legacy_name", "symbol"):
            v = getattr(m, attr)
            old = seen.setdefault((attr, str(v)), m)
            check(old is m, attr, v, "denotes both", old.as_lexmon, "and", m.as_lexmon)
            got = lp._sanitise_monomial(v)
            check(got == m, attr, v, "of", m.as_lexmon, "read back as", got, got.as_lexmon)
        if m.is_atomic and not m.is_one:
            check(lp._sanitise_monomial(m.factors[0]) == m, "factor read as another moment")
            check(lp._sanitise_monomial(np.asarray(m.factors[0].as_2d_array)) == m, "array form")
            check(lp._sanitise_monomial(np.asarray(m.as_lexmon)) == m, "index form")
        check(lp.compmonomial_from_idx[lp.compmonomial_to_idx[m]] == m, "index")
        check(lp.monomial_names[lp.compmonomial_to_idx[m]] == m.name, "monomial_names")
    sel = case["sel"]
    mset = {}
    for m in lp.monomials:
        mset[tuple(sorted(R.rep([int(i) for i in f.as_lexmon], conj=False)
                          for f in m.factors))] = m
    n = 0
    for w in case["words"]:
        ev = []
        for i in w:
            if i not in ev and all(R.comm[i, j] and not R.ortho(i, j) for j in ev):
                ev.append(i)
        g = R.perms[sel % len(R.perms)]
        for u in (ev, [int(g[i]) for i in ev][::-1]):
            if not u:
                continue
            for what, s in word_spellings(R, P, u, sel, lp=True):
                m = lp._sanitise_monomial(s)
                key = tuple(sorted(R.rep([int(i) for i in f.as_lexmon], conj=False)
                                   for f in m.factors))
                check(key == lp_key(R, u), "spelling", what, repr(s), "of", u, "read as", m)
                if key in mset:
                    check(mset[key] == m, "spelling", what, s, "is not the variable", mset[key])
                    n += 1
        ctx.nontrivial(len(ev) > 1)
    ctx.label("variables hit" if n else "no variable hit")


def run_many_ops(case, ctx):
    """more operators than fit in eight bits"""
    from inflation import InflationLP, InflationSDP
    spec = dict(dag=[["h", ["A"]]] if case["n"] == 1 else [["h", ["A"]], ["g", ["B"]]],
                out=[case["o"]] * case["n"], set=[case["s"]] * case["n"], lev=[case["l"]] +
                [1] * (case["n"] - 1), cl=[], cil=[], nil=[], order=None)
    R = Ref(spec)
    P = build(spec)
    n = len(R.ops)
    sdp = InflationSDP(P)
    lp = InflationLP(P) if case["l"] == 1 else None
    for i in [x % n for x in case["i"]]:
        m = sdp._sanitise_moment(R.rows([i]))
        check(moment_sym_key(R, m, 1) == sym_key(R, [i]), "operator", i, "read as", m)
        m = sdp._sanitise_moment(R.op_name(i))
        check(moment_sym_key(R, m, 1) == sym_key(R, [i]), "operator", i, "read as", m)
        if lp is not None:
            for what, s in word_spellings(R, P, [i], 0, lp=True):
                m = lp._sanitise_monomial(s)
                check([int(x) for x in m.as_lexmon] == [i], "operator", i, "spelled", what,
                      "read as", m)
    ctx.nontrivial(n > 256)
    ctx.label("over 256 operators" if n > 256 else "under 256 operators")


def run_reject(case, ctx):
    from inflation import InflationSDP, InflationLP
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    w = case["words"][0]
    k = case["sel"]
    kind = case["kind"]
    w = w or [0]
    j = k % len(w)
    p, c, x, a = R.ops[w[j]]
    rows = R.rows(w)
    names = [R.op_name(i) for i in w]

    def with_name(nm):
        q = list(names)
        q[j] = nm
        return "<" + " ".join(q) + ">"

    nm = names[j]
    stem = nm.split("=", 1)
    if kind == "outcome":
        bad = with_name(stem[0] + f"={R.out[p] + k % 3}" + stem[1][len(str(a)):])
    elif kind == "party":
        bad = with_name("Nobody" + nm[len(R.names[p]):])
    elif kind == "setting":
        if R.priv[p] == 1:
            bad = with_name(R.names[p] + "_1" + nm[len(R.names[p]):])
        else:
            pre = R.names[p] + "_" + str(R.eff[p][x][0])
            bad = with_name(R.names[p] + f"_{R.priv[p] + k % 2}" + nm[len(pre):])
    elif kind == "copy":
        if not R.inflated:
            raise Discard("no copies")
        d = [v + (max(R.lev) if v else 0) for v in c]
        st_ = R.eff[p][x]
        bad = R.names[p] + (f"_{st_[0]}" if R.priv[p] > 1 else "") + \
            "^{" + ",".join(str(v) for v in d if v) + "}_" + "_".join(map(str, d)) + f"={a}"
        if R.parents[p]:
            bad += nm[nm.index("|do"):]
        bad = with_name(bad)
    elif kind == "bracket":
        s = "<" + " ".join(names) + ">"
        bad = [s[:-1], s + ">", "<" + s, "<" + s[1:-1] + "]>", s + "x"][k % 5]
    elif kind == "bare words":
        if len(names) < 2:
            raise Discard("one operator")
        bad = " ".join(names)
    elif kind == "empty":
        bad = ["", "<>", "P[]", "*", "<" + names[0] + ">*", "*" + names[0], "< >", names[0] + "**" + names[0]][k % 8]
    elif kind == "constant":
        bad = [2, 0.5, -1, 3.7, 1.01][k % 5]
    elif kind == "row":
        r = rows.copy()
        r[j, -1] = R.out[p] + k % 3
        bad = r if k % 2 else r.tolist()
    elif kind == "row setting":
        r = rows.copy()
        r[j, -2] = len(R.eff[p]) + k % 3
        bad = r if k % 2 else r.tolist()
    elif kind == "row copy":
        r = rows.copy()
        r[j, 1 + k % R.S] = max(R.lev) + 1
        bad = r
    elif kind == "row wrap":
        r = rows.copy()
        r[j, k % r.shape[1]] += [256, -256, 65536][k % 3]
        bad = r
    elif kind == "row fraction":
        r = rows.astype(float)
        r[j, k % r.shape[1]] += 0.5
        bad = r if k % 2 else r.tolist()
    elif kind == "width":
        bad = [rows[:, :-1], np.hstack([rows, rows[:, -1:]]), rows[:, 1:]][k % 3]
    elif kind == "shape":
        bad = rows[np.newaxis]
    elif kind == "type":
        bad = [None, {"a": 1}, b"x", {1, 2}][k % 4]
    elif kind == "do":
        if not R.parents[p]:
            bad = with_name(nm + f"|do({R.names[(p + 1) % R.n]}=0)")
        else:
            q = R.parents[p][0]
            v = R.eff[p][x][1]
            bad = with_name(nm.replace(f"do({R.names[q]}={v}", f"do({R.names[q]}={R.out[q]}"))
    good = "<" + " ".join(names) + ">"
    progs = [InflationSDP(P)]
    if k % 3 == 0:
        progs.append(InflationSDP(P))
        progs[-1].generate_relaxation([[], [0]])
    for sdp in progs:
        sdp._sanitise_moment(good)
        try:
            m = sdp._sanitise_moment(bad)
        except Exception as e:
            ctx.label(f"{kind}: {type(e).__name__}")
            continue
        if kind in ("bracket", "bare words", "empty"):
            # lenient, as long as it is not mistaken for something else
            if moment_sym_key(R, m, 1) in (sym_key(R, w), sym_key(R, w[:1])):
                ctx.label(f"{kind}: read leniently")
                continue
        raise Violation(f"SDP accepts {kind}:", bad, "as", m)
    if case["lp"]:
        lp = InflationLP(P)
        lp._sanitise_monomial(good)
        try:
            m = lp._sanitise_monomial(bad)
        except Exception as e:
            ctx.label(f"LP {kind}: {type(e).__name__}")
        else:
            if not (kind in ("bracket", "bare words", "empty") and
                    lp._sanitise_monomial(good) == m or
                    m == lp._sanitise_monomial(R.rows(w[:1]))):
                raise Violation(f"LP accepts {kind}:", bad, "as", m)
    ctx.nontrivial()


BAD = ["outcome", "party", "setting", "copy", "bracket", "bare words", "empty", "constant", "row",
       "row setting", "row copy", "row wrap", "row fraction", "width", "shape", "type", "do"]
ints = st.integers(0, 10 ** 4)
sc = scenario(parties=(1, 3), max_ops=40, max_group=24)
lpsc = scenario(parties=(1, 3), sources=(1, 2), lev_max=2, out_max=3, max_ops=24, max_group=12,
                max_maxevents=1500)


def alphabet():
    """scenarios whose settings or outcomes take two digits, or in which the
    name of a party is part of that of another"""
    def mk(sizes, src, cl):
        n = len(sizes)
        names = "AB"[:n]
        dag = [["h", list(names)]] if src or n == 1 else [["h", ["A"]], ["g", ["B"]]]
        return dict(dag=dag, out=[o for o, _ in sizes], set=[x for _, x in sizes],
                    lev=[1] * len(dag), cl="all" if cl else [], cil=[], nil=[], order=None)
    one = pick([(12, 1), (11, 2), (2, 11), (12, 2), (2, 12), (101, 1), (2, 101)])
    two = pick([((12, 1), (12, 1)), ((11, 1), (2, 2)), ((2, 11), (2, 1)), ((2, 11), (2, 11)),
                ((12, 1), (2, 11)), ((3, 11), (2, 2)), ((11, 1), (12, 1)), ((11, 2), (3, 1))])
    def alike(names, out, links):
        dag = [["h", list(names)]] + ([[names[0], [names[2]]]] if links else [])
        return dict(dag=dag, out=out[:len(names)], set=[1] * len(names), lev=[1], cl="all", cil=[],
                    nil=[], order=list(names))
    names = st.one_of(pick([("AB", "A", "BA"), ("A", "AB", "BC", "C"), ("BA", "B", "AB"),
                            ("AB", "A", "C", "BC")]),
                      st.permutations(["A", "AA", "B"]), st.permutations(["AB", "A", "BA", "B"]))
    return st.one_of(
        st.builds(mk, st.one_of(two, one.map(lambda x: (x,))), st.booleans(), st.just(False)),
        st.builds(alike, names, st.lists(st.integers(2, 2), min_size=4, max_size=4), st.booleans()))


PARTS = [
    Part("alphabet", st.builds(lambda c, s, a: dict(c, sel=s, all=a),
                               with_words(alphabet(), 2, (1, 3), (2, 3)), ints, st.booleans()),
         run_lp, 120, 1200),
    Part("words", st.builds(lambda c, s, g: dict(c, sel=s, gen=g),
                            with_words(sc, 2, (1, 5), (2, 5), moves=6), ints, st.booleans()),
         run_words, 500, 8000),
    Part("wide", st.builds(lambda c, s: dict(c, sel=s, gen=False),
                           with_words(wide(), 2, (1, 5), (2, 5), moves=4), ints), run_words, 24, 400),
    Part("relaxation", st.builds(lambda s, c, a: dict(spec=s, cols=c, all=a),
                                 scenario(parties=(1, 3), max_ops=16, max_group=12),
                                 pick(SPECS), st.booleans()), run_relaxation, 150, 2000),
    Part("lp", st.builds(lambda c, s, a: dict(c, sel=s, all=a), with_words(lpsc, 3, (1, 5), (2, 5)),
                         ints, st.booleans()), run_lp, 120, 2000),
    Part("many-operators", st.builds(lambda n, o, s, l, i: dict(n=n, o=o, s=s, l=l, i=i),
         st.integers(1, 2), st.integers(2, 3), st.integers(20, 70), st.integers(1, 2),
         st.lists(ints, min_size=3, max_size=6)), run_many_ops, 8, 100),
    Part("malformed", st.builds(lambda c, s, k, l: dict(c, sel=s, kind=k, lp=l),
                                with_words(scenario(parties=(1, 3), max_ops=24, max_group=6,
                                                    lev_max=2, max_maxevents=1500), 1, (1, 3), (1, 4)),
                                ints, pick(BAD), st.booleans()), run_reject, 600, 6000),
]


def SETUP():
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()
