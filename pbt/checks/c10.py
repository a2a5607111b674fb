"""C10 generating-set specifications."""
import itertools
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, build, Ref
from ..common import pick, mixed_int, with_words

ID = "C10"
RULE = ("non-trivial: the specified set contains a product of two or more operators and the "
        "scenario has two copies of a source, or two settings, or three outcomes")
LIMIT = 6000


class Cols:
    """documented sets of products, by brute force"""

    def __init__(self, R):
        self.R = R
        self.by = [[i for i, o in enumerate(R.ops) if o[0] == p and
                    (R.has_children[p] or o[3] < R.out[p] - 1)] for p in range(R.n)]

    def block(self, b):
        R = self.R
        if math.prod(len(self.by[p]) for p in b) > LIMIT:
            raise Discard("set too large")
        res = {}
        for w in itertools.product(*(self.by[p] for p in b)):
            r = R.reduce(w)
            if r is not None and len(r) == len(w):
                res.setdefault(R.foata(r), r)
        return res

    def blocks(self, bs):
        res = {}
        for b in bs:
            res.update(self.block(b))
            if len(res) > LIMIT:
                raise Discard("set too large")
        return res

    def npa(self, n, cap):
        n = min(n, cap) if cap else n
        return self.blocks([b for k in range(n + 1) for b in
                            itertools.combinations_with_replacement(range(self.R.n), k)])

    def local(self, caps, cap):
        top = min(sum(caps), cap) if cap else sum(caps)
        return self.blocks([[p for p, k in enumerate(f) for _ in range(k)]
                            for f in itertools.product(*(range(c + 1) for c in caps))
                            if sum(f) <= top])

    def physical(self, caps, cap):
        R = self.R
        C = R.comm
        res = {}
        allops = sorted(i for b in self.by for i in b)

        def rec(w, start, cnt):
            res[R.foata(w)] = list(w)
            if len(res) > LIMIT:
                raise Discard("set too large")
            if cap and len(w) >= cap:
                return
            for k in range(start, len(allops)):
                i = allops[k]
                p = R.ops[i][0]
                if caps[p] is not None and cnt.get(p, 0) >= caps[p]:
                    continue
                if all(C[i, j] and not R.ortho(i, j) for j in w):
                    rec(w + [i], k + 1, {**cnt, p: cnt.get(p, 0) + 1})
        rec([], 0, {})
        return res


def words(cols):
    return [[int(v) - 1 for v in c] for c in cols]


def keys(R, got, what):
    """the keys of a list of columns: canonical, nonzero, each once"""
    ks = set()
    for w in got:
        check(-1 not in w, what, "contains the zero product")
        r = R.reduce(w)
        check(r is not None, what, "contains the vanishing product", w)
        check(len(r) == len(w), what, "contains the reducible product", w)
        k = R.foata(r)
        check(k not in ks, what, "contains the product", w, "twice")
        ks.add(k)
    return ks


def spec_string(c, n):
    kind = c["kind"]
    if kind == "npa":
        return f"npa{c['lv'][0] % 4}"
    if c["percap"]:
        caps = "".join(str(v % 3) for v in c["lv"][:n])
    elif kind == "physical" and c["none"]:
        caps = ""
    else:
        caps = str(1 + c["lv"][0] % 2)
    s = kind + caps
    return s


def want_of(C, c, n, maxlen):
    if c["kind"] == "npa":
        return C.npa(c["lv"][0] % 4, maxlen)
    if c["percap"]:
        caps = [v % 3 for v in c["lv"][:n]]
    elif c["kind"] == "physical" and c["none"]:
        caps = [None] * n
    else:
        caps = [1 + c["lv"][0] % 2] * n
    return (C.local if c["kind"] == "local" else C.physical)(caps, maxlen)


def note(ctx, R, got):
    ctx.nontrivial(any(len(w) > 1 for w in got) and
                   (max(R.lev) > 1 or max(R.out) > 2 or max(map(len, R.eff)) > 1))
    ctx.label("longest product " + str(max(map(len, got), default=0)))


def run_strings(case, ctx):
    from inflation import InflationSDP
    R = Ref(case["spec"])
    sdp = InflationSDP(build(case["spec"]))
    c, n = case["c"], R.n
    C = Cols(R)
    maxlen = case["maxlen"]
    want = want_of(C, c, n, maxlen)
    s = spec_string(c, n)
    if case["case"]:
        s = {1: s.capitalize(), 2: s.upper()}[case["case"]]
    got = words(sdp.build_columns(s, max_monomial_length=maxlen))
    what = (s, "max length", maxlen)
    ks = keys(R, got, what)
    check(ks == set(want), what, len(ks), "products; expected", len(want), "missing",
          [want[k] for k in set(want) - ks][:3], "extra",
          [w for w in got if R.foata(w) not in want][:3])
    check(got[0] == [], what, "does not start with the identity")
    check([[int(v) - 1 for v in m] for m in sdp.generating_monomials_1d] == got,
          "generating monomials differ from the columns returned")
    check(sdp.n_columns == len(got), "n_columns", sdp.n_columns, len(got))
    note(ctx, R, got)
    ctx.label(c["kind"])
    # the same set in other forms
    if len(got) <= 300:
        sy = sdp.build_columns(s, max_monomial_length=maxlen, symbolic=True)
        again = words(sdp.build_columns(list(sy)))
        check(again == got, what, "symbolic form read back as", again[:8], "instead of", got[:8])
        for form in ([R.rows(w) for w in got], [np.array(w, dtype=int) + 1 for w in got]):
            again = words(sdp.build_columns(form))
            check(again == got, what, "array form read back differently")
        meas = [list(map(str, np.ravel(np.array(m, dtype=object))))
                for m in sdp.measurements]
        flat = [x for m in meas for x in m]
        check(len(set(flat)) == len(flat), "a measurement operator occurs twice")
        vis = sum(len(b) for b in C.by)
        check(len(flat) == vis, "measurements lists", len(flat), "operators; expected", vis)
    if c["kind"] == "npa" or not c["percap"]:
        big = words(sdp.build_columns(spec_string(dict(c, lv=[0] * 9), n),
                                      max_monomial_length=maxlen))
        low = keys(R, big, "lower level")
        if want_of(C, dict(c, lv=[0] * 9), n, maxlen).keys() <= set(want):
            check(low <= ks, "a larger level misses products of a smaller one")


def run_blocks(case, ctx):
    from inflation import InflationSDP
    R = Ref(case["spec"])
    sdp = InflationSDP(build(case["spec"]))
    C = Cols(R)
    bs = [[p % R.n for p in b] for b in case["blocks"]]
    want = C.blocks(bs)
    got = words(sdp.build_columns(bs))
    ks = keys(R, got, bs)
    check(ks == set(want), bs, len(ks), "products; expected", len(want))
    note(ctx, R, got)
    # the blocks come in the order given
    pos = {}
    for i, b in enumerate(bs):
        for k in C.block(b):
            pos.setdefault(k, i)
    order = [pos[R.foata(w)] for w in got]
    check(order == sorted(order), bs, "columns do not follow the order of the blocks")


def run_relax(case, ctx):
    """columns of a generated relaxation, explicit lists in all forms"""
    from inflation import InflationSDP
    R = Ref(case["spec"])
    sdp = InflationSDP(build(case["spec"]))
    ws, seen = [[]], {()}
    for w in case["words"]:
        r = R.reduce(w)
        if r is None or R.foata(r) in seen:
            continue
        seen.add(R.foata(r))
        w = [int(v) - 1 for v in sdp._to_canonical_memoized_1d(
            np.array(r, dtype=np.intc) + 1)]
        ws.append(w)
    form = case["form"]
    if form == 0:
        spec = [R.rows(w) for w in ws]
    elif form == 1:
        spec = [np.array(w, dtype=int) + 1 for w in ws]
    else:
        if form == 2 or len(ws) < 2:
            spec = [1]
        else:
            import sympy
            spec = [sympy.S.One]
        import sympy
        for w in ws[1:]:
            spec.append(sympy.prod([sdp._lexrepr_to_symbols[i + 1] for i in w]))
    sdp.generate_relaxation(spec)
    got = words(sdp.generating_monomials_1d)
    check(got == ws, "form", form, "gives", got[:6], "instead of", ws[:6])
    check(sdp.n_columns == len(ws) and sdp.momentmatrix.shape == (len(ws),) * 2,
          "size of the moment matrix", sdp.momentmatrix.shape, len(ws))
    gm = [m for m in sdp.generating_monomials] if hasattr(sdp, "generating_monomials") else None
    if gm is not None:
        check([[tuple(map(int, r)) for r in m] for m in gm] ==
              [[tuple(R.row(i)) for i in w] for w in ws], "generating_monomials differ")
    note(ctx, R, got)
    ctx.label(f"form {form}")


BAD = ["local", "npa", "foo2", "npax", "localx", "", "mpa2", "2", "physicalx", "local-", "npa1.5"]


def run_bad(case, ctx):
    from inflation import InflationSDP
    R = Ref(case["spec"])
    sdp = InflationSDP(build(case["spec"]))
    import sympy
    bad = list(BAD) + [None, 3, {}, [2, sympy.Symbol("A")], [sympy.Symbol("nobody")],
                       [[0], [R.n + 3]], [1, sympy.Symbol("zz_1")], (), [None]]
    b = bad[case["k"] % len(bad)]
    try:
        got = sdp.build_columns(b)
    except (Exception, AssertionError):
        ctx.nontrivial()
        ctx.label(repr(b)[:20])
        return
    check(False, "malformed specification", repr(b), "accepted as", got[:5])


lvs = st.lists(mixed_int(60), min_size=5, max_size=5)
strings = st.fixed_dictionaries(dict(
    kind=pick(["npa", "local", "physical"]), lv=lvs, percap=st.booleans(), none=st.booleans()))
scen = scenario(parties=(1, 4), lev_max=2, max_ops=24, max_group=24)
PARTS = [
    Part("strings", st.fixed_dictionaries(dict(
        spec=scen, c=strings, maxlen=pick([0, 0, 1, 2, 3, 4]), case=pick([0, 0, 0, 1, 2]))),
        run_strings, 700, 12000),
    Part("blocks", st.fixed_dictionaries(dict(spec=scen, blocks=st.lists(
        st.lists(mixed_int(8), max_size=3), min_size=1, max_size=5))), run_blocks, 400, 8000),
    Part("explicit", st.builds(lambda c, f: dict(c, form=f), with_words(
        scen, 6, (1, 4), (2, 6)), pick([0, 1, 2, 3])), run_relax, 300, 5000),
    Part("malformed", st.fixed_dictionaries(dict(
        spec=scenario(parties=(1, 3), max_ops=12, lev_max=2, max_group=4), k=mixed_int(60))),
        run_bad, 200, 2000),
]


def SETUP():
    warnings.simplefilter("ignore")
    from ..warm import warm_sdp
    warm_sdp()
