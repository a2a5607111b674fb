"""C19 scenario descriptions."""
import copy
import itertools
import numpy as np
from hypothesis import strategies as st
from ..runner import Part, check, Discard, Violation
from ..common import pick
from ..scen import wide, scenario, build, Ref

ID = "C19"
RULE = ("non-trivial: several parties and (a link between visible parties, an intermediate "
        "latent, a given order, or several copies of a source); for rejections: the unbroken "
        "description is accepted")
ASSUMPTIONS = ["party names without underscores or operators symbols"]


def compare(R, P, what="description"):
    check(list(P.names) == R.names, what, "party names", list(P.names), R.names)
    check(P.nr_parties == R.n and P.nr_sources == R.S, what, "counts")
    H = np.zeros((R.S, R.n), int)
    for p in range(R.n):
        for s in R.fed[p]:
            H[s, p] = 1
    check(np.array_equal(np.asarray(P.hypergraph), H), what, "hypergraph", P.hypergraph, H)
    check(list(P.outcomes_per_party) == R.out, what, "outcomes")
    check(list(P.private_settings_per_party) == R.priv, what, "private settings")
    check(list(P.settings_per_party) == [len(e) for e in R.eff], what, "effective settings",
          P.settings_per_party)
    check(list(P.inflation_level_per_source) == R.lev, what, "levels")
    check(tuple(P.expected_distro_shape) == tuple(R.out + R.priv), what, "shape")
    check(bool(P.is_network) == R.network, what, "is_network")
    check(list(map(bool, P.has_children)) == R.has_children, what, "has_children")
    check([list(map(int, q)) for q in P.parents_per_party] == R.parents, what, "parents")
    check(list(map(bool, P._classical_sources)) == R.cl, what, "classical sources")
    for p in range(R.n):
        got = {int(k): tuple(map(int, v)) for k, v in P.effective_to_parent_settings[p].items()}
        check(got == dict(enumerate(R.eff[p])), what, "effective settings of party", p, got)
    rows = [tuple(R.row(i)) for i in range(len(R.ops))]
    got = [tuple(map(int, r)) for r in P._lexorder]
    check(len(got) == len(set(got)), what, "operator listed twice")
    check(got == rows, what, "operators", len(got), len(rows))
    check(list(P._lexrepr_to_names) == [R.op_name(i) for i in range(len(rows))],
          what, "operator names")
    check(int(P._nr_operators) == len(rows), what, "number of operators")


def run_denote(case, ctx):
    spec = case["spec"]
    R = Ref(spec)
    P = build(spec)
    compare(R, P)
    n = len(R.ops)
    # measurements: outcomes of one measurement on the same copies
    groups = {}
    for i, o in enumerate(R.ops):
        groups.setdefault(o[:3], []).append(i)
    got = sorted(sorted(map(int, g)) for g in P._ortho_idxs)
    check(got == sorted(sorted(g) for g in groups.values()), "groups of outcomes")
    for g, arr in zip(P._ortho_idxs, P._ortho_groups):
        check(np.array_equal(np.asarray(arr), R.rows([int(i) for i in g])), "measurement arrays")
    tm = np.asarray(P._compatible_template_measurements)
    T = [int(i) for i in P._template_idxs]
    check(len(T) == len(groups) and len({R.ops[i][:3] for i in T}) == len(T),
          "one template per measurement")
    check(np.array_equal(tm, R.comm[np.ix_(T, T)]) , "compatible measurements")
    # settings map back to the right parents
    w = [k % n for k in case["w"]]
    back = P.mon_to_lexrepr(R.rows(w))
    check([int(i) for i in back] == w, "rows read back as", back, "expected", w)
    fixed = np.asarray(P.rectify_fake_setting(R.rows(w).copy()))
    want = [[*R.row(i)[:-2], R.eff[R.ops[i][0]][R.ops[i][2]][0], R.ops[i][3]] for i in w]
    check(fixed.tolist() == want, "private settings", fixed.tolist(), want)
    ev = [i for k, i in enumerate(w) if R.ops[i][0] not in [R.ops[j][0] for j in w[:k]]]
    if ev:
        val = {R.ops[i][0]: R.ops[i][3] for i in ev}
        know = all(val.get(q) == v for i in ev for q, v in
                   zip(R.parents[R.ops[i][0]], R.eff[R.ops[i][0]][R.ops[i][2]][1:]))
        check(bool(P._is_knowable_q_non_networks(R.rows(ev))) == know, "knowability of", ev)
    oe = [tuple(map(int, r)) for r in P.original_dag_events]
    check(oe == [(p + 1, x, a) for p in range(R.n) for x in range(R.priv[p])
                 for a in range(R.out[p])], "events of the original scenario")
    links = not R.network
    ctx.nontrivial(R.n > 1 and (links or bool(spec["cil"] or spec["nil"] or spec["order"])
                                or max(R.lev) > 1))
    ctx.label("links" if links else "network")
    ctx.label(f"latents {len(spec['cil'])}c {len(spec['nil'])}q")


def run_equiv(case, ctx):
    """other accepted ways of writing the same description"""
    from inflation import InflationProblem
    spec = case["spec"]
    R = Ref(spec)
    kind = case["kind"]
    dag = {k: list(v) for k, v in spec["dag"]}
    over = {}
    what = kind
    spec2 = spec
    snapshot = None
    if kind == "arrays":
        over = dict(outcomes_per_party=np.array(spec["out"]), settings_per_party=np.array(spec["set"]),
                    inflation_level_per_source=np.array(spec["lev"]))
    elif kind == "tuples":
        over = dict(outcomes_per_party=tuple(spec["out"]), settings_per_party=tuple(spec["set"]),
                    inflation_level_per_source=tuple(spec["lev"]),
                    dag={k: tuple(v) for k, v in dag.items()})
    elif kind == "sets":
        over = dict(dag={k: set(v) for k, v in dag.items()})
    elif kind == "duplicate-children":
        over = dict(dag={k: list(v) + list(v)[:1] for k, v in dag.items()})
    elif kind == "int-level":
        spec2 = dict(spec, lev=[min(spec["lev"])] * len(spec["lev"]))
        over = dict(inflation_level_per_source=min(spec["lev"]))
    elif kind == "no-level":
        spec2 = dict(spec, lev=[1] * len(spec["lev"]))
        over = dict(inflation_level_per_source=[(), None, [], 1, np.array([])][case["k"] % 5])
    elif kind == "no-settings":
        spec2 = dict(spec, set=[1] * len(spec["set"]))
        over = dict(settings_per_party=[(), [], None, np.array([], dtype=int)][case["k"] % 4])
    elif kind == "no-order":
        spec2 = dict(spec, order=None)
        over = dict(order=[None, (), []][case["k"] % 3])
    elif kind == "wrong-order":
        spec2 = dict(spec, order=None)
        bad = list(R.names)
        k = case["k"] % 3
        bad = bad[:-1] + ["nobody"] if k == 0 else bad + ["nobody"] if k == 1 else bad[:-1]
        over = dict(order=bad)
        if k == 2 and not bad:
            raise Discard("empty order")
    elif kind == "sources-reordered":
        # dictionary order decides the order of the sources
        keys = list(dag)[::-1]
        lev = dict(zip(R.sources, spec["lev"]))
        d2 = [[k, dag[k]] for k in keys]
        spec2 = dict(spec, dag=d2, lev=[lev[k] for k in keys if k in lev])
    elif kind == "classical-container":
        if spec["cl"] == "all":
            over = dict(classical_sources=["all", "ALL", "All", list(R.sources)][case["k"] % 4])
        else:
            over = dict(classical_sources=[tuple, list, set][case["k"] % 3](spec["cl"]))
            if not spec["cl"] and case["k"] % 2:
                over = dict(classical_sources=None)
    elif kind == "no-dag":
        k = case["k"] % 3
        nm = list(R.names)
        order = [None, nm, tuple(nm)][k]
        lev = case["k"] % 2 + 1
        names = nm if order else [chr(65 + i) for i in range(R.n)]
        spec2 = dict(dag=[["h_global", names]], out=spec["out"], set=spec["set"], lev=[lev],
                     cl=[], cil=[], nil=[], order=names)
        kw = dict(outcomes_per_party=spec["out"], settings_per_party=spec["set"],
                  inflation_level_per_source=[lev])
        if order:
            kw["order"] = order
        if case["k"] % 5 == 0:
            kw["dag"] = {}
        compare(Ref(spec2), InflationProblem(**kw), "no dag")
        ctx.nontrivial(R.n > 1)
        ctx.label(kind)
        return
    if spec["order"] is None and "order" not in over and spec2 is spec and case["k"] % 7 == 0:
        spec2 = dict(spec, order=R.names[::-1], out=spec["out"], set=spec["set"])
    args = copy.deepcopy(over)
    P = build(spec2, **over)
    compare(Ref(spec2), P, kind)
    for k in over:
        same = np.array_equal(np.asarray(over[k], dtype=object), np.asarray(args[k], dtype=object)) \
            if not isinstance(over[k], dict) else over[k] == args[k]
        check(same, "argument", k, "was changed")
    if spec2["order"] is None and R.names != sorted(R.names) and kind in ("no-order", "wrong-order"):
        check(list(P.names) == sorted(R.names), "default order of the parties")
    ctx.label(kind)
    ctx.nontrivial(R.n > 1)


KINDS = ["arrays", "tuples", "sets", "duplicate-children", "int-level", "no-level", "no-settings",
         "no-order", "wrong-order", "sources-reordered", "classical-container", "no-dag"]


def run_reject(case, ctx):
    from inflation import InflationProblem
    spec = copy.deepcopy(case["spec"])
    R = Ref(spec)
    build(spec)           # the description before it is broken
    k, kind = case["k"], case["kind"]
    dag = {a: list(b) for a, b in spec["dag"]}
    over = {}
    some = R.names[k % R.n]
    other = R.names[(k // 7) % R.n]
    src = R.sources[k % R.S]
    if kind == "no outcomes":
        over = dict(outcomes_per_party=[None, (), [], np.array([], dtype=int)][k % 4])
    elif kind == "settings length":
        over = dict(settings_per_party=(spec["set"] + [2]) if k % 2 or R.n == 1 else spec["set"][:-1])
    elif kind == "outcomes length":
        over = dict(outcomes_per_party=spec["out"] + [2], settings_per_party=spec["set"] + [1]) \
            if k % 2 or R.n == 1 else dict(outcomes_per_party=spec["out"][:-1],
                                           settings_per_party=spec["set"][:-1])
    elif kind == "level length":
        over = dict(inflation_level_per_source=spec["lev"] + [1] if k % 2 or R.S == 1
                    else spec["lev"][:-1])
    elif kind == "unknown classical source":
        over = dict(classical_sources=[[src, "nosuch"], ["nosuch"], [some]][k % 3])
    elif kind == "bad classical string":
        over = dict(classical_sources=["none", "quantum", "classical", src][k % 4])
    elif kind == "latent of both kinds":
        L = (spec["cil"] + spec["nil"] + ["LL"])[0]
        if L == "LL":
            dag[src].append(L)
            dag[L] = [some]
        over = dict(dag=dag, classical_intermediate_latents=[L] + spec["cil"],
                    nonclassical_intermediate_latents=[L] + spec["nil"])
    elif kind == "visible to latent":
        dag[src].append("LL")
        dag["LL"] = [other]
        dag.setdefault(some, []).append("LL")
        over = dict(dag=dag, classical_intermediate_latents=spec["cil"] + ["LL"])
        if k % 2 and not R.cl[R.sources.index(src)]:
            over = dict(dag=dag, nonclassical_intermediate_latents=spec["nil"] + ["LL"])
    elif kind == "latent to latent":
        dag[src].append("L1")
        dag["L1"] = ["L2"] + ([some] if k % 2 else [])
        dag["L2"] = [other]
        over = dict(dag=dag, classical_intermediate_latents=spec["cil"] + ["L1", "L2"])
    elif kind == "latent without parent":
        dag["LL"] = [some, other]
        over = dict(dag=dag)
        key = "classical_intermediate_latents" if k % 2 else "nonclassical_intermediate_latents"
        over[key] = spec["cil" if k % 2 else "nil"] + ["LL"]
    elif kind == "quantum latent of classical sources":
        dag["cc"] = ["LL"]
        dag["LL"] = [some, other]
        cl = R.sources if spec["cl"] == "all" else spec["cl"]
        over = dict(dag=dag, nonclassical_intermediate_latents=spec["nil"] + ["LL"],
                    classical_sources=cl + ["cc"], inflation_level_per_source=spec["lev"] + [1])
    elif kind == "party without source":
        dag[some] = dag.get(some, []) + ["Orphan"]
        over = dict(dag=dag, outcomes_per_party=spec["out"] + [2], settings_per_party=spec["set"] + [1],
                    order=None)
    elif kind == "undeclared latent":
        # a node fed by a source that itself feeds a party: then it is a party
        # and needs outcomes
        dag[src].append("LL")
        dag["LL"] = [some]
        over = dict(dag=dag)
    elif kind == "latent without children":
        dag[src].append("LL")
        over = dict(dag=dag, classical_intermediate_latents=spec["cil"] + ["LL"])
    elif kind == "cycle":
        dag.setdefault(some, []).append(other)
        if some != other:
            dag.setdefault(other, []).append(some)
        over = dict(dag=dag)
    elif kind == "long cycle":
        if R.n < 3:
            raise Discard("too few parties")
        for a, b in zip(R.names, R.names[1:] + R.names[:1]):
            if b not in dag.setdefault(a, []):
                dag[a].append(b)
        over = dict(dag=dag)
    elif kind == "nonpositive cardinality":
        key = ["outcomes_per_party", "settings_per_party"][k % 2]
        v = list(spec["out"] if k % 2 == 0 else spec["set"])
        v[k % R.n] = -(k % 3)
        over = {key: v}
    elif kind == "nonpositive level":
        v = [max(2, l) for l in spec["lev"]] + []
        if R.S == 1 and k % 3 == 0:
            k += 1
        v[k % R.S] = -(k % 3)
        over = dict(inflation_level_per_source=v)
        if not any(v):
            raise Discard("all zero means default")
    elif kind == "repeated name in order":
        over = dict(order=R.names + [some])
    try:
        P = build(spec, **over)
    except Exception as e:
        ctx.label(f"{kind}: {type(e).__name__}")
        ctx.nontrivial()
        return
    raise Violation("accepted:", kind, over, "->", repr(P))


BAD = ["no outcomes", "settings length", "outcomes length", "level length",
       "unknown classical source", "bad classical string", "latent of both kinds",
       "visible to latent", "latent to latent", "latent without parent",
       "quantum latent of classical sources", "party without source", "undeclared latent",
       "latent without children", "cycle", "long cycle", "nonpositive cardinality",
       "nonpositive level", "repeated name in order"]

big = scenario(parties=(1, 5), sources=(1, 4), lev_max=3, out_max=4, set_max=3, max_ops=160,
               max_group=10 ** 4)
ints = st.integers(0, 10 ** 4)
PARTS = [
    Part("denotation", st.builds(lambda s, w: dict(spec=s, w=w), big,
                                 st.lists(ints, min_size=1, max_size=5)), run_denote, 3000, 40000),
    Part("wide", st.builds(lambda s, w: dict(spec=s, w=w), wide(),
                           st.lists(ints, min_size=1, max_size=5)), run_denote, 60, 1000),
    Part("equivalent", st.builds(lambda s, k, kind: dict(spec=s, k=k, kind=kind), big, ints,
                                 pick(KINDS)), run_equiv, 3000, 30000),
    Part("rejected", st.builds(lambda s, k, kind: dict(spec=s, k=k, kind=kind),
                               scenario(parties=(1, 4), max_ops=40), ints,
                               pick(BAD)), run_reject, 3000, 20000),
]


def SETUP():
    from ..warm import warm_problem
    warm_problem()
