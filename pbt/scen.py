"""Scenario descriptions (JSON-able "specs"), their generator, and an
independent reference reading of them (class Ref)."""
import itertools
import math
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

ALIKE = ["A", "BA", "AB", "B", "AA", "BAB"]
FANCY = ["Bob", "A10", "Z", "a", "Ab", "C2", "X1", "Eve", "D", "A2", "b7", "Q"]


# --------------------------------------------------------------------------
# generator
# --------------------------------------------------------------------------
@st.composite
def scenario(draw, parties=(1, 4), sources=(1, 3), lev_max=3, out_max=3,
             set_max=2, links=True, latents=True, classical="any",
             max_ops=60, max_group=40, fancy=True, max_maxevents=None,
             mixed_latent_ok=True):
    n = draw(st.integers(*parties))
    S = draw(st.integers(*sources))
    if fancy:
        style = draw(st.integers(0, 5))
    else:
        style = 0
    if style == 5:
        names = draw(st.permutations(ALIKE + ["C", "D"]))[:n] if n <= 8 else FANCY[:n]
    elif style >= 3:
        names = draw(st.permutations(FANCY))[:n]
    elif style == 2:
        names = draw(st.permutations([chr(65 + i) for i in range(n)]))
    else:
        names = [chr(65 + i) for i in range(n)]
    names = list(names)
    order = names if style in (1, 2, 3, 5) else None
    if order is None:
        names = sorted(names)
    snames = [f"h{i + 1}" for i in range(S)]
    if fancy and draw(st.booleans()):
        snames = draw(st.permutations(["U", "lam", "s9", "h12"]))[:S]
    dag = {s: [] for s in snames}
    if classical == "all":
        cl = list(snames)
    elif classical == "none":
        cl = []
    else:
        cl = [s for s in snames if draw(st.integers(0, 2)) == 0]
    for s in snames:
        kids = draw(st.lists(st.sampled_from(names), min_size=0,
                             max_size=min(n, 3), unique=True))
        dag[s] = kids
    cil, nil = [], []
    if latents and draw(st.integers(0, 3)) == 0:
        for q in range(draw(st.integers(1, 2))):
            L = f"F{q}"
            ps = draw(st.lists(st.sampled_from(snames), min_size=1,
                               max_size=2, unique=True))
            ch = draw(st.lists(st.sampled_from(names), min_size=1,
                               max_size=min(3, n), unique=True))
            can_q = any(p not in cl for p in ps)
            isq = can_q and draw(st.booleans())
            if not isq and not mixed_latent_ok and can_q:
                isq = True
            (nil if isq else cil).append(L)
            for p in ps:
                dag[p].append(L)
            dag[L] = list(ch)
    # every party needs a source; every source needs a child
    fed = set()
    for s in snames:
        fed.update(x for x in dag[s] if x in names)
        for L in cil + nil:
            if L in dag[s]:
                fed.update(dag[L])
    for p in names:
        if p not in fed:
            dag[draw(st.sampled_from(snames))].append(p)
    for s in snames:
        if not dag[s]:
            dag[s].append(draw(st.sampled_from(names)))
    # visible-to-visible links
    if links and n > 1 and draw(st.integers(0, 2)) == 0:
        perm = draw(st.permutations(list(range(n))))
        pairs = [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n)]
        for i, j in draw(st.lists(st.sampled_from(pairs), min_size=1,
                                  max_size=3, unique=True)):
            dag.setdefault(names[i], []).append(names[j])
    out = [draw(st.integers(2, out_max)) for _ in range(n)]
    if draw(st.integers(0, 11)) == 0:
        # a measurement can have a single outcome
        out[draw(st.integers(0, n - 1))] = 1
    sett = [draw(st.integers(1, set_max)) for _ in range(n)]
    lev = [draw(st.integers(1, lev_max)) for _ in range(S)]
    keys = list(dag)
    if draw(st.booleans()):
        keys = draw(st.permutations(keys))
    dagl = [[k, list(dag[k])] for k in keys]
    # levels follow the insertion order of the sources in the dag
    spec = dict(dag=dagl, out=out, set=sett, lev=lev,
                cl=("all" if classical == "all" and draw(st.booleans()) else cl),
                cil=cil, nil=nil, order=order)
    return shrink_to_budget(spec, max_ops, max_group, max_maxevents)


@st.composite
def wide(draw):
    """Scenarios with a large cardinality: hundreds of outcomes, of settings or
    of effective settings (beyond the range of a byte), many operators."""
    kind = draw(st.integers(0, 3))
    big = draw(st.one_of(st.sampled_from([9, 10, 11, 99, 100, 101, 127, 128, 129, 254, 255, 256,
                                          257, 258, 299]), st.integers(9, 300)))
    names = ["A", "B"] if draw(st.booleans()) else ["Q7", "Eve"]
    A, B = names
    small = draw(st.integers(1, 2))
    cl = ["s"] if draw(st.integers(0, 2)) == 0 else []
    dag, out, sett, lev = [["s", [A, B]]], [2, 2], [1, 1], [1]
    if kind == 0:
        out = [big, small]
        lev = [2] if big < 140 else [1]
    elif kind == 1:
        out, sett = [2, small], [big, 2]
        lev = [2] if big < 70 else [1]
    elif kind == 2:
        k = draw(st.integers(2, 25))
        out, sett = [k, 2], [1, max(1, big // k)]
        dag = dag + [[A, [B]]]
    else:
        out, sett = [small, max(2, min(big, 60))], [1, 1]
        lev = [draw(st.integers(2, 5))]
    return dict(dag=dag, out=out, set=sett, lev=lev, cl=cl, cil=[], nil=[],
                order=names)


def shrink_to_budget(spec, max_ops, max_group, max_maxevents=None):
    """Lower levels / cardinalities (deterministically) until affordable."""
    spec = dict(spec, out=list(spec["out"]), set=list(spec["set"]),
                lev=list(spec["lev"]), dag=[[k, list(v)] for k, v in spec["dag"]])
    while True:
        R = Ref(spec)
        g = math.prod(math.factorial(l) for l in spec["lev"])
        nops = R.count_ops()
        big = nops > max_ops
        if max_maxevents:
            big = big or R.max_event_bound() > max_maxevents
        if g > max_group or (big and max(spec["lev"]) > 1):
            i = int(np.argmax(spec["lev"]))
            spec["lev"][i] -= 1
            continue
        if not big:
            return spec
        if max(spec["out"]) > 2:
            spec["out"][int(np.argmax(spec["out"]))] -= 1
            continue
        if max(spec["set"]) > 1:
            spec["set"][int(np.argmax(spec["set"]))] -= 1
            continue
        # remove a visible link
        for e in spec["dag"]:
            if e[0] in R.names and e[1]:
                e[1].pop()
                spec["dag"] = [q for q in spec["dag"] if q[1]]
                break
        else:
            return spec


def build(spec, **over):
    from inflation import InflationProblem
    kw = dict(dag={k: list(v) for k, v in spec["dag"]},
              outcomes_per_party=list(spec["out"]),
              settings_per_party=list(spec["set"]),
              inflation_level_per_source=list(spec["lev"]),
              classical_sources=spec["cl"],
              classical_intermediate_latents=list(spec["cil"]),
              nonclassical_intermediate_latents=list(spec["nil"]))
    if spec["order"]:
        kw["order"] = list(spec["order"])
    kw.update(over)
    return InflationProblem(**kw)


# --------------------------------------------------------------------------
# reference reading
# --------------------------------------------------------------------------
class Ref:
    """Independent reading of a scenario: operators, commutation,
    orthogonality, symmetry, factorisation, knowability."""

    def __init__(self, spec):
        self.spec = spec
        dag = {k: list(v) for k, v in spec["dag"]}
        self.dag = dag
        lat = list(spec["cil"]) + list(spec["nil"])
        visible = []
        for v in dag.values():
            for x in v:
                if x not in visible and x not in lat:
                    visible.append(x)
        self.names = list(spec["order"]) if spec["order"] else sorted(visible)
        self.n = len(self.names)
        P = {x: i for i, x in enumerate(self.names)}
        self.sources = [k for k in dag if k not in P and k not in lat]
        self.S = len(self.sources)
        self.lev = list(spec["lev"])
        self.cl = [spec["cl"] == "all" or s in spec["cl"] for s in self.sources]
        self.out, self.priv = list(spec["out"]), list(spec["set"])
        # paths: for party p, list of (source, via) with via None or latent
        self.paths = [[] for _ in range(self.n)]
        for si, s in enumerate(self.sources):
            for ch in dag[s]:
                if ch in P:
                    self.paths[P[ch]].append((si, None))
                else:
                    for d in dag[ch]:
                        self.paths[P[d]].append((si, ch))
        self.fed = [sorted({s for s, _ in pp}) for pp in self.paths]
        self.parents = [sorted(P[k] for k in dag if k in P and self.names[p] in dag[k])
                        for p in range(self.n)]
        self.children = [sorted({P[c] for c in dag.get(self.names[p], [])})
                         for p in range(self.n)]
        self.has_children = [bool(c) for c in self.children]
        self.network = not any(self.has_children)
        self.eff = [list(itertools.product(
            range(self.priv[p]), *[range(self.out[q]) for q in self.parents[p]]))
            for p in range(self.n)]
        self._ops = None

    # ---- operators
    def count_ops(self):
        return sum(math.prod(self.lev[s] for s in self.fed[p])
                   * len(self.eff[p]) * self.out[p] for p in range(self.n))

    def max_event_bound(self, all_outcomes=True):
        """upper bound on the number of jointly measurable events"""
        n = 1
        for p in range(self.n):
            copies = math.prod(self.lev[s] for s in self.fed[p])
            o = self.out[p] - (0 if all_outcomes or self.has_children[p] else 1)
            e = len(self.eff[p])
            if 2 in self.pair_kind[p, p]:
                n *= (1 + e * o) ** copies
            else:
                n *= (1 + o) ** (copies * e)
        return n

    @property
    def ops(self):
        """(party, copies, effective setting index, outcome); copies is a
        tuple over all sources, 0 where the source does not reach."""
        if self._ops is None:
            o = []
            for p in range(self.n):
                rng = [range(1, self.lev[s] + 1) if s in self.fed[p] else (0,)
                       for s in range(self.S)]
                for c in itertools.product(*rng):
                    for x in range(len(self.eff[p])):
                        for a in range(self.out[p]):
                            o.append((p, c, x, a))
            self._ops = o
            self.idx = {q: i for i, q in enumerate(o)}
        return self._ops

    def row(self, i):
        p, c, x, a = self.ops[i]
        return [p + 1, *c, x, a]

    def rows(self, w):
        return np.array([self.row(i) for i in w], dtype=int).reshape(
            len(w), self.S + 3)

    def from_row(self, r):
        r = [int(v) for v in r]
        self.ops
        return self.idx[(r[0] - 1, tuple(r[1:-2]), r[-2], r[-1])]

    # ---- documented spellings
    @property
    def inflated(self):
        return any(l > 1 for l in self.lev)

    def op_name(self, i, copies=None):
        p, c, x, a = self.ops[i]
        st_ = self.eff[p][x]
        nm = self.names[p]
        if self.priv[p] > 1:
            nm += f"_{st_[0]}"
        if self.inflated if copies is None else copies:
            nm += "^{" + ",".join(str(v) for v in c if v) + "}"
            nm += "_" + "_".join(str(v) for v in c)
        nm += f"={a}"
        if self.parents[p]:
            nm += "|do(" + ",".join(f"{self.names[q]}={v}" for q, v in
                                    zip(self.parents[p], st_[1:])) + ")"
        return nm

    def op_legacy(self, i, trivial=None):
        p, c, x, a = self.ops[i]
        s = str(x)
        if trivial and len(self.eff[p]) == 1:
            s = trivial
        return "_".join([self.names[p], *map(str, c), s, str(a)])

    # ---- commutation as documented by the source kinds
    @property
    def pair_kind(self):
        """pair_kind[p][q][s]: 0 not jointly relevant, 1 classical, 2 quantum"""
        if not hasattr(self, "_pk"):
            pk = np.zeros((self.n, self.n, self.S), int)
            for p in range(self.n):
                for q in range(self.n):
                    for (s, via) in self.paths[p]:
                        for (t, via2) in self.paths[q]:
                            if s != t or via != via2:
                                continue
                            if via is None and p != q:
                                continue    # separate subsystems
                            quantum = not self.cl[s] and (
                                via is None or via in self.spec["nil"])
                            pk[p, q, s] = max(pk[p, q, s], 2 if quantum else 1)
            self._pk = pk
        return self._pk

    def _commute(self, o1, o2):
        p, c, x, _ = o1
        q, d, y, _ = o2
        k = self.pair_kind[p, q]
        qs = [s for s in range(self.S) if k[s] == 2]
        al = [s for s in range(self.S) if k[s] >= 1]
        if all(c[s] != d[s] for s in qs):
            return True
        if any(c[s] != d[s] for s in al):
            return False
        return p != q or x == y

    @property
    def comm(self):
        if not hasattr(self, "_comm"):
            o = self.ops
            m = len(o)
            C = np.ones((m, m), bool)
            for i in range(m):
                for j in range(i):
                    C[i, j] = C[j, i] = self._commute(o[i], o[j])
            self._comm = C
        return self._comm

    def ortho(self, i, j):
        a, b = self.ops[i], self.ops[j]
        return a[:3] == b[:3] and a[3] != b[3]

    # ---- words
    def reduce(self, w):
        """Trace-monoid reduction; None if the product vanishes."""
        C = self.comm
        out = []
        for a in w:
            drop = False
            for b in reversed(out):
                if a == b:
                    drop = True
                    break
                if self.ortho(a, b):
                    return None
                if not C[a, b]:
                    break
            if not drop:
                out.append(a)
        return out

    def foata(self, w):
        """Foata normal form of a reduced word (tuple of sorted tuples)."""
        C = self.comm
        lev = []
        for k, a in enumerate(w):
            lv = 0
            for m in range(k):
                if not C[a, w[m]] or a == w[m]:
                    lv = max(lv, lev[m] + 1)
            lev.append(lv)
        if not w:
            return ()
        return tuple(tuple(sorted(a for a, l in zip(w, lev) if l == v))
                     for v in range(max(lev) + 1))

    def key(self, w):
        r = self.reduce(w)
        return None if r is None else self.foata(r)

    # ---- symmetry
    @property
    def perms(self):
        if not hasattr(self, "_perms"):
            o = self.ops
            res = []
            for ps in itertools.product(*[list(itertools.permutations(range(1, l + 1)))
                                          for l in self.lev]):
                img = np.empty(len(o), int)
                for i, (p, c, x, a) in enumerate(o):
                    d = tuple(0 if v == 0 else ps[s][v - 1] for s, v in enumerate(c))
                    img[i] = self.idx[(p, d, x, a)]
                res.append(img)
            self._perms = res
        return self._perms

    # ---- factorisation
    def factors(self, w):
        """list of sub-words (order kept) that share no source copy."""
        parent = list(range(len(w)))

        def find(i):
            while parent[i] != i:
                i = parent[i]
            return i
        seen = {}
        for k, a in enumerate(w):
            for s, v in enumerate(self.ops[a][1]):
                if v:
                    if (s, v) in seen:
                        parent[find(k)] = find(seen[(s, v)])
                    else:
                        seen[(s, v)] = k
        groups = {}
        for k, a in enumerate(w):
            groups.setdefault(find(k), []).append(a)
        return list(groups.values())

    def rep(self, w, conj=True):
        """orbit key of an independent part."""
        k = tuple(self.reduce(w))
        memo = self.__dict__.setdefault("_repmemo", {})
        fk = (self.foata(k), conj)
        if fk in memo:
            return memo[fk]
        best = None
        for g in self.perms:
            img = [g[i] for i in k]
            for v in ((img, img[::-1]) if conj else (img,)):
                q = self.foata(v)
                if best is None or q < best:
                    best = q
        memo[fk] = best
        return best

    def moment_key(self, w, conj=True, factor=True):
        """0 / () / sorted tuple of orbit keys."""
        r = self.reduce(w)
        if r is None:
            return 0
        if not r:
            return ()
        fs = self.factors(r) if factor else [r]
        return tuple(sorted(self.rep(f, conj) for f in fs))

    # ---- knowability of an independent part
    def knowable(self, w):
        """Is the (independent, reduced, commuting) set of operators an
        observable event of the original scenario?"""
        w = self.reduce(w)
        if w is None:
            return False
        C = self.comm
        if any(not C[a, b] for a in w for b in w):
            return False
        ps = [self.ops[a][0] for a in w]
        if len(set(ps)) < len(ps):
            return False
        for s in range(self.S):
            vals = {self.ops[a][1][s] for a in w} - {0}
            if len(vals) > 1:
                return False
        val = {self.ops[a][0]: self.ops[a][3] for a in w}
        for a in w:
            p, _, x, _ = self.ops[a]
            st_ = self.eff[p][x]
            for q, v in zip(self.parents[p], st_[1:]):
                if val.get(q) != v:
                    return False
        return True

    def event_prob(self, w, prob):
        """probability of a knowable part from p[a..., x...]: sum over the
        other parties; private settings of absent parties are immaterial
        (no-signalling), 0 is used."""
        a = [slice(None)] * self.n
        x = [0] * self.n
        for i in w:
            p, _, s, o = self.ops[i]
            a[p] = o
            x[p] = self.eff[p][s][0]
        return float(prob[tuple(a) + tuple(x)].sum())
