"""Generating sets for cases: documented specifications, trimmed to a budget."""
import itertools
import numpy as np
from hypothesis import strategies as st
from .common import pick, mixed_int


def colspec():
    return st.fixed_dictionaries(dict(
        kind=pick(["npa1", "npa2", "npa3", "local1", "local2", "physical1", "physical2",
                   "physical", "blocks", "words"]),
        maxlen=pick([0, 0, 2, 3]),
        blocks=st.lists(st.lists(mixed_int(8), max_size=3), min_size=1, max_size=4),
        words=st.lists(st.lists(mixed_int(997), min_size=1, max_size=6), max_size=9),
        pick=mixed_int(1000)))


def wordspec(lo, hi, many=7):
    """a few words of a few operators"""
    return st.fixed_dictionaries(dict(
        kind=st.just("words"), maxlen=st.just(0), blocks=st.just([[]]), pick=mixed_int(1000),
        pool=st.lists(mixed_int(9973), min_size=2, max_size=4),
        words=st.lists(st.integers(lo, hi).flatmap(
            lambda k: st.lists(mixed_int(997), min_size=k, max_size=k)),
            min_size=3, max_size=many)))


def conjspec():
    """products of parts that do not commute, next to relabelled and reversed ones"""
    return st.fixed_dictionaries(dict(
        kind=st.just("conjugates"), maxlen=st.just(0), blocks=st.just([[]]),
        pick=mixed_int(1000), words=st.just([]), seed=st.integers(0, 9999)))


def conjugates(R, c):
    """indices of operators x, y that do not commute; their relabellings that share
    no copy with them -> words"""
    rng = np.random.default_rng(c["seed"])
    n = len(R.ops)
    pairs = [(i, j) for i in range(n) for j in range(n) if not R.comm[i, j]]
    if not pairs:
        return []
    x, y = pairs[rng.integers(len(pairs))]
    far = [g for g in R.perms if len(R.factors([x, y, g[x], g[y]])) > len(R.factors([x, y]))]
    if not far:
        return [[x], [y], [x, y]]
    g = far[rng.integers(len(far))]
    gx, gy = int(g[x]), int(g[y])
    ws = [[x], [y], [x, gy], [y, gx], [x, gx], [y, gy], [x, y], [gy, gx], [x, y, gx]]
    return ws[:2] + [ws[i] for i in rng.permutation(np.arange(2, len(ws)))[:5]]


def choose(sdp, R, c, limit=30):
    """a specification accepted by generate_relaxation with at most `limit`
    columns, starting with the identity; and a label"""
    kind = c["kind"]
    if kind in ("words", "conjugates"):
        n = len(R.ops)
        cols, seen = [[]], {()}
        base = c["pick"] % n
        for w in c["words"] if kind == "words" else conjugates(R, c):
            if "pool" in c:
                w = [c["pool"][i % len(c["pool"])] % n for i in w]
            elif kind == "words":
                w = [(base + i % 6) % n for i in w]
            r = R.reduce(w)
            if r and R.foata(r) not in seen:
                seen.add(R.foata(r))
                cols.append([int(v) - 1 for v in sdp._to_canonical_memoized_1d(
                    np.array(r, dtype=np.intc) + 1)])
        if len(cols) > 1:
            return [np.array(w, dtype=int) + 1 for w in cols[:limit]], kind
        kind = "npa1"
    n = len(R.ops)
    if kind == "blocks":
        bs = [[]] + [[p % R.n for p in b] for b in c["blocks"] if b]
        bs = [b if n ** len(b) < 5000 else b[:1] for b in bs]
        spec = bs
    else:
        spec = kind
        if kind == "npa3" and n ** 3 > 9000:
            spec = kind = "npa2"
        if kind == "local2" and n ** min(2 * R.n, c["maxlen"] or 99) > 9000:
            spec = kind = "local1"
        if kind == "local1" and R.n > 2 and n ** 3 > 20000:
            spec = kind = "npa2"
        if kind == "npa2" and n > 90:
            spec = kind = "npa1"
        if kind.startswith("physical") and R.max_event_bound(False) > 4000:
            spec = kind = "npa1"
    maxlen = c["maxlen"] if isinstance(spec, str) else 0
    cols = [[int(v) for v in w] for w in sdp.build_columns(spec, max_monomial_length=maxlen)]
    if len(cols) <= limit:
        if maxlen:
            return [np.array(w, dtype=int) for w in cols], kind + f" cap {maxlen}"
        return spec, kind
    rng = np.random.default_rng(c["pick"])
    if c["pick"] % 2:          # whole orbits: the set stays closed under the symmetries
        keys, orbit = {R.foata(R.reduce([v - 1 for v in w])): i for i, w in enumerate(cols)}, {}
        keep = [0]
        for i in rng.permutation(len(cols)):
            if i in keep:
                continue
            orb = {keys.get(R.foata([int(g[v - 1]) for v in cols[i]])) for g in R.perms}
            if None not in orb and len(set(keep) | orb) <= limit:
                keep = sorted(set(keep) | orb)
            if len(keep) > limit - 2:
                break
        if len(keep) > 1:
            return [np.array(cols[i], dtype=int) for i in keep], kind + " orbits"
    keep = sorted(rng.choice(np.arange(1, len(cols)), limit - 1, replace=False))
    return [np.array(cols[i], dtype=int) for i in [0, *keep]], kind + " trimmed"
