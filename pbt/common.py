"""Helpers shared by the check modules."""
import itertools
import zlib
import numpy as np
from hypothesis import strategies as st
from .runner import Violation, Discard, check
from .scen import Ref, build, scenario
from .models import ClassicalModel, QuantumModel

BIG = 10 ** 6


def pick(options):
    """an even choice (sampled_from is biased towards the first options)"""
    options = list(options)
    return st.integers(0, 2 ** 30).map(
        lambda x: options[zlib.crc32(str(x).encode()) % len(options)])


def mixed_int(n):
    """an evenly spread integer below n"""
    return st.integers(0, 2 ** 30).map(lambda x: zlib.crc32(str(x).encode()) % n)


@st.composite
def with_words(draw, scen, nwords=1, length=(0, 7), pool=(1, 6), moves=0,
               clustered=True):
    """A scenario with words over a small pool of its operators.  A clustered
    pool takes operators near one another in the operator list, so that equal
    measurements, equal copies and equal parties are frequent."""
    spec = draw(scen)
    n = len(Ref(spec).ops)
    k = draw(st.integers(*pool))
    mode = draw(st.integers(0, 2)) if clustered else 0
    if mode == 1:
        base = draw(st.integers(0, n - 1))
        P = [(base + draw(st.integers(0, 5))) % n for _ in range(k)]
    else:
        P = [draw(st.integers(0, n - 1)) for _ in range(k)]
    ws = [[P[i] for i in draw(st.lists(st.integers(0, k - 1), min_size=length[0],
                                       max_size=length[1]))]
          for _ in range(nwords)]
    case = dict(spec=spec, words=ws)
    if moves:
        case["moves"] = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 30)),
                                      max_size=moves).map(lambda l: [list(t) for t in l]))
    return case


def rewrite(R, w, moves):
    """Apply commutations / duplications / merges: an equal product."""
    w = list(w)
    C = R.comm
    for kind, pos in moves:
        if kind == 0 and len(w) > 1:
            i = pos % (len(w) - 1)
            if C[w[i], w[i + 1]]:
                w[i], w[i + 1] = w[i + 1], w[i]
        elif kind == 1 and w and len(w) < 12:
            i = pos % len(w)
            w.insert(i, w[i])
        elif kind == 2 and len(w) > 1:
            i = pos % (len(w) - 1)
            if w[i] == w[i + 1]:
                del w[i]
    return w


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def quantum_model(R, seed, max_bits=13, nv=2):
    m = QuantumModel(R, seed, nv=nv)
    if m.bits > max_bits:
        m = QuantumModel(R, seed, nv=1)
    if m.bits > max_bits:
        raise Discard("model too large")
    return m


def classical_latent_commutation():
    """Known defect: a classical intermediate latent that measures two quantum
    sources jointly; its copies sharing one source copy do not commute."""
    spec = dict(dag=[["s1", ["L", "B"]], ["s2", ["L", "C"]], ["L", ["A"]]], out=[2, 2, 2],
                set=[1, 1, 1], lev=[1, 2], cl=[], cil=["L"], nil=[], order=None)
    P = build(spec)
    R = Ref(spec)
    i, j = R.idx[(0, (1, 1), 0, 0)] if R.ops else 0, R.idx[(0, (1, 2), 0, 0)]
    # L measures the half of s1 and the half of s2 in a basis with a Bell state
    bell = np.array([1, 0, 0, 1]) / 2 ** .5
    B = np.outer(bell, bell).reshape(2, 2, 2, 2)
    I = np.eye(2)
    X = np.einsum("abcd,ef->abecdf", B, I).reshape(8, 8)      # copies 1,1
    Y = np.einsum("abcd,ef->aebcfd", B, I).reshape(8, 8)      # copies 1,2
    D = np.asarray(P._default_notcomm, bool)
    check(np.abs(X @ Y - Y @ X).max() < 1e-9 or D[i, j],
          "measurements of A on copies (1,1) and (1,2) are declared commuting; with a Bell "
          "measurement at the classical latent L they are not")
