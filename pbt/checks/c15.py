"""C15 exported files describe the program held in memory."""
import os
import re
import tempfile
import warnings
import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog
from hypothesis import strategies as st
from ..runner import Part, check, Discard
from ..scen import scenario, Ref, build
from ..common import pick, mixed_int
from ..cols import colspec
from .. import settings as S
from .c08 import behaviour

ID = "C15"
RULE = ("non-trivial: the file contains fixed values or bounds, and an objective or user constraints "
        "with coefficients that are not integers")


# settings ----------------------------------------------------------------------
def configure(case, prog, kind, ctx):
    R = Ref(case["spec"])
    moments = [m for m in (prog.moments if kind == "sdp" else prog.monomials) if not m.is_zero]
    non1 = [m for m in moments if not m.is_one]
    if not non1 or len(moments) > 150:
        raise Discard("size")

    def poly(ts):
        d = {}
        for k, v, f in ts:
            m = moments[k % len(moments)]
            d[m] = d.get(m, 0) + v / 7
        return d

    def bounds(ts, lo):
        return {non1[k % len(non1)]: (v / 21 if lo else 1 + v / 21) for k, v, f in ts}
    calls = []
    if case["obj"] and not case["opts"].get("supports_problem"):
        o = poly(case["obj"])
        if case["sym"]:
            o = S.polysym(moments, case["obj"], 7)
        calls.append(("objective", lambda: prog.set_objective(o, "min" if case["min"] else "max")))
    for b in ("up", "lo"):
        if case[b]:
            calls.append((b + " bounds", lambda b=b: prog.set_bounds(bounds(case[b], b == "lo"), b)))
    if case["eq"]:
        calls.append(("equalities", lambda: prog.set_extra_equalities([poly(r) for r in case["eq"]])))
    if case["ineq"]:
        calls.append(("inequalities",
                      lambda: prog.set_extra_inequalities([poly(r) for r in case["ineq"]])))
    if case["vals"] == "dist":
        d = behaviour(R, dict(case, sparse=case["seed"] % 3 == 0))
        calls.append(("distribution", lambda: prog.set_distribution(
            d, use_lpi_constraints=case["lpi"])))
    elif case["vals"]:
        atoms = [m for m in non1 if m.n_factors == 1] or non1
        d = {atoms[k % len(atoms)]: v / 14 if kind == "sdp" else abs(v) / 14
             for k, v, f in case["vals"]}
        calls.append(("values", lambda: prog.set_values(d, use_lpi_constraints=case["lpi"])))
    done = 0
    for i in sorted(range(len(calls)), key=lambda i: case["order"][i % len(case["order"])]):
        try:
            calls[i][1]()
        except AssertionError:
            continue
        done += 1
        ctx.label(calls[i][0])
    if prog.semiknown_moments:
        ctx.label("proportional moments")
    ctx.nontrivial(done > 1 and bool(case["vals"] or case["up"] or case["lo"])
                   and bool(case["obj"] or case["eq"] or case["ineq"]))


# LP and MPS files -----------------------------------------------------------------
class Lin:
    """max c.x + offset, rl <= A x <= ru, lo <= x <= up"""

    def __init__(self, names, c, offset, lo, up, A, rl, ru):
        self.names, self.c, self.offset = list(names), np.array(c, float), offset
        self.lo, self.up = np.array(lo, float), np.array(up, float)
        self.A, self.rl, self.ru = A, np.array(rl, float), np.array(ru, float)

    def solve(self, c, box=None, elastic=False):
        if not len(self.names):          # (nothing left but constants)
            return ("optimal", 0.) if (self.rl <= 1e-9).all() and (self.ru >= -1e-9).all() \
                else ("infeasible", np.inf)
        n = len(self.names)
        lo, up = self.lo.copy(), self.up.copy()
        if box:
            lo, up = np.maximum(lo, -box), np.minimum(up, box)
        if (lo > up + 1e-9).any():
            return "infeasible", (lo - up).max() if elastic else None
        up = np.maximum(lo, up)
        A = self.A.toarray() if sp.issparse(self.A) else self.A
        fu, fl = np.isfinite(self.ru), np.isfinite(self.rl)
        Au, bu = np.vstack([A[fu], -A[fl]]), np.concatenate([self.ru[fu], -self.rl[fl]])
        b = list(zip(np.where(np.isfinite(lo), lo, -np.inf), np.where(np.isfinite(up), up, np.inf)))
        if elastic:
            Au = np.hstack([Au, -np.ones((len(Au), 1))])
            r = linprog([0] * n + [1], Au, bu, bounds=b + [(0, None)], method="highs")
            return "optimal", r.fun
        r = linprog(-np.asarray(c), Au if len(Au) else None, bu if len(Au) else None, bounds=b,
                    method="highs")
        return {0: "optimal", 2: "infeasible", 3: "unbounded"}.get(r.status, "other"), \
            -r.fun if r.status == 0 else None


def read_mosek(f):
    import mosek
    with mosek.Task() as t:
        t.readdata(f)
        n, m = t.getnumvar(), t.getnumcon()
        A = np.zeros((m, n))
        rl, ru, lo, up = [-np.inf] * m, [np.inf] * m, [-np.inf] * n, [np.inf] * n
        bk = mosek.boundkey

        def b(k, x, y):
            return (x if k in (bk.lo, bk.ra, bk.fx) else -np.inf,
                    y if k in (bk.up, bk.ra, bk.fx) else np.inf)
        for i in range(m):
            _, idx, v = t.getarow(i)
            A[i, list(idx)] = list(v)
            rl[i], ru[i] = b(*t.getconbound(i))
        for i in range(n):
            lo[i], up[i] = b(*t.getvarbound(i))
        s = 1 if t.getobjsense() == mosek.objsense.maximize else -1
        return Lin([t.getvarname(i) for i in range(n)], s * np.array(t.getclist(list(range(n)))),
                   s * t.getcfix(), lo, up, A, rl, ru)


def read_highs(f):
    import scipy.optimize._highspy._core as core
    h = core._Highs()
    h.setOptionValue("output_flag", False)
    r = h.readModel(f)
    check(str(r).split(".")[-1] in ("kOk", "kWarning"), "HiGHS cannot read the file:", r)
    p = h.getLp()
    fm = str(p.a_matrix_.format_)
    args = (np.array(list(p.a_matrix_.value_)), np.array(list(p.a_matrix_.index_), int),
            np.array(list(p.a_matrix_.start_), int))
    shape = (int(p.num_row_), int(p.num_col_))
    A = (sp.csc_array if "Col" in fm else sp.csr_array)(args, shape=shape).toarray()
    s = 1 if "Max" in str(p.sense_) else -1
    return Lin(list(p.col_names_), s * np.array(list(p.col_cost_)), s * p.offset_,
               list(p.col_lower_), list(p.col_upper_), A, list(p.row_lower_), list(p.row_upper_))


def held(lp):
    """the program held by an InflationLP, from its public attributes"""
    nm = {m: i for i, m in enumerate(lp.monomials)}
    n = len(nm)
    rows, rl, ru = [], [], []

    def add(d, lo, up):
        r = np.zeros(n)
        for m, v in d.items():
            r[nm[m]] += v
        rows.append(r)
        rl.append(lo)
        ru.append(up)
    for d in lp.moment_equalities:
        add(d, 0, 0)
    for d in lp.moment_inequalities:
        add(d, 0, np.inf)
    for m, (c, u) in lp.semiknown_moments.items():
        add({m: 1} if u == m else {m: 1, u: -c}, 0, 0)
    lo, up = np.full(n, 0. if lp.default_non_negative else -np.inf), np.full(n, np.inf)
    for m, v in lp.moment_lowerbounds.items():
        lo[nm[m]] = max(lo[nm[m]], v)
    for m, v in lp.moment_upperbounds.items():
        up[nm[m]] = min(up[nm[m]], v)
    for m, v in lp.known_moments.items():
        add({m: 1}, v, v)
    c = np.zeros(n)
    for m, v in lp.objective.items():
        c[nm[m]] += v
    return Lin(["x%d" % i for i in range(n)], c, 0, lo, up, np.array(rows).reshape(-1, n), rl, ru)


def agree(P, Q, c, d, box, *what):
    """the two programs have the same optimum for objectives c (P) and d (Q)"""
    s1, v1 = P.solve(c[0], box)
    s2, v2 = Q.solve(d[0], box)
    if "other" in (s1, s2):
        raise Discard("solver")
    if {s1, s2} == {"unbounded", "infeasible"}:
        s1, s2 = P.solve(0 * c[0], box)[0], Q.solve(0 * d[0], box)[0]
        v1 = v2 = None
    if s1 != s2 and "infeasible" in (s1, s2):
        bad = P if s1 == "infeasible" else Q
        e = bad.solve(c[0], box, True)[1]
        if e is None or e < 1e-5:
            raise Discard("ill-posed")
    check(s1 == s2, *what, "the program is", s1, "but that in the file is", s2)
    if v1 is not None:
        v1, v2 = v1 + c[1], v2 + d[1]
        check(abs(v1 - v2) < 1e-6 * (1 + abs(v1)), *what, "the optimum is", v1,
              "but that of the file is", v2)
    return s1


def run_lp(case, ctx):
    prog = S.make(case, "lp")[0]
    configure(case, prog, "lp", ctx)
    want = held(prog)
    rng = np.random.default_rng(case["seed"])
    with tempfile.TemporaryDirectory(prefix="c15") as tmp:
        for ext in ("lp", "mps"):
            f = os.path.join(tmp, "prog." + ext)
            prog.write_to_file(f)
            text = open(f).read()
            P = []
            for name, reader in (("Mosek", read_mosek), ("HiGHS", read_highs)):
                try:
                    P.append((name, reader(f)))
                except Exception as e:
                    if type(e).__name__ == "Violation":
                        raise
                    check(False, name, "cannot read the", ext, "file:", type(e).__name__, str(e)[:200],
                          text[:3000])
            for name, q in P:
                what = (ext, "file read by", name, ":")
                s = agree(want, q, (want.c, 0), (q.c, q.offset), None, *what)
                ctx.label(ext + " " + s)
                if not all(re.fullmatch(r"x\d+|one", x) for x in q.names):
                    continue        # (the names of the variables are not part of the format)
                pos = {x: i for i, x in enumerate(q.names)}
                free = [i for i, x in enumerate(want.names) if x in pos]
                if s == "infeasible" or not free:
                    continue
                for _ in range(3):
                    c, d = np.zeros(len(want.names)), np.zeros(len(q.names))
                    for i in rng.choice(free, min(len(free), 6), replace=False):
                        c[i] = rng.normal()
                        d[pos[want.names[i]]] = c[i]
                    # objectives over everything the file mentions, in a box
                    agree(want, q, (c, 0), (d, 0), 20, *what, "with objective", dict(
                        (prog.monomials[i].name, round(c[i], 3)) for i in np.flatnonzero(c)), ":")
                # what the file does not mention is unconstrained
                for i, x in enumerate(want.names):
                    m = prog.monomials[i]
                    if x not in pos and m not in prog.known_moments:
                        check(not want.A[:, i].any() and not want.c[i], ext, "file:", m.name,
                              "does not appear in the file")
                        check(want.lo[i] <= want.up[i], ext, "file:", m.name, "has empty range")


# SDP files ------------------------------------------------------------------------
class Sdp:
    """the program held by an InflationSDP: affine functions {variable: coefficient, '': constant}"""

    def __init__(self, p):
        self.p = p

    def moment(self, m):
        c = 1.
        known, semi = self.p.known_moments, self.p.semiknown_moments
        while m in semi and m not in known:
            c, m = c * semi[m][0], semi[m][1]
        if m in known:
            return {"": c * known[m]}
        return {m.name: c}

    def affine(self, d, const=0.):
        r = {"": const}
        for m, v in d.items():
            for k, w in self.moment(m).items():
                r[k] = r.get(k, 0) + float(v) * w
        return r

    def rows(self):
        p = self.p
        out = []
        for d in p.moment_equalities:
            r = self.affine(d)
            out += [("equality", r), ("equality", {k: -v for k, v in r.items()})]
        out += [("inequality", self.affine(d)) for d in p.moment_inequalities]
        out += [("lower bound", self.affine({m: 1}, -float(v)))
                for m, v in p.moment_lowerbounds.items()]
        out += [("upper bound", self.affine({m: -1}, float(v)))
                for m, v in p.moment_upperbounds.items()]
        return out


def normal(r, tol=1e-9):
    """(constant, {variable: coefficient}) up to a positive factor; None if always true"""
    v = {k: x for k, x in r.items() if k != "" and abs(x) > tol}
    c = r.get("", 0.)
    if not v:
        return None if c > -1e-7 else (-1., {})
    s = max(abs(x) for x in v.values())
    return c / s, {k: x / s for k, x in v.items()}


def same_row(a, b, tol=1e-7):
    return a[1].keys() == b[1].keys() and abs(a[0] - b[0]) <= tol * (1 + abs(a[0])) and \
        all(abs(v - b[1][k]) <= tol for k, v in a[1].items())


def compare_rows(want, got, *what):
    """want: [(label, affine)], got: [affine]"""
    W = [(l, normal(r)) for l, r in want]
    G = [normal(r) for r in got]
    G = [g for g in G if g]
    index = {}
    for g in G:
        index.setdefault(frozenset(g[1]), []).append(g)
    windex = {}
    for l, w in W:
        if w:
            check(any(same_row(w, g) for g in index.get(frozenset(w[1]), [])), *what, "the", l, w,
                  "is missing")
            windex.setdefault(frozenset(w[1]), []).append(w)
    for g in G:
        check(any(same_row(w, g) for w in windex.get(frozenset(g[1]), [])), *what,
              "has an additional constraint", g)


def read_sdpa(f):
    L = [x.strip() for x in open(f) if x.strip() and x.strip()[0] not in '"*']
    m = int(re.split(r"[ =]", L[0])[0])
    nb = int(re.split(r"[ =]", L[1])[0])
    blocks = [int(x) for x in re.findall(r"[-+]?\d+", L[2].split("=")[0])]
    check(len(blocks) == nb, "dat-s file:", nb, "blocks with sizes", blocks)
    check(all(blocks), "dat-s file: empty block in", blocks)
    k = 3
    c = [float(x) for x in re.findall(r"[^\s,{}()]+", L[k])] if m else []
    if m or not re.match(r"\d+\s+\d+\s+\d+\s+\d+\s", L[k]):
        k += 1
    check(len(c) == m, "dat-s file:", m, "variables but", len(c), "objective coefficients")
    F = {}
    for x in L[k:]:
        q = x.split()
        check(len(q) == 5, "dat-s file: malformed line", x)
        v, b, i, j = map(int, q[:4])
        try:
            val = float(q[4])
        except ValueError:
            check(False, "dat-s file: malformed number in", x)
        check(0 <= v <= m and 1 <= b <= nb and 1 <= i <= j <= abs(blocks[b - 1]),
              "dat-s file: entry out of range", x, "blocks", blocks, "variables", m)
        check(blocks[b - 1] > 0 or i == j, "dat-s file: off-diagonal entry in diagonal block", x)
        check((v, b, i, j) not in F, "dat-s file: repeated entry", x)
        F[v, b, i, j] = val
    return m, blocks, np.array(c), F


def run_sdpa(prog, f, ctx):
    P = Sdp(prog)
    m, blocks, c, F = read_sdpa(f)
    cell = {}
    for (v, b, i, j), x in F.items():
        cell.setdefault((b, i, j), {})[v] = x if v else -x
    n = len(prog.momentmatrix)
    check(blocks[0] == n, "dat-s file: moment matrix of size", blocks[0], "instead of", n)
    var, back = {}, {}
    for i in range(n):
        for j in range(i, n):
            w = P.moment(prog.compmoment_from_idx[int(prog.momentmatrix[i, j])])
            g = cell.pop((1, i + 1, j + 1), {})
            for k, x in w.items():
                if k == "":
                    check(abs(g.get(0, 0) - x) < 1e-9 and not any(v for k2, v in g.items() if k2),
                          "dat-s file: cell", (i, j), "is", g, "instead of the constant", x)
                else:
                    vs = [q for q in g if q]
                    check(len(vs) == 1 and abs(g[vs[0]] - x) < 1e-9 and not g.get(0, 0),
                          "dat-s file: cell", (i, j), "is", g, "instead of", w)
                    check(var.setdefault(k, vs[0]) == vs[0] and back.setdefault(vs[0], k) == k,
                          "dat-s file: moments are mixed up in cell", (i, j), w, g)
    got = []
    for b in range(2, len(blocks) + 1):
        check(blocks[b - 1] < 0, "dat-s file: unexpected block", blocks[b - 1])
        for i in range(1, -blocks[b - 1] + 1):
            g = cell.pop((b, i, i), {})
            # (moments outside the matrix have no cell to tell their number)
            got.append({back.get(k, ("?", k)) if k else "": x for k, x in g.items()})
    check(not cell, "dat-s file: unexplained entries", cell)
    want = P.rows()
    out = {k for _, r in want for k in r if k and k not in var}
    out |= {k for k in P.affine(prog.objective) if k and k not in var}
    check(out or not any(isinstance(k, tuple) for r in got for k in r),
          "dat-s file: variables that are not in the matrix")
    if out:
        ctx.label("moments outside the matrix")
        if len(out) > 1:
            return
        new = {k for r in got for k in r if isinstance(k, tuple)}
        check(len(new) <= 1, "dat-s file: too many variables", new)
        name = next(iter(out))
        for k in new:
            var[name] = k[1]
        got = [{name if isinstance(k, tuple) else k: x for k, x in r.items()} for r in got]
    compare_rows(want, got, "dat-s file:")
    o = P.affine(prog.objective)
    v = np.zeros(m)
    for k, x in o.items():
        if k and x:
            check(k in var, "dat-s file: objective without", k)
            v[var[k] - 1] += x
    check(np.allclose(v, c, atol=1e-9), "dat-s file: objective", c, "instead of", v)


def run_mat(prog, f):
    from scipy.io import loadmat
    d = loadmat(f)
    off = None
    M = d["momentmatrix"]
    name = {int(np.ravel(r[0])[0]): str(np.ravel(r[1])[0]) for r in d["moments_idx2name"]}
    byidx = {m.idx: m for m in prog.moments}
    check(len(name) == len(prog.moments), "mat file: names", name)
    check(M.shape == prog.momentmatrix.shape, "mat file: size", M.shape)
    for i in range(len(M)):
        for j in range(len(M)):
            w = prog.compmoment_from_idx[int(prog.momentmatrix[i, j])].name
            check(name.get(int(M[i, j])) == w, "mat file: cell", (i, j), "is", name.get(int(M[i, j])),
                  "instead of", w)
            off = int(M[i, j]) - int(prog.momentmatrix[i, j])
    check((np.asarray(M) >= 1).all(), "mat file: indices start at", np.min(M))
    for u in prog.semiknown_moments.values():
        if u[1].idx not in byidx:
            name.setdefault(u[1].idx + off, u[1].name)

    def table(k):
        a = np.asarray(d[k], dtype=float)
        return {name.get(int(r[0])): float(r[1]) for r in a.reshape(-1, a.shape[-1])} if a.size else {}

    def eq(got, want, what):
        got, want = ({k: v for k, v in x.items() if abs(v) > 1e-8 or what != "objective"}
                     for x in (got, want))
        bad = [k for k in set(got) | set(want) if k not in got or k not in want
               or abs(got[k] - want[k]) > 1e-9]
        check(not bad, "mat file:", what, [(k, got.get(k), want.get(k)) for k in bad[:4]],
              "(file / program)")

    def nm(x):
        return {m.name: float(v) for m, v in x.items()}
    eq(table("objective"), nm(prog.objective), "objective")
    eq(table("known_moments"), nm(prog.known_moments), "known moments")
    eq(table("moment_lowerbounds"), nm(prog.moment_lowerbounds), "lower bounds")
    eq(table("moment_upperbounds"), nm(prog.moment_upperbounds), "upper bounds")
    a = np.asarray(d["semiknown_moments"], dtype=float)
    got = {name.get(int(r[0])): (float(r[1]), name.get(int(r[2]))) for r in a.reshape(-1, 3)} \
        if a.size else {}
    want = {m.name: (float(c), u.name) for m, (c, u) in prog.semiknown_moments.items()}
    check(got.keys() == want.keys() and all(
        got[k][1] == v[1] and abs(got[k][0] - v[0]) < 1e-9 for k, v in want.items()),
        "mat file: semiknown moments", got, "instead of", want)
    for k, rows in (("moment_equalities", prog.moment_equalities),
                    ("moment_inequalities", prog.moment_inequalities)):
        got = []
        for e in np.ravel(d[k]):
            if not hasattr(e, "dtype") or e.dtype.names is None:
                continue
            e = e.ravel()[0] if getattr(e, "ndim", 0) else e
            got.append(dict(zip((name.get(int(i)) for i in np.ravel(e["moments"])),
                                (float(x) for x in np.ravel(e["coeffs"])))))
        want = [nm(r) for r in rows]
        check(len(got) == len(want), "mat file:", k, len(got), "instead of", len(want))

        def key(r):
            return sorted((str(q), round(v, 8)) for q, v in r.items())
        check(sorted(map(key, got)) == sorted(map(key, want)), "mat file:", k,
              [r for r in got if r not in want][:3], "instead of", [r for r in want if r not in got][:3])


NUM = r"(?:\d+\.?\d*(?:e[-+]?\d+)?|\.\d+)"


def text_poly(s, names):
    """'0.5*P[A=0]-P[B=0]+1' -> {name: coefficient, '': constant}"""
    out, s = {}, s.strip()
    if not s:
        return out
    pos = 0
    while pos < len(s):
        m = re.compile(r"\s*([-+]?)\s*(?:(%s)\s*(\*\s*)?)?" % NUM, re.I).match(s, pos)
        q = m.end()
        v = (-1 if m.group(1) == "-" else 1) * (float(m.group(2)) if m.group(2) else 1.)
        if m.group(2) and not m.group(3):
            out[""] = out.get("", 0) + v
        elif re.match(r"0(?![\d.])", s[q:]):        # (the zero moment)
            q += 1
        else:
            cand = [k for k in names if s.startswith(k, q)]
            check(cand, "csv file: cannot read", s[q:], "in", s)
            k = max(cand, key=len)
            out[names[k]] = out.get(names[k], 0) + v
            q += len(k)
        check(q > pos, "csv file: cannot read", s)
        pos = q
    return out


def run_csv(prog, f):
    P = Sdp(prog)
    T = open(f).read().split("\n")
    mons = list(prog.moments) + [u for _, u in prog.semiknown_moments.values()]
    names, full = {}, {}
    for m in mons:
        semi = m.name.replace(", ", ";").replace(",", ";")
        for v in (m.name, m.name.replace(" ", ""), semi, semi.replace(" ", "")):
            if v not in ("0", "1"):
                check(names.setdefault(v, m.name) == m.name, "csv file: ambiguous names", v)

    def same(got, want, what, tol=1e-9):
        ks = set(got) | set(want)
        bad = [k for k in ks if abs(got.get(k, 0) - want.get(k, 0)) > tol]
        check(not bad, "csv file:", what, "is", {k: got.get(k, 0) for k in bad}, "instead of",
              {k: want.get(k, 0) for k in bad})

    def raw(d):
        r = {}
        for m, v in d.items():
            if m.is_zero:
                continue
            k = "" if m.is_one else m.name
            r[k] = r.get(k, 0) + float(v)
        return r
    check(T[0].startswith("Objective:"), "csv file: first line", T[0])
    same(text_poly(T[0][10:], names), raw(prog.objective), "the objective", 1e-7)
    n = len(prog.momentmatrix)
    known, semi = prog.known_moments, prog.semiknown_moments
    for i in range(n):
        q = T[1 + i].split(",")
        check(len(q) == n, "csv file: line", T[1 + i], "has not", n, "entries")
        for j in range(i, n):
            m = prog.compmoment_from_idx[int(prog.momentmatrix[i, j])]
            if m in known:
                w = {"": float(known[m])}
            elif m in semi:
                u = semi[m][1]
                w = {u.name: float(semi[m][0])} if u not in known else \
                    {"": semi[m][0] * known[u]}
            else:
                w = {"" if m.is_one else m.name: 1.}
            same(text_poly(q[j], names), w, f"cell {(i, j)}")
    k = 1 + n
    check(T[k] == "Bounds:" and T[k + 1].startswith("Variable"), "csv file: bounds section", T[k])
    k += 2
    lo, up = {}, {}
    while T[k]:
        q = T[k].rsplit(",", 2)
        nme = q[0].strip()
        check(nme in names or nme in "01", "csv file: bound on", q)
        nme = names.get(nme, nme)
        for d, s in ((lo, q[1]), (up, q[2])):
            s = s.strip()
            if s != "None":
                try:
                    d[nme] = float(s)
                except ValueError:
                    check(False, "csv file: bound", T[k])
        k += 1
    for got, want, what in ((lo, prog.moment_lowerbounds, "lower bounds"),
                            (up, prog.moment_upperbounds, "upper bounds")):
        want = {m.name: float(v) for m, v in want.items()}
        check(got.keys() == want.keys() and all(abs(v - got[q]) < 1e-9 for q, v in want.items()),
              "csv file:", what, got, "instead of", want)
    for head, rows in (("Equalities", prog.moment_equalities),
                       ("Inequalities", prog.moment_inequalities)):
        k += 1
        check(T[k].startswith(head), "csv file: section", T[k], "instead of", head)
        k += 1
        got = []
        while k < len(T) and T[k]:
            got.append(text_poly(T[k], names))
            k += 1
        want = [raw(r) for r in rows]
        compare_rows([(head, r) for r in want] + [(head, {q: -v for q, v in r.items()}) for r in want
                                                  if head[0] == "E"],
                     got + [{q: -v for q, v in r.items()} for r in got if head[0] == "E"], "csv file:")


def run_sdp(case, ctx, ext):
    prog, shift, moments, cs = S.make(case, "sdp", 9)
    configure(case, prog, "sdp", ctx)
    with tempfile.TemporaryDirectory(prefix="c15") as tmp:
        f = os.path.join(tmp, "prog" + ("" if ext == "dat-s" and case["seed"] % 5 == 0 else "." + ext))
        prog.write_to_file(f)
        f = os.path.join(tmp, "prog." + ext)
        check(os.path.exists(f), "no file with extension", ext)
        if ext == "dat-s":
            run_sdpa(prog, f, ctx)
        elif ext == "mat":
            run_mat(prog, f)
        else:
            run_csv(prog, f)


rows = st.one_of(st.just([]), st.lists(S.terms, min_size=1, max_size=3))
bnd = st.one_of(st.just([]), st.lists(st.tuples(mixed_int(9973), st.integers(-4, 8), st.just(0)).map(list),
                                      min_size=1, max_size=3))


def case_of(s, supports):
    opts = pick([{}, {}, {}, {"supports_problem": True}]) if supports else \
        st.booleans().map(lambda b: {"default_non_negative": b})
    return st.fixed_dictionaries(dict(
        spec=s, c=colspec(), all=pick([False, False, True]), opts=opts,
        seed=st.integers(0, 999), w=st.lists(st.integers(1, 9), min_size=1, max_size=4),
        obj=st.one_of(st.just([]), S.terms, S.terms), min=st.booleans(), sym=st.booleans(),
        up=bnd, lo=bnd, eq=rows, ineq=rows, lpi=st.booleans(),
        vals=st.one_of(st.just([]), st.just("dist"), bnd),
        order=st.lists(st.integers(0, 9), min_size=6, max_size=6)))


s1 = scenario(parties=(1, 3), lev_max=2, max_ops=16, max_group=8)
s2 = scenario(parties=(1, 3), sources=(1, 3), lev_max=2, max_ops=16, max_group=8, max_maxevents=120)
PARTS = [
    Part("lp", case_of(s2, False), run_lp, 600, 12000),
    Part("sdpa", case_of(s1, True), lambda c, x: run_sdp(c, x, "dat-s"), 700, 12000),
    Part("mat", case_of(s1, True), lambda c, x: run_sdp(c, x, "mat"), 400, 8000),
    Part("csv", case_of(s1, True), lambda c, x: run_sdp(c, x, "csv"), 400, 8000),
]


def SETUP():
    warnings.simplefilter("ignore")
    from ..warm import warm_sdp, warm_lp
    warm_sdp()
    warm_lp()


def sdpa_sign():
    """Known limitation: SDPA files hold a minimization, but the objective is written as it is."""
    from inflation import InflationSDP
    sdp = InflationSDP(build(dict(dag=[["h1", ["A"]]], out=[2], set=[2], lev=[1], cl=[], cil=[],
                                  nil=[], order=None)))
    sdp.generate_relaxation("npa1")
    sdp.set_objective({"P[A_0=0]": 1}, "max")
    with tempfile.TemporaryDirectory(prefix="c15") as tmp:
        f = os.path.join(tmp, "prog.dat-s")
        sdp.write_to_file(f)
        m, blocks, c, F = read_sdpa(f)
    check(list(c[c != 0]) == [-1], "dat-s file (to be minimized): the objective max P[A_0=0] is", c)


FINDINGS = [("K04", sdpa_sign)]
