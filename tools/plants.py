"""Planted bugs: edits to original lines, with a demonstration each."""
PLANTS = {}


def plant(id, property, edits, needs, breaks, demo, also=(), solver=False):
    """solver: the demonstration uses the stand-in for the optimizer, which is
    copied beside it"""
    PLANTS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      also=list(also), solver=solver)


P = "inflation/InflationProblem.py"
S = "inflation/sdp/InflationSDP.py"
L = "inflation/lp/InflationLP.py"
N = "inflation/sdp/fast_npa.py"
U = "inflation/utils.py"
LU = "inflation/lp/lp_utils.py"
LM = "inflation/lp/monomial_classes.py"
LW = "inflation/lp/writer_utils.py"
SU = "inflation/sdp/sdp_utils.py"
SW = "inflation/sdp/writer_utils.py"
Q = "inflation/sdp/quantum_tools.py"
O = "inflation/optimization_utils.py"

plant("c05-latent-overrides-source", "C05", [(P, '''max(
                        self.sources_to_check_for_party_pair_commutation[desc_idx, desc2_idx, source_idx],
                            1 + quantum_connection_bonus)
''', '''1 + quantum_connection_bonus
''')],
      "a party fed by one nonclassical source both directly and through a classical intermediate latent",
      "measurements of that party with different settings are declared commuting although the direct quantum link forbids it",
      '''
p = InflationProblem({"s": ["A", "F"], "F": ["A", "B"]}, (2, 2), (2, 2),
                     classical_intermediate_latents=["F"])
i, j = [k for k, o in enumerate(p._lexorder) if o[0] == 1 and o[-1] == 0]
expect(p._default_notcomm[i, j], "A_0 and A_1 commute")
''')

plant("c06-group-of-four-copies", "C06", [(P, '''                perms = format_permutations(list(
                    permutations(range(inf_level)))[1:])''', '''                perms = format_permutations(list(
                    permutations(range(inf_level)))[1:24])''')],
      "a source with five or more copies", "only the first 24 relabellings of the copies enter the symmetry group",
      '''
p = InflationProblem({"s": ["A"]}, (2,), (1,), (5,), classical_sources="all")
expect(len(p.lexorder_symmetries) == 120, len(p.lexorder_symmetries))
''')

plant("c07-transitive-parts", "C07", [(N, '''            while search_next.any():
                old_component = new_component.copy()''', '''            for _ in range(4):
                old_component = new_component.copy()''')],
      "operators connected only through a chain of more than five source copies",
      "a long chain of operators that pairwise share copies is split into two 'independent' parts",
      '''
n = 8
p = InflationProblem({f"h{i}": [chr(65 + i), chr(66 + i)] for i in range(n - 1)}, (2,) * n, (1,) * n,
                     (2,) + (1,) * (n - 2), classical_sources="all")
w = [next(k for k, o in enumerate(p._lexorder) if o[0] == q + 1) for q in range(n)]
expect(len(p.factorize_monomial_1d(np.array(w))) == 1, "chain split")
''')

plant("c17-window", "C17", [(U, '''for (superbase, _) in queue):''', '''for (superbase, _) in
                       [queue[-1 - i] for i in range(min(len(queue), 100))]):''')],
      "a graph with so many cliques that more than a hundred of them are pending at once",
      "cliques contained in a larger clique are reported as maximal",
      '''
from inflation.utils import all_and_maximal_cliques
a = np.random.default_rng(1).random((24, 24)) < .6
a = np.triu(a, 1) | np.triu(a, 1).T
_, m = all_and_maximal_cliques(a)
for c in m:
    expect(not any(all(a[u, v] for u in c) for v in range(24) if v not in c), c)
''')

plant("c19-parent-order", "C19", [(P, '''        self.parents_per_party = list(map(np.flatnonzero, adjacency_matrix.T))
''', '''        self.parents_per_party = [
            np.array(sorted(np.flatnonzero(ps), key=self.names.__getitem__), dtype=int)
            for ps in adjacency_matrix.T]
''')],
      "a party with two visible parents, parties listed in an order that is not alphabetical",
      "the components of an effective setting no longer follow the order of the parties",
      '''
p = InflationProblem({"s": ["A", "B", "C"], "A": ["C"], "B": ["C"]}, (2, 3, 2), (1, 1, 1),
                     order=("B", "A", "C"))
expect(p.parents_per_party[2].tolist() == [0, 1], p.parents_per_party)
expect(sorted(p.effective_to_parent_settings[2].values())[-1] == (0, 1, 2), p.effective_to_parent_settings)
''')

plant("c01-absent-parent", "C01", [(P, '''            if parties_absent_bitvector[self.parents_per_party[p]].any():
                return False # Case of not an ancestrally closed set''', '''            parents_absent = parties_absent_bitvector[self.parents_per_party[p]]
            if len(parents_absent) and parents_absent.all():
                return False # Case of not an ancestrally closed set'''), (P, '''            outcomes_of_parent_parties = partsextractor(outcomes_by_party, self.parents_per_party[party_index])
            if not np.array_equal(outcomes_of_parent_parties, o_nonprivate_settings):
                return False''', '''            for parent, value in zip(self.parents_per_party[party_index],
                                     o_nonprivate_settings):
                if outcomes_by_party.get(parent, value) != value:
                    return False''')],
      "a variable with two visible parents, only one of which is in the event",
      "an interventional event is fixed to an observed frequency that does not determine it",
      '''
p = InflationProblem({"s": ["A", "B", "C"], "A": ["C"], "B": ["C"]}, (2, 2, 2), (1, 1, 1), (1,),
                     classical_sources="all")
lp = InflationLP(p)
prob = np.zeros((2, 2, 2, 1, 1, 1))
prob[0, 1, 1] = 1           # A = 0, B = 1, C equals B
lp.set_distribution(prob)
for m, v in lp.known_moments.items():
    ops = getattr(m, "as_2d_array", m.factors[0].as_2d_array if m.factors else [])
    parties = sorted(int(o[0]) for o in ops)
    expect(not (3 in parties and len(parties) < 3), m, v)
''', also=["C08"])

plant("c02-equalities-of-triples", "C02", [(L, '''                if np.any(critical_boolvec_intersection):

                    absent_c_boolvec''', '''                if 0 < np.count_nonzero(critical_boolvec_intersection) < 3:

                    absent_c_boolvec''')],
      "events that contain the last outcomes of three or more variables with children",
      "their normalization equalities are not imposed",
      '''
p = InflationProblem({"s": ["A", "B", "C"]}, (2, 2, 2), (1, 1, 1), (1,), classical_sources="all")
lp = InflationLP(p, include_all_outcomes=True)
eqs = lp._prepare_solver_arguments()["equalities"]
M = np.array([[e.get(v, 0) for v in lp.monomial_names] for e in eqs], float)
n = M.shape[1] - np.linalg.matrix_rank(M)
expect(n == 8, n)
''')

plant("c03-partial-normalisation", "C03", [(S, '''                        eq_idxs.append([self.genmon_1d_to_index[tuple(m)]
                                        for m in eq[1]])''', '''                        eq_idxs.append([self.genmon_1d_to_index[tuple(m)]
                                        for m in eq[1] if tuple(m)
                                        in self.genmon_1d_to_index])''')],
      "a generating set that contains some but not all outcomes of a measurement",
      "the outcomes that are present are required to add up to one",
      '''
p = InflationProblem({"s": ["A", "B"]}, (3, 2), (1, 1), (1,))
sdp = InflationSDP(p, include_all_outcomes=True)
one, a0, a2 = [], [1, 1, 0, 0], [1, 1, 0, 2]
sdp.generate_relaxation([np.empty((0, 4), dtype=int), np.array([a0]), np.array([a2])])
expect(len(sdp.minimal_equalities) == 0, sdp.minimal_equalities)
''')

plant("c08-unknown-power", "C08", [(LM, '''unknown_counter[factor] = power''',
                                   '''unknown_counter[factor] = 1''')],
      "linearised identification, and a moment with a known part and a repeated unknown part",
      "the moment is tied to its unknown part instead of to the square of it",
      '''
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (3,), classical_sources="all")
lp = InflationLP(p)
lp.set_values({"P[A=0]": .3}, use_lpi_constraints=True)
names = {m.name: (c, o.name) for m, (c, o) in lp.semiknown_moments.items()}
expect(all(o.n_operators + 1 == m.n_operators or c != .3
           for m, (c, o) in lp.semiknown_moments.items()), names)
''')

plant("c09-outcome-divider", "C09", [(LM, '''        o_divider = "" if all(len(o) == 1 for o in outputs) else ","
''', '''        o_divider = i_divider
''')],
      "measurements with more than ten outcomes",
      "the legacy names of different events coincide",
      '''
p = InflationProblem({"s": ["A", "B"]}, (12, 12), (1, 1), (1,), classical_sources="all")
lp = InflationLP(p)
w = lambda a, b: lp.Monomial(np.array([[k for k, o in enumerate(p._lexorder) if o[0] == q and o[-1] == v][0]
                                       for q, v in ((1, a), (2, b))]))
expect(w(1, 10).legacy_name != w(11, 0).legacy_name, w(1, 10).legacy_name)
''')

plant("c10-zero-cap", "C10", [(S, '''                            if not cap == None:
''', '''                            if cap:
''')],
      "a physical level that excludes a party with a cap of zero",
      "operators of the excluded party enter the generating set",
      '''
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (1,))
sdp = InflationSDP(p)
cols = sdp.build_columns("physical01")
expect(all(sdp._lexorder[c][:, 0].tolist() in ([], [2]) for c in cols), cols)
''')

plant("c12-both-bounds", "C12", [(LU, '''                    bkx[np.setdiff1d(lb_col, ub_col)] = mosek.boundkey.lo
                    bkx[np.setdiff1d(ub_col, lb_col)] = mosek.boundkey.up
                    bkx[np.intersect1d(ub_col, lb_col)] = mosek.boundkey.ra
''', '''                    bkx[lb_col] = mosek.boundkey.lo
                    bkx[ub_col] = mosek.boundkey.up
''')],
      "the primal formulation, variables that can be negative, and both bounds on one variable",
      "the lower bound of that variable is ignored",
      '''
from inflation.lp.lp_utils import solveLP
r = solveLP(objective={"x": -1, "y": 1}, known_vars={"1": 1.}, inequalities=[{"1": 1, "y": -1}],
            lower_bounds={"x": -2.}, upper_bounds={"x": 3.}, solve_dual=False,
            default_non_negative=False, variables=["1", "x", "y"])
expect(r["success"] and abs(r["primal_value"] - 3) < 1e-6, r["status"], r["primal_value"])
''', solver=True)

plant("c14-primal-equality-multipliers", "C14", [(SU, '''Evalues = E.level() if solve_dual else -eq_constraint.dual()''',
                                                 '''Evalues = E.level() if solve_dual else eq_constraint.dual()''')],
      "the primal formulation of a semidefinite program with equalities that involve fixed moments",
      "the certificate gets the contribution of the equalities with the wrong sign",
      '''
from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
from scipy.sparse import coo_array
E = lambda *p: coo_array((np.ones(len(p)), tuple(zip(*p))), shape=(2, 2))
# x = a + b, a = .25, b <= 1/2, maximise x: the optimum is a + 1/2
r = solveSDP_MosekFUSION(mask_matrices={"1": E((0, 0), (1, 1))}, objective={"x": 1.},
                         known_vars={"1": 1., "a": .25}, equalities=[{"x": 1., "a": -1., "b": -1.}],
                         inequalities=[{"1": .5, "b": -1.}], solve_dual=False)
c = r["dual_certificate"]
expect(abs(r["primal_value"] - .75) < 1e-5)
expect(abs(c.get("a", 0) - 1) < 1e-4 and abs(c.get("1", 0) - .5) < 1e-4, c)
''', solver=True)

plant("c15-mat-proportional", "C15", [(SW, '''        semiknown_final.append(semiknown[1][1].idx + offset)''',
                                       '''        semiknown_final.append(semiknown[1][1].idx)''')],
      "a .mat file of a program with linearised identification whose moment matrix contains a zero",
      "moments are declared proportional to the wrong moment",
      '''
import tempfile, shutil
from scipy.io import loadmat
p = InflationProblem({"s": ["A", "B"], "t": ["B", "C"]}, (2, 3, 2), (1, 1, 1), (2, 2))
sdp = InflationSDP(p)
sdp.generate_relaxation("npa2")
sdp.set_distribution(np.full((2, 3, 2, 1, 1, 1), 1 / 12), use_lpi_constraints=True)
expect(sdp.momentmatrix_has_a_zero and len(sdp.semiknown_moments))
d = tempfile.mkdtemp()
sdp.write_to_file(d + "/p.mat")
m = loadmat(d + "/p.mat")
shutil.rmtree(d)
name = {int(i.item()): str(n.item()) for i, n in m["moments_idx2name"]}
for x, c, y in m["semiknown_moments"]:
    want = {a.name: (b, o.name) for a, (b, o) in sdp.semiknown_moments.items()}[name[int(x)]]
    if int(y) in name and want[1] in name.values():
        expect(name[int(y)] == want[1], name[int(x)], name[int(y)], want)
''')

plant("c16-lpi-in-bisection", "C16", [(O, '''        program.set_values(evaluated_values,
                       use_lpi_constraints=use_lpi,
                       only_specified_values=only_specified)
        program.solve(feas_as_optim=True,
                  solve_dual=solve_dual,''', '''        program.set_values(evaluated_values,
                       only_specified_values=only_specified)
        program.solve(feas_as_optim=True,
                  solve_dual=solve_dual,''')],
      "a search by bisection with linearised polynomial constraints that restrict the parameter",
      "the constraints are not imposed and the critical parameter is overestimated",
      '''
from inflation import max_within_feasible
import sympy as sp
seen = []
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,), classical_sources="all")
lp = InflationLP(p)
solve = lp.solve
def spy(**kw):
    seen.append(len(lp.semiknown_moments))
    return solve(**kw)
lp.solve = spy
v = sp.Symbol("v")
max_within_feasible(lp, {"P[A=0]": v - .2}, "bisection", bounds=[.5, 1.5], use_lpi_constraints=True)
expect(min(seen) > 0, seen)
''', solver=True)

plant("c18-sorted-sources", "C18", [(P, '''            for ii, source in enumerate(self._actual_sources):
                if source in classical_sources:
                    self._classical_sources[ii] = 1''', '''            for ii in np.searchsorted(np.sort(self._actual_sources),
                                      sorted(classical_sources)):
                self._classical_sources[ii] = 1''')],
      "sources of both kinds that are not listed in alphabetical order",
      "the wrong sources are taken to be classical",
      '''
a = InflationProblem({"x": ["A"], "y": ["B"]}, (2, 2), (2, 2), (1, 1), classical_sources=["x"])
b = InflationProblem({"z": ["A"], "y": ["B"]}, (2, 2), (2, 2), (1, 1), classical_sources=["z"])
expect(np.array_equal(a._default_notcomm, b._default_notcomm))
''', also=["C05"])

plant("c20-proportional-moments", "C20", [(L, '''                del self.known_moments[mon]
            self._possible_moments = nonzero_known_monomials
            self.semiknown_moments = dict()
''', '''                del self.known_moments[mon]
            self._possible_moments = nonzero_known_monomials
''')],
      "possibilistic mode together with linearised identification",
      "moments are tied to their unknown parts as if possible events had probability one",
      '''
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,), classical_sources="all")
lp = InflationLP(p, supports_problem=True)
lp.set_values({"P[A=0]": 1.}, use_lpi_constraints=True)
expect(not lp.semiknown_moments, lp.semiknown_moments)
''')

plant("c22-two-notations", "C22", [(L, '''                output_dict[self._sanitise_monomial(k)] += v''',
                                    '''                output_dict[self._sanitise_monomial(k)] = v''')],
      "an objective or constraint that refers to one moment in two notations",
      "only one of the two coefficients counts",
      '''
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (2,), classical_sources="all")
lp = InflationLP(p)
m = next(m for m in lp.monomials if m.name == "P[A=0]")
lp.set_objective({"P[A=0]": 1., m.symbol: 2.})
expect(lp.objective[m] == 3, lp.objective)
''')

plant("c04-lookahead", "C04", [(N, '''                for op in range(1, lexmon.shape[0]):''',
                                '''                for op in range(1, min(6, lexmon.shape[0])):''')],
      "products of seven or more operators, one of the last of which commutes with all before it and comes first",
      "equal products get different normal forms, so cells that must coincide become different variables",
      '''
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (4, 4), (1,))
sdp = InflationSDP(p)
sdp.generate_relaxation([[], [0, 0, 0, 0]])
i = {tuple(o): k + 1 for k, o in enumerate(p._lexorder.tolist())}
a = [i[1, 1, x, 0] for x in range(4)]
b = [i[2, 1, x, 0] for x in range(2)]
u = np.array(b[:1] + [b[1], b[0], b[1], b[0], b[1], b[0]] + a[:1])
v = np.array(a[:1] + b[:1] + [b[1], b[0], b[1], b[0], b[1], b[0]])
expect(sdp._to_canonical_memoized_1d(u).tolist() == sdp._to_canonical_memoized_1d(v).tolist(),
       sdp._to_canonical_memoized_1d(u), sdp._to_canonical_memoized_1d(v))
''', also=["C05"])

plant("c11-objective-alias", "C11", [(S, '''        self._processed_objective = self.objective.copy()
''', '''        self._processed_objective = self.objective
''')],
      "an objective with a moment that linearised identification ties to another, and values that are replaced later",
      "the objective keeps the substitution made for the previous values",
      '''
p = InflationProblem({"s": ["A"], "t": ["B"]}, (2, 2), (1, 2), (2, 1))
sdp = InflationSDP(p)
sdp.generate_relaxation("npa2")
m = next(m for m in sdp.moments if m.knowability_status == "Knowable" and m.n_factors == 2
         and len({f.name for f in m.factors}) == 2)
sdp.set_objective({m: 1.})
want = dict(sdp.objective)
sdp.set_values({m.factors[0].name: .25}, use_lpi_constraints=True)
expect(len(sdp.semiknown_moments))
sdp.set_values(None)
expect(dict(sdp.objective) == want, sdp.objective)
''')

plant("c13-shared-constraints", "C13", [(SU, '''    var_inequalities = [] if inequalities is None else deepcopy(inequalities)
    var_equalities   = [] if equalities   is None else deepcopy(equalities)
''', '''    var_inequalities = [] if inequalities is None else list(inequalities)
    var_equalities   = [] if equalities   is None else list(equalities)
''')],
      "constraints that contain proportional variables, solved again with other proportionality constants",
      "the constraints of the caller are rewritten by the first call, so the second solves another program",
      '''
from scipy.sparse import coo_array
from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
E = lambda *p: coo_array((np.ones(len(p)), tuple(zip(*p))), shape=(2, 2))
args = dict(mask_matrices={"1": E((0, 0), (1, 1)), "x": E((0, 1), (1, 0))}, objective={"x": 1.},
            known_vars={"1": 1.}, inequalities=[{"1": .5, "y": -1.}])
for c in (1., 2.):
    r = solveSDP_MosekFUSION(semiknown_vars={"y": (c, "x")}, **args)
    expect(abs(r["primal_value"] - .5 / c) < 1e-5, c, r["primal_value"])
''', solver=True)

plant("c14-digits", "C14", [(S, '''                    polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)''',
                             '''                    polynomial_as_str += "{0:.4f}*{1}".format(abs(coeff), mon.name)''')],
      "a certificate asked for with more than four decimals or without cleaning",
      "the text of the certificate is not the certificate",
      '''
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (1,))
sdp = InflationSDP(p)
sdp.generate_relaxation("npa1")
t = sdp.string_from_dict({"P[A=0]": 3e-5, "P[B=0]": 2})
expect("e-05" in t or "0.00003" in t, t)
''')

plant("c08-dagger", "C08", [(S, '''            atomic_knowns.update({atom.dagger: val
                                  for atom, val in atomic_knowns.items()})
''', '''            atomic_knowns.update({atom.dagger: val for atom, val in
                                  atomic_knowns.items() if atom.is_knowable})
''')],
      "values given to a moment of operators that do not commute, and a product with the conjugate of that moment",
      "the product of the moment and its conjugate is not given its value",
      '''
p = InflationProblem({"s": ["A"]}, (2,), (3,), (2,))
sdp = InflationSDP(p)
sdp.generate_relaxation("npa3")
two = [m for m in sdp.moments if m.n_factors == 2 and m.factors[0] != m.factors[1]
       and m.factors[0].dagger == m.factors[1]]
one = sdp._monomial_from_atoms([two[0].factors[0]])
sdp.set_values({one: .2})
v = sdp.known_moments.get(two[0])
expect(v is not None and abs(v - .04) < 1e-9, two[0], v)
''')

plant("c13-proportional-inequality", "C13", [(SU, '''            inequality[x2] = inequality.get(x2, 0) + c * val''',
                                              '''            inequality[x2] = c * val or inequality.get(x2, 0)''')],
      "an inequality in which both a variable and the one it is proportional to appear",
      "the coefficient of the latter is lost when the former is eliminated",
      '''
from scipy.sparse import coo_array
from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
E = lambda *p: coo_array((np.ones(len(p)), tuple(zip(*p))), shape=(2, 2))
r = solveSDP_MosekFUSION(mask_matrices={"1": E((0, 0), (1, 1)), "x": E((0, 1), (1, 0))},
                         objective={"x": 1.}, known_vars={"1": 1.}, semiknown_vars={"y": (.5, "x")},
                         inequalities=[{"1": 1., "x": -1., "y": -2.}])
expect(r["status"] == "feasible" and abs(r["primal_value"] - .5) < 1e-5, r["status"], r.get("primal_value"))
''', solver=True)

plant("c11-shared-problem", "C11", [(S, '''        self.has_children = inflationproblem.has_children.copy()
''', '''        self.has_children = np.asarray(inflationproblem.has_children)
''')],
      "a second program built on the same problem as one with all outcomes",
      "creating the first program changes the problem, so the second one is given all outcomes as well",
      '''
p = InflationProblem({"s": ["A", "B"]}, (2, 2), (1, 1), (1,))
n = len(InflationSDP(p).build_columns("npa1"))
InflationSDP(p, include_all_outcomes=True)
expect(len(InflationSDP(p).build_columns("npa1")) == n)
''', also=["C21"])
