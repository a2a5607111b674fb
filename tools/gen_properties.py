"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

IP = "inflation/InflationProblem.py"; LP = "inflation/lp/InflationLP.py"
SDP = "inflation/sdp/InflationSDP.py"; LPU = "inflation/lp/lp_utils.py"
SDPU = "inflation/sdp/sdp_utils.py"; NPA = "inflation/sdp/fast_npa.py"
QT = "inflation/sdp/quantum_tools.py"; UT = "inflation/utils.py"
OPT = "inflation/optimization_utils.py"; LW = "inflation/lp/writer_utils.py"
SW = "inflation/sdp/writer_utils.py"; LMC = "inflation/lp/monomial_classes.py"
SMC = "inflation/sdp/monomial_classes.py"; MU = "inflation/sdp/monomial_utils.py"
NB = "inflation/lp/numbafied.py"

prop("C01", "LP relaxation is sound: no realizable behaviour is ever excluded",
 "For any causal scenario and inflation, every behaviour that the causal structure can produce with (classical, or for non-fanout programs arbitrary) sources yields an assignment of the LP's variables that satisfies every normalization equality, every inequality, every bound and every value the program fixes from that behaviour. Consequently a program given the distribution of a realizable behaviour is never infeasible, and optimising any linear objective never cuts off the value that the behaviour attains.",
 ["inputs", "programs", "configurations"], "all DAGs, cardinalities, inflation levels, LP options and classical models of them",
 "The tests solve a handful of fixed scenarios and mostly need a Mosek licence; a constraint that is wrong only for some DAG, cardinality or inflation level is not sampled.",
 [LP, IP, NB, UT], [("events of compatible templates, Collins-Gisin columns", LP + ":_generate_lp"), ("normalization equalities", LP + ":minimal_sparse_equalities"), ("positivity of every event", LP + ":minimal_sparse_inequalities"), ("fixing known values", LP + ":set_distribution/update_values")],
 ["program arrays handed to the solver", "InflationLP.solve status"])
prop("C02", "LP relaxation is exactly the advertised one: none of its strength is lost",
 "The set of moment assignments allowed by an inflation LP is exactly that of the linear program which assigns a symmetric non-negative probability distribution to every set of jointly measurable events of the inflated graph, with consistent marginals and normalization. Optimal values and feasibility therefore coincide with those of that program written out independently by brute force, and further coincide with closed-form facts (fixed distributions that a given inflation is known to exclude are excluded).",
 ["inputs", "programs", "configurations"], "all small DAGs/cardinalities/levels, fanout and non-fanout, and arbitrary objectives/fixed values on the program's moments",
 "The tests compare a few literature optima; a silently missing constraint or a merged variable leaves most of those unchanged.",
 [LP, IP, UT], [("compatible templates / maximal cliques", IP + ":all_and_maximal_compatible_templates"), ("orbit discovery", LP + ":_discover_inflation_orbits"), ("inequality assembly", LP + ":minimal_sparse_inequalities")],
 ["LP optimum/feasibility through the public solve call"])
prop("C03", "SDP relaxation is sound: no realizable behaviour is ever excluded",
 "For any causal scenario with classical and quantum sources, any inflation level and any generating set, the moments of every model of the scenario with sources of the declared kind (real states and measurements for quantum sources, as the relaxation is real, or the real parts of their moments) satisfy everything the SDP imposes: a positive semidefinite moment matrix, every linear equality and inequality, every default or possibilistic bound, and every value fixed from the model's observable distribution. A realizable distribution is therefore never reported infeasible.",
 ["inputs", "programs", "configurations"], "all DAGs (networks and non-networks), source kinds, inflation levels, generating sets, options, and models",
 "Tests check sizes and a few optima for fixed scenarios; one wrong identification or bound in another scenario excludes valid quantum behaviours unnoticed.",
 [SDP, NPA, QT, SMC, IP], [("moment matrix", QT + ":calculate_momentmatrix_1d_internal"), ("symmetrisation", QT + ":apply_inflation_symmetries"), ("hermitian/physical lower bounds", SDP + ":generate_relaxation"), ("known/semiknown values", SDP + ":update_values")],
 ["moment matrix, equalities, bounds and known values of a generated relaxation"])
prop("C04", "SDP moment-matrix cells: same variable exactly when equal by the rules",
 "Two cells of an SDP moment matrix carry the same unknown exactly when their operator products are equal under the stated rules: idempotent projectors, orthogonality of different outcomes, commutation, conjugation (real relaxation), relabelling of source copies and independence of parts that share no source (conjugation reverses all independent parts of a product together). Cells whose product vanishes are zero and cells whose product is the identity are one.",
 ["inputs", "programs", "configurations"], "all scenarios, inflation levels, source kinds and generating sets",
 "Under- or over-identification changes the strength or the soundness of a relaxation only on some entry of some matrix; tests count variables for a few cases.",
 [SDP, QT, NPA, SMC], [("canonical products", NPA + ":to_canonical_1d_internal"), ("symmetry orbits of entries", QT + ":apply_inflation_symmetries"), ("factorised representatives", SDP + ":Moment_1d/_monomial_from_atoms"), ("mask matrices", SDP + ":_construct_mask_matrices")],
 ["InflationSDP.momentmatrix", "maskmatrices", "moments"])
prop("C05", "Operator algebra: commutation, orthogonality and canonical words",
 "Two measurement operators are treated as commuting exactly when every model with the declared source kinds makes them commute (measurements with a single outcome aside), and as orthogonal exactly when they are different outcomes of one measurement on the same source copies. The canonical form of a word is the same for all words reachable from one another by commuting neighbours and dropping repeated projectors, is itself such a word, is idempotent, and is zero exactly when such a rewriting exposes a product of orthogonal operators.",
 ["inputs", "configurations"], "all scenarios, source kinds, and words of any length over their operators",
 "Tests enumerate a few short words; confluence and the source-kind-dependent commutation rule are statements about all words and all DAGs.",
 [NPA, SDP, IP, QT], [("commutation rule", NPA + ":nb_operators_commute/commutation_matrix"), ("lexicographic normal form", NPA + ":nb_lexmon_to_canonical/to_canonical_1d_internal"), ("source kinds per pair of parties", IP + ":__init__")],
 ["canonical representative of a product", "commutation table of a relaxation"])
prop("C06", "Inflation symmetries: exactly the relabellings of source copies",
 "The symmetry group applied to an inflation is exactly the group of permutations of the copies of each source acting consistently on every operator that uses those copies. Representatives of a product are constant on each orbit, members of the orbit, different for different orbits, and independent of the order in which products are met.",
 ["inputs", "configurations"], "all scenarios and inflation levels, all products of operators",
 "Tests look at a few inflation levels of one or two networks; wrong images appear only for particular copy patterns, intermediate latents or mixed levels.",
 [IP, LP, SDP, UT], [("permutations of operators", IP + ":discover_lexorder_symmetries"), ("LP orbits", LP + ":_discover_inflation_orbits"), ("SDP representative", SDP + ":_inflation_orbit_and_rep_1d"), ("group generation", UT + ":perm_combiner/format_permutations")],
 ["symmetry table of a problem", "representatives"])
prop("C07", "Moments factorise exactly into their independent parts",
 "The product of operators behind a moment splits into the finest parts such that operators in different parts share no source copy, and the moment equals the product of the moments of its parts. The split loses and duplicates no operator, keeps the order inside each part, does not depend on how the operators are presented, and holds for any number of parts.",
 ["inputs"], "all scenarios and all words, including long ones with many parts",
 "Tests split a few short products; order preservation, many parts and intermediate latents are not reached.",
 [IP, NPA, LP, SDP, LMC], [("connected components", NPA + ":nb_classify_disconnected_components/nb_overlap_matrix"), ("factorisation", IP + ":factorize_monomial_1d/factorize_monomial_2d"), ("cached products", SDP + ":_monomial_from_atoms")],
 ["factors of a moment"])
prop("C08", "Values fixed from a distribution: the right moments, the right numbers",
 "After supplying an observable distribution, the moments given a number are exactly the products of parts that are each computable from it, each product with some computable and some unknown parts is tied to its unknown part with the correct coefficient, and each number equals the corresponding marginal or do-conditional probability of the distribution. With linearised polynomial identification or with only a subset of the values used, exactly the values asked for are fixed.",
 ["inputs", "programs", "configurations"], "all scenarios, distributions (with zeros and signalling between visible variables) and option combinations",
 "Tests fix a few distributions in symmetric scenarios, where transposed indices, wrong settings or missed products coincide.",
 [LP, SDP, LMC, SMC, MU, IP, NPA], [("marginals", MU + ":compute_marginal"), ("knowability", SDP + ":_atomic_knowable_q"), ("non-network knowability", IP + ":_is_knowable_q_non_networks/rectify_fake_setting"), ("product evaluation", LMC + ":CompoundMoment.evaluate"), ("propagation", SDP + ":update_values")],
 ["known and proportional values of a program after supplying a distribution"])
prop("C09", "Names, symbols and arrays denote one and the same moment",
 "Every operator and moment of a problem has a name, and reading that name, its symbolic form or its array form back gives the same moment; distinct operators and distinct moments have distinct names. Different spellings of one product (reordered commuting operators, relabelled copies, reordered factors) are read as the same moment, and unknown or malformed names are rejected rather than mistaken for something else.",
 ["inputs"], "all scenarios (multi-digit indices, party names, parents), all moments, all spellings",
 "Tests parse a few names in one scenario with single-digit indices.",
 [LP, SDP, IP, LMC, SMC, MU, NPA], [("interpretation of names", LP + ":_sanitise_monomial/_interpret_name"), ("interpretation of names", SDP + ":_sanitise_moment/_interpret_name"), ("naming", IP + ":_interpretation_to_name"), ("symbols", MU + ":symbol_from_atom_name")],
 ["names and symbols of moments", "user input in any accepted form"])
prop("C10", "Generating-set specifications produce exactly the documented products",
 "A generating-set specification (level of the usual hierarchy, local or physical level with or without a total or per-party cap, explicit list of parties, of arrays or of symbols) produces exactly the documented set of products: every one once (explicit lists of arrays or symbols denote the listed products), canonical, nonzero, with the identity first. Equivalent specifications give the same set, and a larger level always contains the smaller one.",
 ["inputs", "configurations"], "all scenarios, inflation levels and specifications",
 "Tests list the columns of two or three scenarios; missing or duplicated products in others silently weaken the relaxation.",
 [SDP, NPA, QT], [("column construction", SDP + ":build_columns/_build_cols_from_specs"), ("physical products", NPA + ":nb_is_physical"), ("canonical products", NPA + ":to_canonical_1d_internal")],
 ["InflationSDP.build_columns and the generating monomials of a relaxation"])
prop("C11", "Program state depends on what is set, not on how it was reached",
 "After any sequence of setting, updating, resetting, querying and solving calls, a relaxation is in the same state, and hands the same problem to the solver, as a freshly created one on which only the settings still in force were made. Rejected calls leave the state as it was, and creating, querying or solving one program never changes another or the arguments passed in.",
 ["histories"], "all sequences of public calls on one or several program objects",
 "Tests check two or three fixed call sequences; leftover bounds, stale caches and order-dependent memoisation need particular histories.",
 [LP, SDP, IP], [("reset logic", LP + ":reset/_reset_values/_cleanup_after_set_values"), ("reset logic", SDP + ":reset/_reset_values/_update_bounds"), ("memoisation", SDP + ":_to_canonical_memoized_1d/_inflation_orbit_and_rep_1d")],
 ["public attributes and solver arguments after a history"])
prop("C12", "LP solver interface solves exactly the program it is given",
 "For any linear program expressed through the documented arguments (objective, fixed and proportional variables, equalities, inequalities, bounds, non-negativity, sparse or dictionary form), the primal and the dual formulation report the status and optimum of that program, and reported primal values satisfy it. Feasibility-as-optimisation, relaxed fixed values and relaxed inequalities report the optimum of the documented relaxed program.",
 ["inputs", "programs", "configurations"], "all small programs, feasible, infeasible or unbounded, and all combinations of options",
 "Tests need a Mosek licence for nearly all of this and use one or two programs per option.",
 [LPU, UT], [("matrix assembly for primal/dual", LPU + ":solveLP_sparse"), ("form conversion", LPU + ":to_sparse/convert_dicts"), ("sparse helpers", UT + ":expand_sparse_vec/vstack")],
 ["solution dictionary returned by the LP solver interface"])
prop("C13", "SDP solver interface solves exactly the program it is given",
 "For any semidefinite program expressed through the documented arguments (moment matrix masks, objective, fixed and proportional variables, equalities, inequalities, bounds), the primal and the dual formulation report the status and optimum of that program, and reported values satisfy it. Feasibility-as-optimisation reports the largest smallest eigenvalue attainable.",
 ["inputs", "programs", "configurations"], "all small programs, feasible or infeasible, and all combinations of options",
 "Tests need a Mosek licence for nearly all of this and use one or two programs per option.",
 [SDPU], [("Fusion model assembly", SDPU + ":solveSDP_MosekFUSION"), ("dual assembly", SDPU + ":solveSDP_MosekFUSION")],
 ["solution dictionary returned by the SDP solver interface"])
prop("C14", "Certificates are valid: they never incriminate a compatible behaviour",
 "A certificate returned by a program is non-negative on every distribution compatible with the relaxation, negative on the distribution for which the program was infeasible, and tight at an optimum. Its dictionary, symbolic and string forms, before and after rounding, denote the same polynomial, and evaluating it on a distribution gives the value of that polynomial there.",
 ["inputs", "programs"], "all scenarios, distributions, objectives and rounding options",
 "Tests evaluate a few certificates on the distribution they came from; validity is a statement about every compatible behaviour.",
 [LPU, SDPU, LP, SDP, UT], [("certificate extraction", LPU + ":solveLP_sparse"), ("certificate extraction", SDPU + ":solveSDP_MosekFUSION"), ("presentation", SDP + ":certificate_as_string/evaluate_certificate"), ("rounding", UT + ":clean_coefficients")],
 ["certificate_as_dict/probs/string, evaluate_certificate, evaluate_polynomial"])
prop("C15", "Exported files describe the same program that would be solved",
 "The file written by a program in any supported format (.lp, .mps, .dat-s, .mat, .csv) describes the program held in memory: read back by an independent parser it has the same variables, objective, constraints, bounds, fixed values and matrix structure, and hence the same optimum.",
 ["inputs", "programs", "configurations"], "all programs that can be exported, with every kind of constraint, bound and value set",
 "Tests compare files of one tiny program with stored text.",
 [LW, SW, LP, SDP], [("LP writers", LW + ":write_to_lp/write_to_mps"), ("SDPA writer", SW + ":write_to_sdpa"), ("MAT/CSV writers", SW + ":write_to_mat/write_to_csv")],
 ["contents of the written file"])
prop("C16", "Critical-parameter search returns the boundary of feasibility",
 "Given values depending on a parameter, the search for the largest feasible parameter (by bisection or through certificates) returns, within its stated precision, the largest parameter for which the program is feasible, for any one-dimensional family whose feasible set is an interval containing the starting point. It leaves the program usable and reports the same value whichever method and bounds are used.",
 ["inputs", "programs", "configurations"], "all programs and parametrised families of values, both methods, all bounds and precisions",
 "Tests use one family with a licence-dependent solver.",
 [OPT, UT], [("bisection", OPT + ":_maximize_via_bisect"), ("certificate zeros", OPT + ":_maximize_via_dual"), ("numerical substitution", UT + ":make_numerical")],
 ["return value of the search"])
prop("C17", "Compatible measurements: exactly the jointly measurable sets are found",
 "The sets of inflated variables regarded as jointly measurable are exactly the sets of pairwise compatible ones: all of them are listed once, the maximal ones are exactly those contained in no other, and a size limit removes exactly the larger ones.",
 ["inputs", "configurations"], "all scenarios and inflation levels, all compatibility graphs and size limits",
 "Tests look at one graph; a missed or repeated set weakens the program silently.",
 [UT, IP], [("clique enumeration", UT + ":all_and_maximal_cliques"), ("templates", IP + ":all_and_maximal_compatible_templates/_compatible_template_measurements")],
 ["lists of compatible templates of a problem"])
prop("C18", "Relabelling a scenario relabels the relaxation and changes nothing else",
 "Renaming or reordering the parties or the sources of a scenario, or relabelling outcomes or settings together with the distribution or objective, gives an equivalent relaxation: same numbers of variables, columns and constraints, corresponding fixed values, and the same optimum and feasibility.",
 ["inputs", "configurations"], "all scenarios, relabellings, distributions and objectives",
 "A metamorphic statement over pairs of programs; the tests never compare relabelled programs.",
 [IP, LP, SDP], [("party and source order", IP + ":__init__"), ("LP generation", LP + ":_generate_lp"), ("SDP generation", SDP + ":generate_relaxation")],
 ["sizes, known values and optima of two relaxations"])
prop("C19", "Scenario descriptions are interpreted faithfully or rejected",
 "A scenario description is turned into the inflated graph it denotes: one operator per party, choice of source copies, effective setting (own setting together with the values of visible parents) and outcome, each exactly once. Visible-to-visible links become effective settings that map back to the right parents' values, and descriptions that are inconsistent or unsupported are rejected with an error.",
 ["inputs", "configurations"], "all scenario descriptions, valid or not",
 "Tests build about ten DAGs and check a handful of attributes.",
 [IP], [("construction", IP + ":__init__"), ("operator table", IP + ":_lexorder_lookup"), ("interpretation", IP + ":_interpret_operator/rectify_fake_setting")],
 ["public tables of an inflation problem"])
prop("C20", "Possibilistic mode decides from the support alone",
 "In possibilistic mode only the zero pattern of the supplied distribution or values matters: impossible events are fixed to zero, possible ones are required to be strictly positive, and nothing else is fixed. Supports of realizable behaviours are never excluded, and any two distributions with the same support give the same program.",
 ["inputs", "programs"], "all scenarios, supports and option combinations, for LP and SDP",
 "Tests check two supports in one scenario.",
 [LP, SDP], [("support values and bounds", LP + ":update_values"), ("support values and bounds", SDP + ":update_values")],
 ["fixed values and bounds of a program in possibilistic mode"])
prop("C21", "All-outcomes and compact descriptions of a relaxation are equivalent",
 "Including every outcome of every measurement together with normalization is equivalent to leaving one outcome out: corresponding moments agree on every model, the normalization equalities of the larger description are exactly those that the outcomes of each measurement satisfy, and both descriptions give the same optimum and feasibility (up to the positivity imposed on the single moments that are present, and for data that respect the independences of the parties).",
 ["inputs", "programs", "configurations"], "all scenarios, levels and generating sets, for LP and SDP",
 "Tests check one or two normalization equalities of one scenario.",
 [SDP, LP, QT], [("normalization of columns", SDP + ":_discover_normalization_eqns"), ("normalization of moments", QT + ":construct_normalization_eqs/expand_moment_normalisation"), ("LP equalities", LP + ":minimal_sparse_equalities")],
 ["normalization equalities and optima of the two descriptions"])
prop("C22", "User-specified objectives, bounds, values and constraints all take effect",
 "Whatever objective, bounds, fixed values, extra equalities or extra inequalities the user sets on a relaxation, in any accepted notation and any order, the program that is solved is the relaxation with exactly those specifications added. Its reported optimum, status and values are those of that program.",
 ["inputs", "programs", "histories"], "all relaxations and all combinations and orders of user specifications",
 "Tests set one kind of specification at a time on one scenario.",
 [LP, SDP], [("setters", LP + ":set_objective/set_bounds/update_values/set_extra_equalities"), ("setters", SDP + ":set_objective/set_bounds/update_values/set_extra_equalities"), ("solver arguments", LP + ":_prepare_solver_arguments"), ("solver arguments", SDP + ":_prepare_solver_arguments")],
 ["optimum and values reported by solve"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
