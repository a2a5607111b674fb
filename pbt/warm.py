"""Compile the JIT kernels once in the parent before forking."""


def warm_problem():
    from inflation import InflationProblem
    p = InflationProblem({"h1": ["A", "B"], "h2": ["A", "B"]}, (2, 2), (2, 1), (2, 2))
    p.factorize_monomial_1d(__import__("numpy").array([0, 3]))
    return p


def warm_sdp():
    from inflation import InflationSDP
    s = InflationSDP(warm_problem())
    s.generate_relaxation("npa1")
    import numpy as np
    s.set_distribution(np.ones((2, 2, 2, 1)) / 4)
    return s


def warm_lp():
    from inflation import InflationLP
    import numpy as np
    s = InflationLP(warm_problem())
    s.set_distribution(np.ones((2, 2, 2, 1)) / 4)
    return s
