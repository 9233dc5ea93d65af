"""The compiled backend (cython) and the array backend (numpy) give the same solution."""
from hypothesis import strategies as st

from vlib import bc, compare, lbm
from vlib.core import Family, info

RULE = "a simulation with boundary conditions, an obstacle, a source or a relative velocity whose compiled code has been generated and run"
ASSUMPTIONS = ["default algorithm and storage order of each backend (the other ones: P06)",
               "cells for which a boundary condition reads a cell which is not fluid are not compared",
               "runs are compared while the solution stays below 1e6, and with a relative velocity while the matrices in the moving frame have a condition number below 1e5",
               "the LOOPY backend needs pyopencl, which is not installed"]


@st.composite
def cases(draw, dims=(1, 2, 2, 2, 3), **k):
    dim = draw(st.sampled_from(dims))
    rel = draw(st.integers(0, 4)) == 0
    case = draw(bc.problems(dim, rel=rel, max_q=6 if rel else 9 if dim < 3 else 7, **dict(dict(max_elems=2, steps=5), **k)))
    return case


def check(case):
    sims = [compare.simulate(case, "numpy"), compare.simulate(case, "cython")]
    compare.Runner(case, sims, ["numpy", "cython"]).run()
    spec = case["spec"]
    src = any(s["src"] for s in spec["schemes"])
    labels = ["dim%d" % spec["dim"], "schemes%d" % len(spec["schemes"])]
    labels += ["source"] * src + ["rel_vel"] * bool(spec.get("rel_vel")) + ["obstacle"] * bool(case["dom"]["elems"])
    labels += ["time_bc"] * any(c["value"] and c["value"]["time"] for c in case["bc"].values())
    return info(case["bc"] or src or case["dom"]["elems"] or spec.get("rel_vel"), *labels)


FAMILIES = [
    Family("numpy, cython", check, cases(), quick=96, thorough=3000, timeout=120, shrink=False),
    Family("large grids, many steps", check, cases((1, 2), n=(20, 70), steps=25), quick=12, thorough=400, timeout=120, shrink=False),
    Family("large grids, many steps, 3D", check, cases((3,), n=(6, 16), steps=12), quick=4, thorough=160, timeout=120, shrink=False),
    Family("many schemes", check, cases((1, 2), max_schemes=4), quick=8, thorough=200, timeout=120, shrink=False),
]
