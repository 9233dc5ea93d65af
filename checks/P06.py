"""Storage orders and algorithms give the same solution."""
from hypothesis import strategies as st

from vlib import bc, compare, lbm
from vlib.core import Family, info

RULE = "at least one variant differs from the default one, and the solution is not uniform"
ASSUMPTIONS = ["local moments (m_local) are used with the compiled backend only, as in the default settings",
               "check_isfluid is not used (GPU backend)",
               "runs are compared while the solution stays below 1e6"]

SMALL = dict(max_elems=1, n=None)


@st.composite
def variant(draw, dim, compiled):
    v = {}
    if draw(st.integers(0, 3)):
        v["sorder"] = draw(st.permutations(range(dim + 1)))
    if draw(st.booleans()):
        v["algo"] = draw(st.sampled_from(["base", "pull"]))
    s = {}
    if draw(st.booleans()):
        s["split"] = draw(st.booleans())
    if compiled and draw(st.booleans()):
        s["m_local"] = draw(st.booleans())
    if s:
        v["settings"] = s
    return v


@st.composite
def cases(draw, dims, compiled=False, nvar=3, **k):
    dim = draw(st.sampled_from(dims))
    rel = draw(st.integers(0, 4)) == 0
    case = draw(bc.problems(dim, rel=rel, max_q=6 if rel else 9 if dim < 3 else 7, fast=dim == 1 or not rel, **dict(dict(max_elems=1, steps=3), **k)))
    case["variants"] = [draw(variant(dim, compiled)) for _ in range(nvar)]
    case["backend"] = "cython" if compiled else "numpy"
    return case


def check(case):
    sims = [compare.simulate(case)]
    for v in case["variants"]:
        sims.append(compare.simulate(case, case["backend"], **v))
    compare.Runner(case, sims, ["default"] + [str(v) for v in case["variants"]]).run()
    labels = ["dim%d" % case["spec"]["dim"]]
    labels += sorted({k if k != "algo" else v["algo"] for v in case["variants"] for k in v if k != "settings"})
    labels += sorted({"%s=%s" % kv for v in case["variants"] for kv in v.get("settings", {}).items()})
    labels += ["rel_vel"] * bool(case["spec"].get("rel_vel"))
    return info(any(case["variants"]), *labels)


FAMILIES = [
    Family("numpy", check, cases([1, 2, 2, 3]), quick=110, thorough=6000, timeout=40),
    Family("numpy, large grids", check, cases([1, 2], n=(20, 60), steps=12), quick=16, thorough=800, timeout=60),
    Family("numpy, many schemes", check, cases([1, 2], max_schemes=4), quick=16, thorough=800, timeout=60),
    Family("compiled", check, cases([1, 2, 2, 3], compiled=True, nvar=2), quick=32, thorough=600, timeout=120, shrink=False),
]
