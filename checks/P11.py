"""Fluid and solid cells of the domains."""
import numpy as np
from hypothesis import strategies as st

from vlib import geo, lbm
from vlib.core import Family, info, require

import pylbm

RULE = "a domain with both fluid and solid cells, made by at least one element"
ASSUMPTIONS = ["cells whose centre is at the round-off of a surface are not judged",
               "elements are those of the library, but the STL files"]


@st.composite
def cases(draw, dim, big=False, kinds=None):
    vs = [draw(lbm.velocities(dim, max_q=9 if dim < 3 else 19, still=True)) for _ in range(draw(st.integers(1, 2)))]
    c = np.abs(np.array([lbm.vel(dim, k) for v in vs for k in v])).max(axis=0)
    n = {1: (1, 12), 2: (1, 14), 3: (1, 7)}[dim] if not big else {2: (20, 60), 3: (10, 20)}[dim]
    huge = big == 2
    if huge:  # elements of the size of the box
        n = {2: (40, 90), 3: (26, 40)}[dim]
    case = draw(geo.domains(dim, max_elems=3 if huge else 5, n=n, vmax=[int(x) for x in c], kinds=kinds,
                            **({"sizes": (16, 32), "min_elems": 1} if huge else {})))
    case["v"] = vs
    return case


def check(case):
    bx = case["box"]
    dim = len(bx["n"])
    model = geo.DomainModel(bx, case["elems"], case["labels"])
    dom = pylbm.Domain(geo.domain_dict(case, case["v"]))
    vmax = np.abs(np.array([lbm.vel(dim, k) for v in case["v"] for k in v])).max(axis=0)
    inner = tuple(slice(int(v), int(v) + n) for v, n in zip(vmax, bx["n"]))
    io = np.array(dom.in_or_out)
    require(io.shape == tuple(n + 2 * int(v) for n, v in zip(bx["n"], vmax)), "shape of in_or_out: {}", io.shape)
    require(set(np.unique(io)) <= {dom.valin, dom.valout}, "values of in_or_out: {}", np.unique(io))
    halo = np.ones(io.shape, dtype=bool)
    halo[inner] = False
    require(np.all(io[halo] == dom.valout), "a cell out of the box is fluid")
    fluid = io[inner] == dom.valin
    bad = model.sure & (fluid != model.fluid)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        require(False, "the cell {} of centre {} is {}", i, model.pts[i], "fluid" if fluid[i] else "solid")
    # the labels
    want = set(case["labels"]) | {l for b, _ in model.bodies for l in b.labels}
    require(set(int(x) for x in dom.list_of_labels()) == want, "list_of_labels: {} instead of {}", dom.list_of_labels(), want)
    f = model.fluid
    return info(f.any() and not f.all(), "dim%d" % dim, "elems%d" % len(case["elems"]),
                *sorted({e["kind"] + ("+" if e["fluid"] else "-") for e in case["elems"]}))


FAMILIES = [
    Family("1D", check, cases(1), quick=50, thorough=500),
    Family("2D", check, cases(2), quick=2500, thorough=60000),
    Family("3D", check, cases(3), quick=1500, thorough=30000),
    Family("3D, STL", check, cases(3, kinds=geo.STL + geo.KINDS[3][:1]), quick=1500, thorough=30000),
    Family("2D, large", check, cases(2, big=True), quick=300, thorough=5000),
    Family("3D, large", check, cases(3, big=True), quick=160, thorough=2000),
    Family("2D, huge", check, cases(2, big=2), quick=240, thorough=3000),
    Family("3D, huge", check, cases(3, big=2), quick=320, thorough=4000),
]
