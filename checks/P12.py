"""Distances, labels and normals of the walls."""
import numpy as np
from hypothesis import strategies as st

from vlib import geo, lbm
from vlib.core import Family, info, require

import pylbm

RULE = "a domain where at least one wall of an element (in the families 'wide': any wall) is crossed by a segment between two cells"
ASSUMPTIONS = ["segments for which the geometry is at the round-off (cells on a surface, tangents, edges) are not judged",
               "when a segment crosses the border of the fluid several times, only the presence of a wall is judged"]


@st.composite
def cases(draw, dim, big=False, kinds=None, wide=False):
    if wide:  # any velocities, with components up to 2 or 3
        vs = [draw(st.lists(st.integers(0, {2: 48, 3: draw(st.sampled_from([124, 342]))}[dim]), min_size=1, max_size=5, unique=True))]
    else:
        vs = [draw(lbm.velocities(dim, max_q=13 if dim < 3 else 27, still=True)) for _ in range(draw(st.integers(1, 2)))]
    c = np.abs(np.array([lbm.vel(dim, k) for v in vs for k in v])).max(axis=0)
    n = {1: (1, 12), 2: (1, 14), 3: (1, 6)}[dim] if not big else {2: (20, 60), 3: (10, 16)}[dim]
    case = draw(geo.domains(dim, max_elems=1 if wide else 4, n=n, vmax=[int(x) for x in c], kinds=kinds))
    case["v"] = vs
    if wide:
        case["wide"] = True
    return case


def check(case):
    bx = case["box"]
    dim = len(bx["n"])
    model = geo.DomainModel(bx, case["elems"], case["labels"])
    dom = pylbm.Domain(geo.domain_dict(case, case["v"]))
    vmax = np.abs(np.array([lbm.vel(dim, k) for v in case["v"] for k in v])).max(axis=0)
    inner = tuple(slice(int(v), int(v) + n) for v, n in zip(vmax, bx["n"]))
    fluid = np.array(dom.in_or_out)[inner] == dom.valin
    dist = np.array(dom.distance)
    flag = np.array(dom.flag)
    norm = np.array(dom.normal)
    halo = np.ones(dist.shape[1:], dtype=bool)
    halo[inner] = False
    nwalls = nelem = nmulti = 0
    for k, vel in enumerate(dom.stencil.unique_velocities):
        v = [int(c) for c in (vel.v if isinstance(vel.v, (list, tuple, np.ndarray)) else [vel.v])][:dim]
        require(np.all(dist[k][halo] == dom.valin) and np.all(flag[k][halo] == dom.valin),
                "a wall is recorded out of the box for the velocity {}", v)
        dk, fk, nk = dist[k][inner], flag[k][inner], norm[k][inner]
        has = dk != dom.valin
        require(np.array_equal(has, fk != dom.valin), "distance and flag disagree for the velocity {}", v)
        require(not (has & ~fluid).any(), "a wall is recorded for a solid cell, velocity {}", v)
        if not any(v):
            require(not has.any(), "a wall is recorded for the velocity 0")
            continue
        res = model.walls(v)
        bad = res["sure"] & (has != res["wall"])
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            require(False, "cell {} velocity {}: {}", i, v,
                    "a wall is recorded, distance %s label %s, but the cell reached is fluid" % (dk[i], fk[i]) if has[i]
                    else "no wall is recorded, at a distance %s" % res["dist"][i])
        nwalls += int(res["wall"].sum())
        nmulti += int((res["wall"] & ~res["single"]).sum())
        ok = res["sure"] & res["wall"] & res["single"] & (res["gap"] > 1e-6)
        for i in map(tuple, np.argwhere(ok)):
            require(abs(dk[i] - res["dist"][i]) < 1e-6, "cell {} velocity {}: distance {} instead of {} (label {})",
                    i, v, dk[i], res["dist"][i], fk[i])
            cands = [c for c in range(len(res["tags"])) if res["cand"][c][i]]
            pairs = [model.label_of(res, c, i) for c in cands]
            require(int(fk[i]) in [p[0] for p in pairs], "cell {} velocity {}: label {} instead of {}",
                    i, v, fk[i], [p[0] for p in pairs])
            if len(pairs) == 1 and abs(np.dot(pairs[0][1], v)) > 1e-6:
                require(np.abs(nk[i] - pairs[0][1]).max() < 1e-5, "cell {} velocity {} label {}: normal {} instead of {}",
                        i, v, fk[i], nk[i], pairs[0][1])
            nelem += any(res["tags"][c][0] != "box" for c in cands)
    return info(nwalls if case.get("wide") else nelem, "dim%d" % dim, *sorted({e["kind"] + ("+" if e["fluid"] else "-") for e in case["elems"]}),
                *(["several crossings"] * bool(nmulti)))


FAMILIES = [
    Family("1D", check, cases(1), quick=100, thorough=1000),
    Family("2D", check, cases(2), quick=5000, thorough=100000),
    Family("3D", check, cases(3), quick=2000, thorough=40000),
    Family("3D, STL", check, cases(3, kinds=geo.STL + geo.KINDS[3][:1]), quick=600, thorough=12000),
    Family("2D, wide", check, cases(2, wide=True), quick=1000, thorough=20000),
    Family("3D, wide", check, cases(3, wide=True), quick=1200, thorough=20000),
    Family("2D, large", check, cases(2, big=True), quick=200, thorough=4000),
    Family("3D, large", check, cases(3, big=True), quick=16, thorough=400),
]
