"""Elements: membership, rays, bounds."""
import numpy as np
from hypothesis import strategies as st

from vlib import geo
from vlib.core import Family, info, require

RULE = "an element for which at least one point is inside, one is outside, and one ray meets the surface"
ASSUMPTIONS = ["points and rays at the round-off of a surface, of an edge or of a tangent are not judged",
               "the vectors of ellipses, ellipsoids, circular and elliptic cylinders are orthogonal, as documented",
               "faces of the cylinders are numbered as in the code (sides, then the face opposite to the axis, then the other one)"]


@st.composite
def cases(draw, dim, kinds=None):
    size = draw(st.sampled_from([0.25, 1, 4, 64]))
    e = draw(geo.elements(dim, [-2] * dim, [2] * dim, size, kinds=kinds))
    body = geo.Body(e)
    lo, hi = body.bounds()
    n = 4 if dim == 3 else 6
    # coordinates of the points: around the element
    pts = []
    for d in range(dim):
        le = hi[d] - lo[d]
        t = draw(st.lists(st.integers(-32, 96), min_size=2, max_size=n))
        pts.append(sorted({float(lo[d] + x / 64 * le + le * 0.00123) for x in t}))
    dirs = draw(st.lists(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim).filter(any), min_size=1, max_size=4))
    scale = draw(st.sampled_from([0.25, 1., 1 / 3])) * size
    return {"e": e, "pts": pts, "dirs": dirs, "scale": scale,
            "dmax": draw(st.sampled_from([None, 1.0, 0.3, 2.5]))}


def check(case):
    e = case["e"]
    body = geo.Body(e)
    dim = body.dim
    el = geo.build(e)
    grid = np.meshgrid(*[np.array(p) for p in case["pts"]], sparse=True, indexing="ij")
    dense = np.stack(np.meshgrid(*[np.array(p) for p in case["pts"]], indexing="ij"), -1)
    shape = dense.shape[:-1]
    # bounds
    lo, hi = el.get_bounds()
    tlo, thi = body.bounds()
    tol = 1e-9 * (1 + np.abs(tlo).max() + np.abs(thi).max())
    require(np.all(lo <= tlo + tol) and np.all(hi >= thi - tol),
            "the bounds {} {} do not contain the element, which is in {} {}", lo, hi, tlo, thi)
    # inside
    g = body.level(dense)
    got = el.point_inside(grid)
    require(np.shape(got) == shape, "shape of point_inside: {}", np.shape(got))
    sure = np.abs(g) > 1e-8
    bad = sure & (np.asarray(got, dtype=bool) != (g < 0))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        require(False, "the point {} is said {}", dense[i], "inside" if got[i] else "outside")
    # rays
    hits = 0
    dmax = case["dmax"]
    for dirn in case["dirs"]:
        v = np.array(dirn, dtype=float) * case["scale"]
        t_in, t_out, f_in, f_out, gap = body.clip(dense, v)
        hit = t_in <= t_out
        first = np.where(hit & (t_in > 0), t_in, np.where(hit & (t_out > 0), t_out, -1))
        face = np.where(hit & (t_in > 0), f_in, f_out)
        lim = np.inf if dmax is None else dmax
        first = np.where(first > lim, -1, first)
        sure = (gap > 1e-6) & (np.abs(t_in) > 1e-7) & (np.abs(t_out) > 1e-7)
        sure &= (np.abs(t_in - lim) > 1e-7) & (np.abs(t_out - lim) > 1e-7)
        args = (grid, v) if dmax is None else (grid, v, dmax)
        for normal in (True, False):
            alpha, border, nv = el.distance(*args, normal=normal)
            require(np.shape(alpha) == shape and np.shape(border) == shape, "shape of distance: {}", np.shape(alpha))
            for i in map(tuple, np.argwhere(sure)):
                if first[i] < 0:
                    require(alpha[i] == -1 or e["kind"] in geo.STL and alpha[i] == np.inf, "from {} along {}: distance {} instead of none", dense[i], v, alpha[i])
                    continue
                hits += 1
                require(abs(alpha[i] - first[i]) <= 1e-7 * max(1, first[i]),
                        "from {} along {}: distance {} instead of {}", dense[i], v, alpha[i], first[i])
                require(border[i] == body.labels[face[i]], "from {} along {}: label {} instead of {}",
                        dense[i], v, border[i], body.labels[face[i]])
                if normal:
                    n = body.normal(np.array([face[i]]), (dense[i] + first[i] * v)[None])[0]
                    if np.dot(n, v) > 0:
                        n = -n
                    if abs(np.dot(n, v)) > 1e-6 * np.linalg.norm(v):
                        require(np.shape(nv) == shape + (dim,), "shape of the normals")
                        require(np.abs(nv[i] - n).max() < 1e-6, "from {} along {}: normal {} instead of {}",
                                dense[i], v, nv[i], n)
    return info((g < 0).any() and (g > 0).any() and hits, e["kind"], "dmax" if dmax else "no dmax")


FAMILIES = [
    Family("2D", check, cases(2), quick=8000, thorough=200000),
    Family("3D", check, cases(3), quick=9000, thorough=200000),
    Family("3D, STL", check, cases(3, kinds=geo.STL), quick=1500, thorough=50000),
]
