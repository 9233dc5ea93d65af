"""The grid, its halo and the time step."""
import numpy as np
from hypothesis import strategies as st

from vlib import lbm
from vlib.core import Family, info, require

import pylbm

RULE = "a grid of more than one cell in some direction, whose origin or space step is not an integer"
ASSUMPTIONS = ["the box is a multiple of the space step, up to the round-off of its bounds", "at least as many cells as the width of the halo in each direction (periodic exchange)"]


@st.composite
def grids(draw, dims=(1, 2, 3)):
    dim = draw(st.sampled_from(dims))
    vs = [draw(lbm.velocities(dim, max_q=27, still=True)) for _ in range(draw(st.integers(1, 3)))]
    dx = draw(st.one_of(st.sampled_from([1, 1.0, 0.5, 0.1, 0.2, 0.05, 0.01, 1. / 3, 1. / 7, 2.5, 3, 1e-3, 0.07]),
                        st.integers(1, 4096).map(lambda k: k / 1024),
                        st.integers(1, 300).map(lambda k: 1.0 / k)))
    top = {1: 300, 2: 40, 3: 9}[dim]
    n = [max(draw(st.integers(1, top)), w) for w in maxima(dim, vs)]
    if draw(st.integers(0, 3)) == 0:
        org = [draw(st.integers(-50, 50)) for _ in range(dim)]
    else:
        org = [draw(st.integers(-1000, 1000)) / 128 for _ in range(dim)]
    return {"dim": dim, "v": vs, "dx": dx, "n": n, "org": org,
            "label": draw(st.sampled_from([None, -1, 0, "list"]))}


def verify(dom, case, vmax):
    dim, dx, n, org = case["dim"], case["dx"], case["n"], case["org"]
    require(dom.dim == dim and dom.dx == dx, "dim, dx")
    require(list(dom.global_size) == n, "global size: {} instead of {}", dom.global_size, n)
    require(list(dom.shape_in) == n, "shape_in {} instead of {}", dom.shape_in, n)
    require(list(dom.shape_halo) == [a + 2 * b for a, b in zip(n, vmax)], "shape_halo: {}", dom.shape_halo)
    for d in range(dim):
        tol = 1e-12 * (abs(org[d]) + n[d] * dx + vmax[d] * dx)
        want = org[d] + (np.arange(n[d]) + 0.5) * dx
        halo = org[d] + (np.arange(-vmax[d], n[d] + vmax[d]) + 0.5) * dx
        for name, got, exp in [("coords", dom.coords[d], want), ("coords_halo", dom.coords_halo[d], halo),
                               ("xyz"[d], getattr(dom, "xyz"[d]), want),
                               ("xyz"[d] + "_halo", getattr(dom, "xyz"[d] + "_halo"), halo)]:
            require(np.shape(got) == exp.shape and np.abs(got - exp).max() <= tol,
                    "{} in the direction {}: {} instead of {}", name, d, got, exp)
    lo, hi = dom.get_bounds()
    lh, hh = dom.get_bounds_halo()
    for d in range(dim):
        require(abs(lo[d] - org[d] - dx / 2) < 1e-9 * (1 + abs(org[d])) and
                abs(hi[d] - org[d] - (n[d] - .5) * dx) < 1e-9 * (1 + abs(org[d]) + n[d] * dx), "get_bounds")
        require(abs(lh[d] - dom.coords_halo[d][0]) == 0 and abs(hh[d] - dom.coords_halo[d][-1]) == 0, "get_bounds_halo")
    require(list(np.shape(dom.in_or_out)) == list(dom.shape_halo), "shape of in_or_out")
    nu = dom.stencil.unvtot
    for a in (dom.distance, dom.flag):
        require(list(np.shape(a)) == [nu] + list(dom.shape_halo), "shape of distance or flag")
    require(list(np.shape(dom.normal)) == [nu] + list(dom.shape_halo) + [dim], "shape of normal")


def maxima(dim, lists):
    c = np.abs(np.array([lbm.vel(dim, k) for v in lists for k in v]))
    return [int(x) for x in c.max(axis=0)]


def the_box(case):
    b = {}
    for a, o, n in zip("xyz", case["org"], case["n"]):
        b[a] = [o, o + n * case["dx"]]
    lab = case.get("label", -1)
    if lab == "list":
        b["label"] = list(range(2 * case["dim"]))
    elif lab is not None:
        b["label"] = lab
    return b


def check(case):
    d = {"box": the_box(case), "space_step": case["dx"], "schemes": [{"velocities": list(v)} for v in case["v"]]}
    vmax = maxima(case["dim"], case["v"])
    verify(pylbm.Domain(d), case, vmax)
    g = pylbm.Geometry({"box": the_box(case)})
    require(g.dim == case["dim"] and np.array_equal(g.bounds, [d["box"][a] for a in "xyz"[:case["dim"]]]), "Geometry.bounds")
    return info(max(case["n"]) > 1 and (case["dx"] != int(case["dx"]) or any(o != int(o) for o in case["org"])),
                "dim%d" % case["dim"], "halo%d" % max(vmax), "still" if 0 in vmax else "moving")


@st.composite
def sims(draw):
    case = draw(grids(dims=(1, 1, 2, 2, 3)))
    dim = case["dim"]
    case["n"] = [min(n, {1: 60, 2: 12, 3: 5}[dim]) for n in case["n"]]
    case["label"] = -1
    case["v"] = [{1: [0, 1, 2], 2: [0, 1, 2, 3, 4], 3: [0, 1, 2, 3, 4, 5, 6]}[dim]] if draw(st.booleans()) else \
        [{1: [4, 0, 3], 2: [5, 0, 11], 3: [6, 3, 1, 0]}[dim]]
    vmax = maxima(dim, case["v"])
    case["n"] = [max(n, v) for n, v in zip(case["n"], vmax)]
    case["la"] = draw(st.sampled_from([1, 1., 2, 0.5, 10, 3, 0.3, 1e-2, 1e3, 7.3]))
    case["symbol"] = draw(st.booleans())
    case["steps"] = draw(st.integers(0, 3))
    return case


def check_sim(case):
    dim = case["dim"]
    v = case["v"][0]
    exps = lbm.monomials(dim, tuple(lbm.vel(dim, k) for k in v))
    spec = {"dim": dim, "la": "1", "params": {}, "schemes": [
        {"v": v, "polys": [lbm.mono_str(e) for e in exps], "cons": ["u0"], "pos": [0],
         "eq": ["u0"] + ["0"] * (len(v) - 1), "s": ["0"] + ["1"] * (len(v) - 1)}]}
    d = lbm.scheme_dict(spec)
    del d["dim"]
    d.update(box=the_box(case), space_step=case["dx"], generator="numpy", init={lbm.sym("u0"): 1.})
    d["scheme_velocity"] = lbm.sym("LA") if case["symbol"] else case["la"]
    if case["symbol"]:
        d["parameters"] = {lbm.sym("LA"): case["la"]}
    sim = pylbm.Simulation(d)
    vmax = maxima(dim, case["v"])
    verify(sim.domain, case, vmax)
    dt = case["dx"] / case["la"]
    require(abs(sim.dt - dt) <= 1e-14 * dt, "dt: {} instead of {}", sim.dt, dt)
    halo = [a + 2 * b for a, b in zip(case["n"], vmax)]
    for k in list(range(len(v))) + [lbm.sym("u0")]:
        require(list(sim.m[k].shape) == case["n"] and list(sim.m_halo[k].shape) == halo, "shape of m[{}]", k)
    for k in range(len(v)):
        require(list(sim.F[k].shape) == case["n"] and list(sim.F_halo[k].shape) == halo, "shape of F[{}]", k)
    for i in range(case["steps"]):
        require(sim.nt == i and abs(sim.t - i * dt) <= 1e-13 * (i + 1) * dt, "time {} nt {} after {} steps", sim.t, sim.nt, i)
        sim.one_time_step()
    return info(True, "dim%d" % dim)


FAMILIES = [
    Family("grid", check, grids(), quick=1500, thorough=30000),
    Family("simulation", check_sim, sims(), quick=200, thorough=4000),
]
