"""Relative velocities."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import bc, compare, lbm
from vlib.core import Family, Known, info, require

import pylbm

RULE = "a relative velocity which is not zero (or, for the comparison with no relative velocity, a solution with a wall or more than one conserved moment)"
ASSUMPTIONS = ["conserved moments whose span does not depend on the frame (the lowest monomials)",
               "no source terms: with a relative velocity they are a known finding",
               "runs are compared while the solution stays below 1e6, and while the matrices in the moving frame have a condition number below 1e5"]


def variant(case, rel):
    c = copy.deepcopy(case)
    c["spec"].pop("rel_vel", None)
    if rel:
        c["spec"]["rel_vel"] = rel
    return c


@st.composite
def two_schemes(draw, dim):
    """a scheme on the velocities of one or two directions, and another one"""
    first = draw(st.sampled_from({2: [[1, 3], [2, 4], [5, 7]], 3: [[5, 6], [1, 2], [3, 4], [1, 2, 3, 4]]}[dim]))
    first = [0] * draw(st.booleans()) + first
    vs = [first, draw(bc.sym_velocities(dim, max_q=5 if dim == 2 else 6, fast=False))]
    return vs if draw(st.integers(0, 3)) else vs[::-1]


@st.composite
def cases(draw, zero=False, uniform=False):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    relax = None if zero or uniform else st.one_of(st.integers(1, 16).map(lambda a: str(a / 8)), st.sampled_from(["1", "2", "3/2", "1.9"]))
    case = draw(bc.problems(dim, rel=True, max_q=9 if dim == 1 else 6, max_elems=1, steps=3, relax=relax, fast=dim == 1,
                            directional=False,
                            given=draw(two_schemes(dim)) if dim > 1 and draw(st.booleans()) else None))
    # two relative velocities
    spec = case["spec"]
    case["rel"] = [spec.pop("rel_vel")]
    bc.draw_rel_vel(draw, spec)
    case["rel"].append(spec.pop("rel_vel"))
    case["backend"] = "numpy"
    if zero:
        case["rel"] = [[draw(st.sampled_from(["0", "0.", "0*%s" % spec["schemes"][0]["cons"][0]])) for _ in range(dim)]]
    if uniform:
        case["state"] = {u: draw(st.integers(-16, 16)) / 8 for u in case["init"]}
    return case


def check_same(case):
    sims = [compare.simulate(variant(case, None))] + [compare.simulate(variant(case, r)) for r in case["rel"]]
    # the condition number of the moving frame
    compare.Runner(variant(case, case["rel"][0]), sims, ["no relative velocity"] + [str(r) for r in case["rel"]]).run()
    return info(any(x != "0" for r in case["rel"] for x in r), "dim%d" % case["spec"]["dim"],
                *(["moments"] * any("u" in x for r in case["rel"] for x in r)))


def check_uniform(case):
    """periodic: equilibrium states remain, and the conserved moments are conserved"""
    spec = dict(case["spec"], rel_vel=case["rel"][0])
    spec = copy.deepcopy(spec)
    for s in spec["schemes"]:  # no coordinates
        for k in ("eq", "s"):
            s[k] = [e if not any(x in e for x in "XYZ") else ("1" if k == "s" else "0") for e in s[k]]
    bx = case["dom"]["box"]
    ref = lbm.Ref(spec, bx)
    d = lbm.sim_dict(spec, bx, init={u: v for u, v in case["state"].items()})
    sim = pylbm.Simulation(d)
    ref.init_moments(case["state"])
    start = ref.f
    tol = 1e-10 * max(10.0, lbm.conds(ref))
    ref.collide(start)
    if ref.cond_u > 1e5:
        return info(False)
    for it in range(case["steps"]):
        sim.one_time_step()
        e = float(np.abs(lbm.get_F(sim, ref.q) - start).max())
        require(e <= tol * ref.cond_u * 10 ** it * lbm.scale_of(start), "the uniform equilibrium moves by {:.3e} at step {}", e, it + 1)
    F = start + bc.noise(case, ref.q, ref.n)
    for k in range(ref.q):
        sim.F_halo[k] = np.pad(F[k], [(v, v) for v in lbm.vmax_of(spec)])
    for it in range(case["steps"]):
        before = ref.f2m(F)
        ref.cond_u = 1.0
        ref.collide(ref.transport(F))
        sim.one_time_step()
        F = lbm.get_F(sim, ref.q)
        if not np.all(np.isfinite(F)) or lbm.scale_of(F) > 1e6 or ref.cond_u > 1e5:
            break
        for u in ref.allcons:
            a, b = float(before[ref.index[u]].sum()), float(np.sum(sim.m[lbm.sym(u)]))
            require(abs(a - b) <= tol * ref.cond_u * lbm.scale_of(before, F) * F[0].size, "step {}: the total of {} goes from {} to {}", it + 1, u, a, b)
    return info(any(x != "0" for x in spec["rel_vel"]), "dim%d" % ref.dim)


def check_source(case):
    spec, bx = case["spec"], case["box"]
    sim = pylbm.Simulation(lbm.sim_dict(spec, bx, init={"u0": 1.0}))
    a = float(np.sum(sim.m[lbm.sym("u0")]))
    sim.one_time_step()
    gain = (float(np.sum(sim.m[lbm.sym("u0")])) - a) / bx["n"][0] / sim.dt
    c = float(spec["schemes"][0]["src"]["u0"])
    if abs(gain - c) < 1e-10:
        return info(True)
    if abs(gain - c / 2) < 1e-10:
        raise Known("relative-velocity-source", "a source of %s per unit of time gives %s" % (c, gain))
    require(False, "a source of {} per unit of time gives {}", c, gain)


def source_case(rel):
    return {"spec": {"dim": 1, "la": "1", "params": {}, "rel_vel": [rel], "schemes": [
        {"v": [0, 1, 2], "polys": ["1", "X", "X**2"], "eq": ["u0", "u0/4", "u0/2"], "s": ["0", "1.5", "1.25"], "cons": ["u0"],
         "pos": [0], "src": {"u0": "0.5"}}]}, "box": {"n": [8], "dx": 0.125, "org": [0.0]}}


FAMILIES = [
    Family("zero", check_same, cases(zero=True), quick=40, thorough=2000, timeout=40),
    Family("one relaxation parameter", check_same, cases(), quick=44, thorough=3000, timeout=40),
    Family("equilibrium, conservation", check_uniform, cases(uniform=True), quick=56, thorough=3000, timeout=30),
    Family("source", check_source, cases=[source_case("1/4"), source_case("u0/4")]),
]
