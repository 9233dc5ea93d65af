"""The functions that prescribe boundary values: arguments, time, and consequences."""
import numpy as np
from hypothesis import strategies as st

from vlib import bc, lbm
from vlib.core import Family, info, require

import pylbm

from checks import P09

RULE = "calls: at least one point of a wall has a prescribed value; uniform: at least one distribution enters through a wall with a prescribed value"
ASSUMPTIONS = ["positions where the crossing of the wall is not resolved by the grid (see P12) are those given by the distances recorded by the domain",
               "uniform states: BouzidiAntiBounceBack with a distance lower than 1/2 is the known finding of P09 and is replaced by BouzidiBounceBack",
               "uniform states: cells reached by values read in cells which are not fluid are not compared",
               "Neumann conditions do not use the prescribed values: their points may be given to the function or not"]


def near(a, b, tol):
    """for each row of a, is there a row of b at most at tol"""
    if len(a) == 0:
        return np.ones(0, dtype=bool)
    if len(b) == 0:
        return np.zeros(len(a), dtype=bool)
    out = np.zeros(len(a), dtype=bool)
    for i in range(0, len(a), 256):
        out[i:i + 256] = (np.abs(a[i:i + 256, None] - b[None]).max(axis=-1) <= tol).any(axis=1)
    return out


def points(calls):
    p = [np.stack(np.broadcast_arrays(*[a.ravel() for a in x]), axis=-1) for _, x, _ in calls]
    return np.concatenate(p) if p else None


def check_calls(case):
    for c in case["bc"].values():
        c["value"]["time"] = bool(c["value"]["time"])
    record = {}
    sim = pylbm.Simulation(bc.sim_dict(case, record=record))
    ref = bc.RefBC(case, sim.domain)
    dim, dx = ref.dim, ref.bx["dx"]
    must, may = {}, {}
    for k, lab, idx, d in ref.walls:
        x = np.stack([ref.x[e][idx] - d * ref.V[k][e] * dx for e in range(dim)], axis=-1)
        may.setdefault(str(lab), []).append(x)
        if not case["bc"][str(lab)]["method"][str(ref.scheme_of(k))].startswith("Neumann"):
            must.setdefault(str(lab), []).append(x)
    npt = 0

    def verify(when, t, complete):
        nonlocal npt
        for lab, c in case["bc"].items():
            calls = record.get(lab, [])
            v = c["value"]
            for tt, _, extra in calls:
                require((tt is not None) == v["time"], "{}: label {}: time given {}", when, lab, tt)
                if v["time"]:
                    require(abs(tt - t) <= 1e-12 * max(1, abs(t)), "{}: label {}: time {} instead of {}", when, lab, tt, t)
                require(tuple(extra) == (() if v["arg"] is None else (v["arg"],)),
                        "{}: label {}: arguments {}", when, lab, extra)
            got = points(calls)
            exp = np.concatenate(must[lab]) if lab in must else np.zeros((0, dim))
            lim = np.concatenate(may[lab]) if lab in may else np.zeros((0, dim))
            if got is not None:
                require(got.shape[1] == dim, "number of coordinates")
                bad = ~near(got, lim, 1e-6 * dx)
                require(not bad.any(), "{}: label {}: called at {} where there is no wall of this label", when, lab,
                        got[bad][:3].tolist())
            if complete is True or (complete == "time" and v["time"]):
                bad = ~near(exp, got if got is not None else np.zeros((0, dim)), 1e-6 * dx)
                require(not bad.any(), "{}: label {}: not called at {}", when, lab, exp[bad][:3].tolist())
                npt += len(exp)
        for calls in record.values():
            calls.clear()

    verify("initialization", 0.0, True)
    start = case.get("start")
    if start is not None:
        sim.t = start  # the user continues a previous computation
    for it in range(case["steps"]):
        t = (start or 0.0) + it * ref.dt
        sim.one_time_step()
        if not np.all(np.isfinite(lbm.get_F(sim, ref.q)[:, ref.fluid])):
            break
        verify("step %d" % (it + 1), t, "time")
    return info(npt, "dim%d" % dim, *(["time"] * any(c["value"]["time"] for c in case["bc"].values())))


def check_uniform(case):
    spec = case["spec"]
    cons = list(case["state"])
    for c in case["bc"].values():
        c["value"] = {"time": bool(case["time"]), "arg": None,
                      "m": {u: [case["state"][u]] + [0.0] * (spec["dim"] + 2) for u in cons}}
    d = bc.sim_dict(case)
    ref = bc.RefBC(case, pylbm.Domain(d))
    for k, lab, idx, dist in ref.walls:
        m = case["bc"][str(lab)]["method"]
        sch = str(ref.scheme_of(k))
        if m[sch] == "BouzidiAntiBounceBack" and np.any(dist < 0.5):
            m[sch] = "BouzidiBounceBack"
    d = bc.sim_dict(case)
    d["init"] = {lbm.sym(u): case["state"][u] for u in cons}
    sim = pylbm.Simulation(d)
    ref.init_moments({u: case["state"][u] for u in cons})
    start = ref.f.copy()
    tol = 1e-10 * max(10.0, lbm.conds(ref))
    ref.transport(ref.f)  # to know the cells which need values of cells which are not fluid
    ok = ref.mask.copy()
    vmax = lbm.vmax_of(spec)
    sc = lbm.scale_of(start)
    nb = 0
    for it in range(case["steps"]):
        sim.one_time_step()
        got = lbm.get_F(sim, ref.q)
        e = np.where(ok, np.abs(got - start).max(axis=0), 0)
        require(float(e.max()) <= tol * sc * 4 ** it, "the uniform equilibrium moves by {:.3e} at the cell {} at step {}", float(e.max()),
                tuple(int(a) for a in np.unravel_index(np.argmax(e), e.shape)), it + 1)
        nb += int(ok.sum())
        bad = ~ok & ref.fluid
        for dd in range(ref.dim):
            b = bad.copy()
            for s in range(1, vmax[dd] + 1):
                for sg in (s, -s):
                    r = np.roll(bad, sg, axis=dd)
                    b |= r
            bad = b
        ok = ref.fluid & ~bad & ref.mask
    return info(nb and any(not case["bc"][str(w[1])]["method"][str(ref.scheme_of(w[0]))].startswith("Neumann") for w in ref.walls),
                "dim%d" % ref.dim)


@st.composite
def call_cases(draw, dim, **k):
    case = draw(bc.problems(dim, sources=False, nonlinear=False, coords=False, values=False, steps=2, **k))
    cons = list(case["init"])
    for c in case["bc"].values():
        c["value"] = draw(bc.value(cons, dim, draw(st.booleans())))
    case["start"] = draw(st.sampled_from([None, None, 3.0, -0.5]))
    return case


@st.composite
def uniform_cases(draw, dim, **k):
    case = draw(bc.problems(dim, sources=False, coords=False, values=False, steps=4, directional=False, **k))
    case["state"] = {u: draw(st.integers(-16, 16)) / 8 for u in case["init"]}
    case["time"] = draw(st.booleans())
    return case


VALUES = ["AntiBounceBack", "BounceBack", "BouzidiBounceBack"]
FAMILIES = [
    Family("calls, 1D", check_calls, call_cases(1), quick=60, thorough=2000, timeout=20),
    Family("calls, 2D", check_calls, call_cases(2, max_elems=3), quick=240, thorough=10000, timeout=20),
    Family("calls, 3D", check_calls, call_cases(3, max_q=7), quick=40, thorough=2000, timeout=30),
    Family("values, 2D", P09.check, bc.problems(2, methods=VALUES, twins=True, max_q=5), quick=64, thorough=2000, timeout=25),
    Family("values, 3D", P09.check, bc.problems(3, methods=VALUES, twins=True, max_q=7, max_schemes=1), quick=24, thorough=800, timeout=25),
    Family("uniform, 1D", check_uniform, uniform_cases(1), quick=60, thorough=2000, timeout=20),
    Family("uniform, 2D", check_uniform, uniform_cases(2), quick=160, thorough=8000, timeout=25),
    Family("uniform, 3D", check_uniform, uniform_cases(3, max_q=7), quick=40, thorough=2000, timeout=30),
]
