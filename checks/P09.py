"""One time step with boundary conditions = the documented reflection, in any domain."""
import numpy as np
from hypothesis import strategies as st

from vlib import bc, lbm
from vlib.core import Family, Known, info, require

import pylbm

RULE = "at least one distribution enters through a wall of the domain"
ASSUMPTIONS = ["cells where the documented formula reads a cell which is not fluid (narrow gaps, tangential copies) are not compared",
               "no solid part next to a periodic side of the box",
               "where the intersection of the segment with the walls is not resolved by the grid (see P12), the distance and the label are those recorded by the domain",
               "sources, equilibria and relaxation parameters as in P04"]


def run(case, backend="numpy"):
    sim = pylbm.Simulation(bc.sim_dict(case, backend))
    ref = bc.RefBC(case, sim.domain)
    return sim, ref


def check(case):
    sim, ref = run(case)
    fl = ref.fluid
    m0 = ref.init_moments({c: lbm.field_fn(v)(*ref.x) for c, v in case["init"].items()})
    tol = 1e-10 * max(10.0, lbm.conds(ref))
    got = lbm.get_F(sim, ref.q)
    require(lbm.close(got[:, fl], ref.f[:, fl], tol), "initial distributions differ")
    p = bc.noise(case, ref.q, ref.n)
    for k in range(ref.q):
        sim.F[k][...] = ref.f[k] + p[k]
    ref.f = ref.f + p
    known = False
    labels = ["dim%d" % ref.dim] + sorted({m for w in ref.walls for m in [case["bc"][str(w[1])]["method"][str(ref.scheme_of(w[0]))]]})
    for it in range(case["steps"]):
        before = ref.f
        ref.mask = fl.copy()
        sim.one_time_step()
        ref.anti = False
        ref.step()
        ok = ref.mask
        if not np.all(np.isfinite(ref.f)) or lbm.scale_of(ref.f) > 1e6:
            break
        got = lbm.get_F(sim, ref.q)
        sc = lbm.scale_of(ref.f[:, ok], before)
        if not lbm.close(got[:, ok], ref.f[:, ok], tol, sc):
            if ref.anti:
                # finding: sign of the second term of BouzidiAntiBounceBack, distance lower than 1/2
                good = ref.f
                ref.f, ref.defective = before, True
                ref.t -= ref.dt
                ref.step()
                ref.defective = False
                if lbm.close(got[:, ok], ref.f[:, ok], tol, sc):
                    known = True
                    ref.f = got.copy()
                    continue
                ref.f = good
            e = np.where(ok, np.abs(got - ref.f).max(axis=0), 0)
            i = np.unravel_index(np.argmax(e), e.shape)
            walls = [(k, tuple(int(c) for c in ref.V[k]), lab, case["bc"][str(lab)]["method"][str(ref.scheme_of(k))], float(d[j]))
                     for k, lab, idx, d in ref.walls for j in range(len(d)) if tuple(a[j] for a in idx) == tuple(i)]
            require(False, "step {}: the cell {} differs by {:.3e} (scale {:.1e}); its walls (distribution, velocity, label, condition, distance): {}",
                    it + 1, tuple(int(a) for a in i), float(e.max()), sc, walls)
        ref.f = got.copy()
    if known:
        raise Known("bouzidi-antibounceback-sign", "BouzidiAntiBounceBack with a distance lower than 1/2")
    return info(bool(ref.walls), *labels)


FAMILIES = [
    Family("1D", check, bc.problems(1), quick=120, thorough=4000, timeout=20),
    Family("2D", check, bc.problems(2), quick=320, thorough=12000, timeout=25),
    Family("2D, Bouzidi", check, bc.problems(2, methods=["BouzidiBounceBack", "BouzidiAntiBounceBack"], max_schemes=1),
           quick=100, thorough=4000, timeout=25),
    Family("twins", check, bc.problems(2, methods=["AntiBounceBack", "BounceBack", "BouzidiBounceBack"], twins=True, max_q=5), quick=64, thorough=2000, timeout=25),
    Family("2D, large grids", check, bc.problems(2, n=(20, 50), max_elems=4, steps=12, max_q=5), quick=40, thorough=1500, timeout=40),
    Family("2D, many schemes", check, bc.problems(2, max_q=5, max_schemes=4), quick=24, thorough=1000, timeout=40),
    Family("3D", check, bc.problems(3, max_q=7), quick=60, thorough=2000, timeout=30),
]
