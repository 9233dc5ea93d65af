"""Several simulations of the same problem, which must have the same solution."""
import numpy as np

from . import bc, lbm
from .core import require

import pylbm


def simulate(case, backend="numpy", sorder=None, algo=None, settings=None, **keys):
    d = bc.sim_dict(case, backend)
    d.update(keys)
    if algo or settings:
        a = {}
        if algo:
            a["name"] = {"base": pylbm.algorithm.BaseAlgorithm, "pull": pylbm.algorithm.PullAlgorithm}[algo]
        if settings:
            a["settings"] = dict(settings)
        d["lbm_algorithm"] = a
    return pylbm.Simulation(d, sorder=list(sorder)) if sorder is not None else pylbm.Simulation(d)


def spread(bad, vmax):
    for d, v in enumerate(vmax):
        out = bad.copy()
        for s in range(1, v + 1):
            out |= np.roll(bad, s, axis=d) | np.roll(bad, -s, axis=d)
        bad = out
    return bad


class Runner:
    """runs the reference simulation and compares the other ones with it"""

    def __init__(self, case, sims, names):
        self.case, self.sims, self.names = case, sims, names
        self.ref = bc.RefBC(case, sims[0].domain)
        self.q = self.ref.q
        self.fluid = bc.fluid_of(sims[0], case)
        for sim, name in zip(sims[1:], names[1:]):
            require(np.array_equal(bc.fluid_of(sim, case), self.fluid), "{}: other fluid cells", name)
        # cells where a boundary condition reads a cell which is not fluid: not specified
        self.ref.transport(self.ref.f)
        self.bad = self.fluid & ~self.ref.mask
        self.all = self.fluid
        self.tol = 1e-11 * max(10.0, lbm.conds(self.ref))
        self.ref.init_moments({c: lbm.field_fn(v)(*self.ref.x) for c, v in case["init"].items()})

    def compare(self, when, factor=1.0, moments=False):
        """False if the solution is too large to be compared"""
        base = self.sims[0]
        fl = self.fluid
        f0 = lbm.get_F(base, self.q)
        if not np.all(np.isfinite(f0[:, fl])) or lbm.scale_of(f0[:, fl]) > 1e6:
            return False
        sc = lbm.scale_of(f0[:, fl], self.ref.f) * self.cond(f0)
        if not np.isfinite(sc):
            return False
        mom = None
        if moments:
            mom = {u: np.array(base.m[lbm.sym(u)]) for u in self.ref.allcons}
            msc = max([sc] + [lbm.scale_of(m[fl]) for m in mom.values()])
        for sim, name in zip(self.sims[1:], self.names[1:]):
            f = lbm.get_F(sim, self.q)
            require(f.shape == f0.shape, "{}, {}: shapes {} and {}", name, when, f.shape, f0.shape)
            e = np.where(fl, np.abs(f - f0), 0)
            require(not np.isnan(e).any() and float(e.max()) <= self.tol * factor * sc,
                    "{}, {}: the distributions differ by {:.3e} at (k, cell) {}", name, when, float(e.max()),
                    tuple(int(i) for i in np.unravel_index(np.argmax(e), e.shape)))
            if moments:
                for u, m0 in mom.items():
                    m = np.array(sim.m[lbm.sym(u)])
                    e = np.where(fl, np.abs(m - m0), 0)
                    require(not np.isnan(e).any() and float(e.max()) <= self.tol * factor * msc,
                            "{}, {}: the moment {} differs by {:.3e}", name, when, u, float(e.max()))
        return True

    def cond(self, f):
        """with a relative velocity, the matrices in the moving frame amplify the round-off"""
        if not self.case["spec"].get("rel_vel"):
            return 1.0
        r = self.ref
        keep = r.f
        r.cond_u = 1.0
        g = np.where(self.fluid, f, 0)
        try:
            r.collide(g)
        finally:
            r.f = keep
        return r.cond_u if r.cond_u < 1e5 else np.inf

    def perturb(self):
        F = self.ref.f + bc.noise(self.case, self.q, self.ref.n)
        for sim in self.sims:
            for k in range(self.q):
                sim.F[k][...] = F[k]

    def run(self, step=None):
        """the initial data, then some steps from distributions which are not at equilibrium"""
        if not self.compare("initialization", moments=True):
            return False
        self.perturb()
        for it in range(self.case["steps"]):
            # what is not specified spreads
            self.fluid = self.fluid & ~self.bad
            self.fluid &= ~spread(self.all & ~self.fluid, lbm.vmax_of(self.case["spec"])) if it else True
            for i, sim in enumerate(self.sims):
                if step is None:
                    sim.one_time_step()
                else:
                    step(i, sim)
            if not self.compare("step %d" % (it + 1), 10 ** it, moments=it + 1 == self.case["steps"]):
                return False
        ts = [s.t for s in self.sims]
        require(max(ts) - min(ts) <= 1e-12 * max(1, abs(ts[0])), "the times are {}", ts)
        return True
