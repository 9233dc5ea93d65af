"""The linearised evolution of a scheme, measured on a simulation: the response of one time
step to the perturbation of one distribution in one cell, around a uniform state."""
import numpy as np

from . import lbm

import pylbm


class Response:
    """K[i, j, d]: one step adds K[i, j, d] to f_i(x + d) when 1 is added to f_j(x)."""

    def __init__(self, spec, u0, sorder=None):
        dim = spec["dim"]
        vmax = lbm.vmax_of(spec)
        self.bx = {"n": [2 * v + 1 for v in vmax], "dx": 1.0, "org": [0.0] * dim}
        init = {c: float(u) for c, u in u0.items()}
        sim = pylbm.Simulation(lbm.sim_dict(spec, self.bx, init=init), **({"sorder": sorder} if sorder else {}))
        self.ref = lbm.Ref(spec, self.bx)
        self.ref.init_moments(u0)
        self.q = self.ref.q
        base = self.ref.f.copy()
        self.fixed = float(np.max(np.abs(self.step(sim, base) - base)))

        def derivative(j, h):
            d = np.zeros_like(base)
            d[(j,) + (0,) * dim] = h
            return (self.step(sim, base + d) - self.step(sim, base - d)) / (2 * h)

        # the conserved moments move by about 1/256
        top = max(float(np.max(np.abs(s["M"][s["pos"]]))) for s in self.ref.sch)
        h = 2.0 ** -8 / 2 ** np.ceil(np.log2(max(1.0, top)))
        K = []
        for j in range(self.q):
            a = derivative(j, h)
            b = derivative(j, h / 2)
            K.append((4 * b - a) / 3)
        self.K = np.stack(K, axis=1)          # [i, j, *n]
        self.scale = max(1.0, float(np.max(np.abs(self.K))))
        # displacements, between -vmax and vmax
        d = [np.where(np.arange(n) > n // 2, np.arange(n) - n, np.arange(n)) for n in self.bx["n"]]
        self.d = np.stack(np.meshgrid(*d, indexing="ij"), axis=-1).reshape(-1, dim).astype(float)
        self.Kd = self.K.reshape(self.q, self.q, -1)

    def step(self, sim, f):
        for k in range(self.q):
            sim.F[k][...] = f[k]
        sim.one_time_step()
        return lbm.get_F(sim, self.q)

    def amplification(self, xi):
        """of the wave exp(i xi.x)"""
        return self.Kd @ np.exp(-1j * (self.d @ np.asarray(xi, dtype=float)))

    def taylor(self, direction):
        """G0, G1, G2 with G(e direction) = G0 + e G1 + e^2 G2 + ..."""
        p = -1j * (self.d @ np.asarray(direction, dtype=float))
        return [self.Kd @ (p ** k / (1, 1, 2)[k]) for k in range(3)]

    def reduced(self, direction, cons):
        """The first two coefficients of the logarithm of the evolution (over one time step) of the
        conserved moments in a long wave, the others following them."""
        # moments: the conserved ones first, in the order asked
        M = np.zeros((self.q, self.q))
        for s in self.ref.sch:
            M[s["sl"], s["sl"]] = s["M"]
        first = [self.ref.index[c] for c in cons]
        order = first + [i for i in range(self.q) if i not in first]
        M = M[order]
        iM = np.linalg.inv(M)
        G0, G1, G2 = [M @ g @ iM for g in self.taylor(direction)]
        n = len(first)
        U, N = slice(0, n), slice(n, None)
        eye = np.eye(self.q - n)
        # G0 = [[1, 0], [S J, 1 - S]]
        S = eye - G0[N, N]
        iS = np.linalg.inv(S)
        self.defect = float(np.max(np.abs(G0[U] - np.eye(n, self.q))))
        P0 = iS @ G0[N, U]
        R1 = G1[U, U] + G1[U, N] @ P0
        P1 = iS @ (G1[N, U] + G1[N, N] @ P0 - P0 @ R1)
        R2 = G2[U, U] + G2[U, N] @ P0 + G1[U, N] @ P1
        self.cond = max(np.linalg.cond(M), np.linalg.cond(S) if S.size else 1.0)
        return R1, R2 - R1 @ R1 / 2
