"""Equivalent equations."""
RULE = "a term of second order which is not zero"
ASSUMPTIONS = ["no source terms (the code says that they are not handled)",
               "the relaxation parameters of the moments which are not conserved are not zero",
               "only the symmetric part of the matrices of second order is observable"]
import itertools

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from vlib import amp, bc, lbm
from vlib.core import Family, info, require

import pylbm


def check(case):
    spec = case["spec"]
    dim = spec["dim"]
    scheme = pylbm.Scheme(lbm.scheme_dict(spec))
    eq = pylbm.EquivalentEquation(scheme)
    cons = [str(c) for c in eq.consm]
    require(sorted(cons) == sorted(sum((s["cons"] for s in spec["schemes"]), [])), "conserved moments {}", cons)
    u0 = dict(zip(sorted(cons), case["u0"]))
    n = len(cons)
    resp = amp.Response(spec, u0)
    la = lbm.la_value(spec)
    values = {lbm.sym(k): v for k, v in spec["params"].items()}
    values.update({lbm.sym(k): v for k, v in u0.items()})
    sym = [lbm.sym(c) for c in cons]

    def numeric(m):
        m = sp.Matrix(m).subs(values)
        require(not m.free_symbols, "{} is left in the coefficients", m.free_symbols)
        return np.array(m.evalf(30)).astype(complex).real.astype(float)

    require(len(eq.coeff_order1) == dim and len(eq.coeff_order2) == dim and all(len(l) == dim for l in eq.coeff_order2), "sizes")
    A, C = [], []
    for d in range(dim):
        c1 = sp.Matrix(eq.coeff_order1[d])
        require(c1.shape == (n, 1), "shape {} of the coefficients of order 1", c1.shape)
        A.append(numeric(c1.jacobian(sym)))
        C.append([])
        for e in range(dim):
            require(eq.coeff_order2[d][e].shape == (n, n), "shape of the coefficients of order 2")
            C[-1].append(numeric(eq.coeff_order2[d][e]))
    dt = 1 / la  # (cells of size 1)
    # one time step multiplies a long wave of wave vector k by 1 + L1 + L2 + ...
    scale = max(1.0, max(np.abs(np.array(A)).max(), np.abs(np.array(C)).max() * dt, la) * dt)
    dirs = [d for d in itertools.product((-1, 0, 1), repeat=dim) if any(d)]
    nontrivial = False
    for k in dirs:
        L1, L2 = resp.reduced(k, cons)
        if resp.cond > 1e5 or resp.scale > 1e6:
            return info(False, "ill conditioned")
        require(resp.fixed <= 1e-9 * max(1, np.abs(resp.ref.f).max()), "the uniform state moves by {}", resp.fixed)
        require(resp.defect < 1e-6 * resp.cond, "the conserved moments are not conserved: {}", resp.defect)
        E1 = -1j * dt * sum(k[d] * A[d] for d in range(dim))
        E2 = dt * dt * sum(k[d] * k[e] * C[d][e] for d in range(dim) for e in range(dim))
        tol = 1e-8 * resp.cond * scale ** 2 + 1e-7 * scale ** 2
        require(np.abs(E1 - L1).max() <= tol, "order 1, wave vectors along {}: {} instead of {} for {}", k,
                E1.tolist(), L1.tolist(), cons)
        require(np.abs(E2 - L2).max() <= tol, "order 2, wave vectors along {}: {} instead of {} for {}", k,
                E2.tolist(), L2.tolist(), cons)
        nontrivial |= bool(np.abs(L2).max() > 1e-6)
    text = str(eq)
    require(len(text) > 0, "nothing printed")
    return info(nontrivial, "dim%d" % dim, "conserved %d" % n, "schemes %d" % len(spec["schemes"]),
                "relative velocity" if spec.get("rel_vel") else "fixed")


@st.composite
def cases(draw, dim, rel=False, **k):
    spec = draw(lbm.schemes(dim, coords=False, time=False, sources=False, **k))
    for s in spec["schemes"]:
        for i in range(len(s["v"])):
            if i not in s["pos"] and s["s"][i] in ("0", "0.0", "0."):
                s["s"][i] = "1.75"
        # (the functions have to be smooth)
        s["eq"] = [e.replace("Abs(", "cos(") for e in s["eq"]]
    if rel:
        bc.draw_rel_vel(draw, spec)
    nc = sum(len(s["cons"]) for s in spec["schemes"])
    return {"spec": spec, "u0": [draw(st.integers(-8, 8)) / 8 for _ in range(nc)]}


@st.composite
def diagonal(draw):
    """a frame which moves the fluxes of the conserved moments: with diagonal velocities"""
    v = draw(st.sampled_from([list(range(9)), [0, 1, 2, 5], [0, 1, 2, 3, 5, 6], [1, 2, 3, 4, 5, 6, 7, 8], [0, 1, 3, 5, 6, 7, 8]]))
    case = draw(cases(2, rel=True, given=[v], mix=False, closed=True, nonlinear=draw(st.integers(0, 3)) == 0))
    return case


FAMILIES = [
    Family("linear, 1D", check, cases(1, max_q=5, nonlinear=False), quick=60, thorough=3000),
    Family("linear, 2D", check, cases(2, max_q=9, nonlinear=False), quick=40, thorough=3000, timeout=10),
    Family("linear, 3D", check, cases(3, max_q=7, nonlinear=False), quick=20, thorough=1500, timeout=10),
    Family("nonlinear, 1D", check, cases(1, max_q=5), quick=30, thorough=3000, timeout=10),
    Family("nonlinear, 2D", check, cases(2, max_q=5, max_schemes=1), quick=24, thorough=2000, timeout=10),
    Family("relative velocity, 1D", check, cases(1, rel=True, max_q=5, max_schemes=1, closed=True), quick=24, thorough=1000, timeout=10),
    Family("relative velocity, 2D", check, cases(2, rel=True, max_q=5, max_schemes=1, closed=True), quick=12, thorough=1000, timeout=10),
    Family("relative velocity, diagonal velocities", check, diagonal(), quick=40, thorough=1000, timeout=10),
]
