"""Stability analysis."""
RULE = "a non zero wave vector multiplies the perturbations by eigenvalues of several modulus"
ASSUMPTIONS = ["no source terms", "smooth equilibria (linearisation)",
               "the verdict is checked when it does not depend on round-off: an eigenvalue of modulus greater than 1.001, or all of them smaller than 0.999 except the conserved ones for the constant wave"]
import numpy as np
import sympy as sp
from hypothesis import strategies as st

from vlib import amp, bc, lbm
from vlib.core import Family, info, require

import pylbm

IN, ON, OUT = 0, 1, 2


def poly_close(a, b, tol):
    pa, pb = np.poly(a), np.poly(b)
    r = max(1.0, np.abs(b).max(), np.abs(a).max())
    w = r ** np.arange(len(pa))
    return bool(np.all(np.abs(pa - pb) <= tol * w * 2 ** len(pa)))


def check(case):
    """the calls are made one after the other on the same object"""
    spec = case["spec"]
    hidden = case["hidden"]          # parameters which are given afterwards
    desc = lbm.scheme_dict(spec)
    extra = []
    for p in hidden:
        if p in spec["params"] and p != "LA":
            extra.append(p)
            desc["parameters"].pop(lbm.sym(p))
    before = dict(desc.get("parameters", {}))
    scheme = pylbm.Scheme(desc)
    stab = pylbm.Stability(scheme)
    done = []
    out = None
    for call in case["calls"]:
        sp_ = dict(spec, params=dict(spec["params"]))
        for p, v in call["params"].items():
            if p in extra:
                sp_["params"][p] = v
            elif p in spec["params"] and p != "LA" and case["slide"]:
                # as the sliders of the figure do
                stab.param[lbm.sym(p)] = v
                spec = dict(spec, params=dict(spec["params"], **{p: v}))
                sp_["params"][p] = v
        r, args, res = one(case, sp_, stab, call, {lbm.sym(p): sp_["params"][p] for p in extra})
        if not case["slide"]:
            require(desc.get("parameters", {}) == before, "the description is modified")
        done.append((args, res))
        out = r if out is None or r["nontrivial"] else out
    # again, the first analysis
    if case["again"] and not case["slide"] and len(done) > 1:
        args, (v_xi, eigs, verdict) = done[0]
        v2, e2 = stab.eigenvalues(*args)
        require(np.array_equal(v2, v_xi) and np.array_equal(e2, eigs) and stab.is_stable_l2 == verdict, "the first analysis, again: different")
    out["labels"].append("calls %d" % len(done))
    return out


def one(case, spec, stab, call, extra):
    dim = spec["dim"]
    cons = [str(c) for c in stab.consm]
    u0 = dict(zip(sorted(cons), call["u0"]))
    args = [[u0[c] for c in cons], call["n_wv"]] + ([extra] if extra else [])
    v_xi, eigs = stab.eigenvalues(*args)
    verdict = stab.is_stable_l2
    result = (v_xi, eigs, verdict)
    n = v_xi.shape[1]
    q = lbm.nvtot(spec)
    require(v_xi.shape == (dim, n) and eigs.shape == (n, q), "shapes {} {}", v_xi.shape, eigs.shape)
    # the samples are all the directions of space, over the whole period
    require(len({tuple(np.round(x, 9)) for x in v_xi.T}) == n, "several times the same wave vector")
    if call["n_wv"] >= 16:
        quarters = {tuple(np.floor((x % (2 * np.pi) + 1e-9) / (np.pi / 2)).astype(int)) for x in v_xi.T}
        require(len(quarters) == 4 ** dim, "wave vectors only in {} of the quarters of the periods", len(quarters))
    resp = amp.Response(spec, u0)
    if resp.scale > 1e4 or lbm.conds(resp.ref) > 1e4 or not np.all(np.isfinite(resp.K)):
        return info(False, "ill conditioned"), args, result
    tol = 1e-8 * max(1.0, resp.scale ** 2) * lbm.conds(resp.ref)
    picks = range(n) if n <= 24 else sorted({0, 1, n // 2, n - 1} | {(case["pick"] * (i + 1) * 7919) % n for i in range(16)})
    sign = set((1, -1))
    nontrivial = False
    for k in picks:
        ok = set()
        for s in (1, -1):
            g = np.linalg.eigvals(resp.amplification(s * v_xi[:, k]))
            if poly_close(eigs[k], g, tol):
                ok.add(s)
        sign &= ok
        require(sign, "wave vector {}: eigenvalues {} instead of {}", v_xi[:, k].tolist(), np.sort_complex(eigs[k]).tolist(),
                np.sort_complex(g).tolist())
        mod = np.abs(g)
        nontrivial |= bool(k and mod.max() - mod.min() > 1e-3)
    # the verdict
    rho = np.array([np.abs(np.linalg.eigvals(resp.amplification(v_xi[:, k]))) for k in range(n)])
    rho.sort(axis=1)
    nc = len(cons)
    zero = np.all(np.abs(v_xi) < 1e-12, axis=0)
    label = "unclear"
    if rho.max() > 1.001:
        require(verdict == OUT, "stable ({}) although an eigenvalue is {}", verdict, rho.max())
        label = "unstable"
    elif rho[~zero].size == 0 or rho[~zero].max() < 0.999:
        # at the zero wave vector, 1 is an eigenvalue of order nc, which is at the round-off when it is large
        if not zero.any() or nc <= 2 and (q == nc or rho[zero][:, :q - nc].max() < 0.999):
            require(verdict != OUT, "unstable although the eigenvalues are {}", rho.tolist())
            if nc == 1 or not zero.any():
                require(verdict == IN, "not declared stable although the eigenvalues are {}", rho.tolist())
            label = "stable"
    return info(nontrivial, "dim%d" % dim, label, "conserved %d" % nc, "schemes %d" % len(spec["schemes"]),
                "relative velocity" if spec.get("rel_vel") else "fixed", "extra parameters" if extra else "parameters"), args, result


SMALL = ["1", "3/2", "1.25", "1.9", "0.5", "1.75"]


@st.composite
def cases(draw, dim, rel=False, **k):
    spec = draw(lbm.schemes(dim, coords=False, time=False, sources=False, **k))
    calm = draw(st.booleans())
    for s in spec["schemes"]:
        s["eq"] = [e.replace("Abs(", "cos(") for e in s["eq"]]
        for i in range(len(s["v"])):
            if calm and i not in s["pos"]:
                s["s"][i] = draw(st.sampled_from(SMALL))
    if rel:
        bc.draw_rel_vel(draw, spec)
    nc = sum(len(s["cons"]) for s in spec["schemes"])
    calls = [{"u0": [draw(st.integers(-8, 8)) / 8 for _ in range(nc)],
              "n_wv": draw(st.sampled_from({1: [1, 2, 7, 8, 16, 31], 2: [1, 5, 16, 25, 64, 70]}[dim])),
              "params": {} if i == 0 else {"p%d" % k: draw(st.integers(-8, 8)) / 8 for k in range(2) if draw(st.booleans())}}
             for i in range(draw(st.sampled_from([1, 2, 2, 3])))]
    return {"spec": spec, "calls": calls, "hidden": draw(st.sampled_from([[], [], ["p0"], ["p1"]])), "pick": draw(st.integers(1, 1000)),
            "slide": draw(st.booleans()), "again": draw(st.booleans())}


@st.composite
def advection(draw):
    """schemes which are often stable: one conserved moment, small velocities"""
    dim = draw(st.sampled_from([1, 1, 2]))
    v = {1: [[1, 2], [0, 1, 2], [0, 1, 2, 3, 4]], 2: [[1, 2, 3, 4], [0, 1, 2, 3, 4], list(range(9))]}[dim]
    case = draw(cases(dim, rel=draw(st.booleans()), given=[draw(st.sampled_from(v))], mix=False, closed=True, max_cons=draw(st.integers(1, 2)),
                      nonlinear=draw(st.booleans())))
    case["spec"]["la"] = "1"
    case["spec"]["params"].pop("LA", None)
    for s in case["spec"]["schemes"]:
        # fluxes smaller than the velocity of the scheme
        s["polys"] = [p.replace("/LA", "") for p in s["polys"]]
        for i in range(len(s["v"])):
            if i not in s["pos"]:
                s["s"][i] = draw(st.sampled_from(SMALL))
                s["eq"][i] = "(%d/16)*%s" % (draw(st.integers(-6, 6)), s["cons"][draw(st.integers(0, len(s["cons"]) - 1))])
    return case


FAMILIES = [
    Family("1D", check, cases(1, max_q=5), quick=60, thorough=3000, timeout=10),
    Family("2D", check, cases(2, max_q=7, max_schemes=2), quick=40, thorough=2000, timeout=10),
    Family("relative velocity, 1D", check, cases(1, rel=True, max_q=5, max_schemes=1, closed=True), quick=30, thorough=1500, timeout=10),
    Family("relative velocity, 2D", check, cases(2, rel=True, max_q=5, max_schemes=1, closed=True), quick=20, thorough=1500, timeout=10),
    Family("advection", check, advection(), quick=80, thorough=4000, timeout=10),
]
