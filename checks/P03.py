"""Matrices of the moments."""
import copy

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from vlib import lbm
from vlib.core import Family, info, require

import pylbm

RULE = "a scheme with at least two velocities and one moment which is not conserved"
ASSUMPTIONS = ["polynomials of degree at most 9 with distinct velocities, such that the matrix is invertible",
               "the equilibrium of a moment which is not conserved is not the bare symbol of a conserved moment of the same scheme"]


@st.composite
def cases(draw, form):
    dim = draw(st.sampled_from([1, 2, 3] if form != "M" else [1, 2]))
    spec = draw(lbm.schemes(dim, max_q=9 if form == "polynomials" else 5,
                            max_schemes=3 if form == "polynomials" else 1,
                            coords=form == "polynomials", time=False,
                            nonlinear=form == "polynomials"))
    if form in ("M", "feq"):
        spec["params"].pop("LA", None)
        if spec["la"] == "LA":
            spec["la"] = "1"
        spec["schemes"][0]["polys"] = [p.replace("LA", "1") for p in spec["schemes"][0]["polys"]]
    case = {"spec": spec, "form": form, "aslist": draw(st.booleans())}
    # the symbols of the conserved moments may be listed in any order
    case["listing"] = [draw(st.permutations(s["cons"])) for s in spec["schemes"]]
    case["u"] = [draw(st.integers(-8, 8)) / 4 for _ in range(sum(len(s["cons"]) for s in spec["schemes"]))]
    if form == "feq":
        n = len(spec["schemes"][0]["v"])
        case["w"] = [draw(st.integers(-4, 4)) for _ in range(n)]
    return case


def numeric(M, sub):
    return np.array(sp.Matrix(M).subs(sub).evalf(20).tolist(), dtype=float)


def snapshot(d):
    if isinstance(d, dict):
        return {str(k): snapshot(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [type(d).__name__] + [snapshot(x) for x in d]
    return repr(d)


def check(case):
    spec = case["spec"]
    ref = lbm.Ref(spec, {"n": [2] * spec["dim"], "dx": 1.0, "org": [0.0] * spec["dim"]})
    d = lbm.scheme_dict(spec)
    for s, names in zip(d["schemes"], case["listing"]):
        syms = [lbm.sym(n) for n in names]
        s["conserved_moments"] = syms if case["aslist"] or len(syms) > 1 else syms[0]
    M = np.zeros((ref.q, ref.q))
    for s in ref.sch:
        M[s["sl"], s["sl"]] = s["M"]
    if case["form"] == "M":
        sc = d["schemes"][0]
        del sc["polynomials"]
        sc["M"] = sp.Matrix(ref.q, ref.q, lambda i, j: sp.nsimplify(M[i, j]))
    eqs = [e for s in d["schemes"] for e in s["equilibrium"]]
    if case["form"] == "feq":
        # distributions at equilibrium: invM * EQ plus nothing else, written with the velocities
        sc = d["schemes"][0]
        Ms = sp.Matrix(ref.q, ref.q, lambda i, j: sp.nsimplify(M[i, j]))
        feq = Ms.inv() * sp.Matrix(sc.pop("equilibrium"))
        vs = [tuple(int(c) for c in v) for v in ref.V]
        table = dict(zip(vs, feq))
        w = dict(zip(vs, case["w"]))
        # the extra argument scales a part of zero moments: the function must receive it
        sc["feq"] = (lambda v, a: sp.Matrix([(a - 2) * w[tuple(int(c) for c in x)] + table[tuple(int(c) for c in x)] for x in v]), [3 - 1])
        sc["feq"] = list(sc["feq"])
    before = snapshot(d)
    sch = pylbm.Scheme(d)
    require(snapshot(d) == before, "the description is modified")

    sub = {lbm.sym(k): v for k, v in spec["params"].items()}
    tol = 1e-10 * max(1.0, np.abs(M).max())
    allcons = sum([s["cons"] for s in spec["schemes"]], [])
    got = numeric(sch.M_no_swap, sub)
    require(np.allclose(got, M, rtol=0, atol=tol), "matrix of the moments\n{}\ninstead of\n{}", got, M)
    cond = max(np.linalg.cond(s["M"]) for s in ref.sch)
    P = numeric(sch.M, sub)
    iP = numeric(sch.invM, sub)
    require(np.allclose(P @ iP, np.eye(ref.q), rtol=0, atol=1e-11 * cond), "invM is not the inverse of M")
    require(np.allclose(numeric(sch.invM_no_swap, sub) @ got, np.eye(ref.q), rtol=0, atol=1e-11 * cond), "invM_no_swap")
    # one single permutation
    perm = []
    for i in range(ref.q):
        js = [j for j in range(ref.q) if np.allclose(P[i], M[j], rtol=0, atol=tol) and j not in perm]
        require(len(js) >= 1, "row {} of M is not the one of a moment", i)
        perm.append(js[0])
    names = [str(k) for k in sch.consm]
    require(sorted(names) == sorted(allcons), "conserved moments: {}", names)
    require(sorted(sch.consm.values()) == list(range(len(allcons))),
            "the conserved moments are not the first ones: {}", sch.consm)
    for c, i in sch.consm.items():
        require(perm[i] == ref.index[str(c)], "the conserved moment {} is not in row {} of M", c, i)
    usub = {lbm.sym(n): v for n, v in zip(allcons, case["u"])}
    sub.update(usub)
    sub.update({lbm.sym(n): v for n, v in zip("XYZ", (0.3, 0.7, -0.4))})
    vals = lambda v: np.array([float(sp.sympify(x).subs(sub).evalf(20)) for x in v])
    eq = vals(eqs)
    require(np.allclose(vals(sch.EQ), eq[perm], rtol=0, atol=1e-9 * (1 + np.abs(eq).max()) * cond),
            "the equilibria are not in the order of the matrix")
    s = vals([e for x in d["schemes"] for e in x["relaxation_parameters"]])
    require(np.allclose(vals(sch.s), s[perm], rtol=0, atol=1e-12), "the relaxation parameters are not in the order of the matrix")
    require(np.allclose(vals(sch.EQ_no_swap), eq, rtol=0, atol=1e-9 * (1 + np.abs(eq).max()) * cond), "EQ_no_swap")
    require(np.allclose(vals(sch.s_no_swap), s, rtol=0, atol=1e-12), "s_no_swap")
    text = str(sch)
    require(isinstance(text, str) and len(text) > 0, "no text")
    moved = perm != list(range(ref.q))
    return info(ref.q > len(allcons), "dim%d" % spec["dim"], "schemes%d" % len(spec["schemes"]),
                "permuted" if moved else "in order", "la symbolic" if spec["la"] == "LA" else "la number")


FAMILIES = [
    Family("polynomials", check, cases("polynomials"), quick=500, thorough=8000, timeout=15),
    Family("matrix", check, cases("M"), quick=200, thorough=2000, timeout=15),
    Family("feq", check, cases("feq"), quick=300, thorough=3000, timeout=15),
]
