"""Initialisation of the simulations."""
import numpy as np
from hypothesis import strategies as st

from vlib import lbm
from vlib.core import Family, info, require

import pylbm

RULE = "a simulation where some initial value is not a constant, or with more than one conserved moment"
ASSUMPTIONS = ["extra arguments of the functions are given in a tuple, as documented"]


@st.composite
def value(draw, dim):
    kind = draw(st.sampled_from(["int", "float", "f", "f", "args", "args1", "shared", "shared"]))
    if kind == "int":
        return {"kind": kind, "c": draw(st.integers(-5, 5))}
    if kind == "float":
        return {"kind": kind, "c": draw(st.integers(-40, 40)) / 8}
    if kind == "shared":  # one function for several moments, with other arguments
        return {"kind": kind, "c": [draw(st.integers(-8, 8)) / 4, draw(st.integers(-8, 8)) / 4], "n": draw(st.integers(1, 2))}
    c = [draw(st.integers(-8, 8)) / 4 for _ in range(2 * dim + 3)]
    return {"kind": kind, "c": c, "scalar": draw(st.integers(0, 5)) == 0}


def shared1(x, a, b=0.5):
    return a * np.sin(x) + b * x


def shared2(x, y, a, b=0.5):
    return a * np.sin(x + 2 * y) + b * x


def shared3(x, y, z, a, b=0.5):
    return a * np.sin(x + 2 * y - z) + b * x


SHARED = {1: shared1, 2: shared2, 3: shared3}


def evaluate(v, x):
    c = v["c"]
    if v["kind"] == "shared":
        return SHARED[len(x)](*x, *c[:v["n"]])
    if not isinstance(c, list):
        return c
    if v["scalar"]:
        return c[0]
    dim = len(x)
    out = c[0]
    for d in range(dim):
        out = out + c[1 + d] * x[d] * x[(d + 1) % dim] + c[1 + dim + d] * np.sin(x[d])
    return out


def function(v, dim):
    """what the user writes"""
    if v["kind"] in ("int", "float"):
        return v["c"]
    base = dict(v)
    if v["kind"] == "shared":
        return SHARED[dim], tuple(v["c"][:v["n"]])
    if v["kind"] == "f":
        return {1: lambda x: evaluate(base, [x]), 2: lambda x, y: evaluate(base, [x, y]),
                3: lambda x, y, z: evaluate(base, [x, y, z])}[dim]
    if v["kind"] == "args1":
        def g(*a):
            return evaluate(base, a[:-1]) + 100 * a[-1] * (0 if base["scalar"] else a[0])
        return ({1: lambda x, a: g(x, a), 2: lambda x, y, a: g(x, y, a), 3: lambda x, y, z, a: g(x, y, z, a)}[dim], (0.25,))

    def h(x, a, b):
        return evaluate(base, x) + a - 2 * b
    return ({1: lambda x, a, b: h([x], a, b), 2: lambda x, y, a, b: h([x, y], a, b),
             3: lambda x, y, z, a, b: h([x, y, z], a, b)}[dim], (3.0, 0.5))


def expected(v, x):
    e = evaluate(v, x)
    if v["kind"] == "args1" and not v["scalar"]:
        e = e + 25 * x[0]
    if v["kind"] == "args":
        e = e + 2.0
    return e


@st.composite
def cases(draw, backend="numpy"):
    dim = draw(st.sampled_from([1, 1, 2, 2, 3]))
    kind = draw(st.sampled_from(["moments", "moments", "distributions"]))
    spec = draw(lbm.schemes(dim, max_q=9 if dim < 3 else 7, max_schemes=2, time=False, still=True))
    bx = draw(lbm.box(dim, lbm.vmax_of(spec), lo=1, hi=8 if dim < 3 else 4))
    case = {"spec": spec, "box": bx, "inittype": kind, "explicit": draw(st.booleans())}
    if kind == "moments":
        keys = sum([s["cons"] for s in spec["schemes"]], [])
    else:
        keys = [str(k) for k in range(lbm.nvtot(spec))]
    case["init"] = {k: draw(value(dim)) for k in draw(st.permutations(keys)) if draw(st.integers(0, 7)) or len(keys) == 1}
    # functions shared by several unknowns with related arguments: the same ones, in another
    # order, of another sign, one more or less
    shared = [v for v in case["init"].values() if v["kind"] == "shared"]
    for v in shared[1:]:
        o, how = shared[0], draw(st.sampled_from(["other", "same", "swap", "swap", "sign", "n"]))
        if how != "other":
            v["c"], v["n"] = list(o["c"]), o["n"]
        if how == "swap":
            v["c"], v["n"], o["n"] = v["c"][::-1], 2, 2
        elif how == "sign":
            v["c"][0] = -v["c"][0]
        elif how == "n":
            v["n"] = 3 - v["n"]
    case["steps"] = draw(st.integers(0, 2))
    case["backend"] = backend
    case["lazy"] = draw(st.booleans())
    return case


def check(case):
    spec, bx = case["spec"], case["box"]
    dim = spec["dim"]
    vmax = lbm.vmax_of(spec)
    d = lbm.sim_dict(spec, bx, inittype=case["inittype"], backend=case["backend"])
    if case["inittype"] == "moments" and not case["explicit"]:
        del d["inittype"]
    moments = case["inittype"] == "moments"
    d["init"] = {(lbm.sym(k) if moments else int(k)): function(v, dim) for k, v in case["init"].items()}
    sim = pylbm.Simulation(d)
    require(sim.t == 0 and sim.nt == 0, "the time is {} at the beginning", sim.t)
    # the reference on the whole grid, with the halo
    wide = {"n": [n + 2 * v for n, v in zip(bx["n"], vmax)], "dx": bx["dx"],
            "org": [o - v * bx["dx"] for o, v in zip(bx["org"], vmax)]}
    ref = lbm.Ref(spec, wide)
    tol = 1e-10 * max(10.0, lbm.conds(ref))
    if moments:
        m = ref.init_moments({k: expected(v, ref.x) for k, v in case["init"].items()})
        f = ref.f
        sc = lbm.scale_of(m, f)
    else:
        f = np.zeros([ref.q] + wide["n"])
        for k, v in case["init"].items():
            f[int(k)] = expected(v, ref.x)
        m = ref.f2m(f)
        sc = lbm.scale_of(m, f)
    inner = tuple(slice(v, v + n) for v, n in zip(vmax, bx["n"]))
    for k in range(ref.q):
        got = np.array(sim.F_halo[k])
        if not moments:
            require(np.abs(got - f[k]).max() <= 1e-13 * sc, "distribution {} is not the given one", k)
        require(lbm.close(got, f[k], tol, sc), "distribution {}: error {}", k, np.abs(got - f[k]).max() if got.shape == f[k].shape else got.shape)
        require(lbm.close(np.array(sim.F[k]), f[k][inner], tol, sc), "distribution {} in the interior", k)
    for c in ref.allcons:
        e = m[ref.index[c]]
        got = np.array(sim.m_halo[lbm.sym(c)])
        if moments:
            require(np.abs(got - e).max() <= 1e-12 * sc, "moment {} is not the given one", c)
        require(lbm.close(got, e, tol, sc), "moment {}: error {}", c, np.abs(got - e).max() if got.shape == e.shape else got.shape)
        require(lbm.close(np.array(sim.m[lbm.sym(c)]), e[inner], tol, sc), "moment {} in the interior", c)
    # all the moments, in any order
    allm = np.array([sim.m_halo[k] for k in range(ref.q)])
    a = np.sort(allm.reshape(ref.q, -1), axis=0)
    b = np.sort(m.reshape(ref.q, -1), axis=0)
    require(np.abs(a - b).max() <= tol * sc, "the set of the moments is not the one expected (equilibrium)")
    for i in range(case["steps"]):
        sim.one_time_step()
        require(sim.nt == i + 1 and abs(sim.t - (i + 1) * ref.dt) <= 1e-13 * sim.t, "time {} after {} steps", sim.t, i + 1)
    if case["lazy"] and case["steps"] and case["backend"] == "numpy":
        # the initialisation is done by the first step
        late = pylbm.Simulation(d, initialize=False)
        require(late.t == 0 and late.nt == 0, "the time is {} before the initialisation", late.t)
        for i in range(case["steps"]):
            late.one_time_step()
        for k in range(ref.q):
            require(np.array_equal(np.array(late.F[k]), np.array(sim.F[k]), equal_nan=True), "distribution {} after {} steps when the first one "
                    "does the initialisation", k, case["steps"])
    kinds = sorted({v["kind"] for v in case["init"].values()})
    return info(len(ref.allcons) > 1 or set(kinds) - {"int", "float"}, "dim%d" % dim, case["inittype"], *kinds)


FAMILIES = [Family("initialisation", check, cases(), quick=400, thorough=10000, timeout=10),
            Family("initialisation, compiled", check, cases("cython"), quick=32, thorough=1000, timeout=120, shrink=False)]
