"""One time step = the documented scheme (reference implementation, periodic domains)."""
RULE = 'a scheme whose solution takes more than two distinct values (not a uniform zero state)'
ASSUMPTIONS = ['parameters bounded so that the symbolic computations of sympy end within the time limit of a case; cases over the limit are counted as skipped', 'with a relative velocity: no source terms (known finding of P20) and conserved moments whose span does not depend on the frame', 'runs are compared while the solution stays below 1e6, and with a relative velocity while the matrices in the moving frame have a condition number below 1e5']
import numpy as np
from hypothesis import strategies as st

from vlib import lbm
from vlib.core import Family, Known, info, require

import pylbm


@st.composite
def cases(draw, dims=(1, 2, 3), rel=False, max_q=9, max_schemes=2, hi=7, hi3=4, nsteps=3):
    dim = draw(st.sampled_from(dims))
    spec = draw(lbm.schemes(dim, max_q=max_q, sources=not rel, max_schemes=max_schemes,
                            coords=True, nonlinear=True, closed=rel, still=True))
    if rel:
        cons = spec["schemes"][0]["cons"]
        spec["rel_vel"] = [draw(st.sampled_from(
            ["0", "1/4", "-0.5", "1/3"] + ["p0"] * ("p0" in spec["params"]) +
            ["%s/4" % c for c in cons] + ["%s/(3+%s**2)" % (cons[-1], cons[0])])) for _ in range(dim)]
    bx = draw(lbm.box(dim, lbm.vmax_of(spec), hi=hi if dim < 3 else hi3))
    cons = sum([s["cons"] for s in spec["schemes"]], [])
    return {
        "spec": spec, "box": bx,
        "init": {c: draw(lbm.field(dim)) for c in cons},
        "noise": draw(st.integers(0, 3)),
        "steps": draw(st.integers(1, nsteps)),
        "backend": "numpy",
    }


def perturb(case, q, n):
    """a deterministic perturbation of the distributions, so that they are not at equilibrium"""
    if not case["noise"]:
        return None
    g = np.arange(q * int(np.prod(n)), dtype=float).reshape([q] + list(n))
    return 0.2 * np.sin(case["noise"] * 12.9898 * (g + 1) + 0.37 * g * g)


@st.composite
def extra_cases(draw):
    """parameters of the description given (and changed) during the simulation"""
    case = draw(cases(max_q=6).filter(lambda c: any(p != "LA" for p in c["spec"]["params"])))
    names = [p for p in case["spec"]["params"] if p != "LA"]
    case["changes"] = [{"how": draw(st.sampled_from(["set", "kwargs"])),
                        "p": {p: draw(st.integers(-8, 8)) / 8 for p in names}} for _ in range(case["steps"])]
    case["noise"] = 0
    case["LA_extra"] = draw(st.booleans())
    return case


def check(case):
    spec, bx = case["spec"], case["box"]
    ref = lbm.Ref(spec, bx)
    fns = {c: lbm.field_fn(v) for c, v in case["init"].items()}
    d = lbm.sim_dict(spec, bx, init=fns, backend=case["backend"])
    if "changes" in case:
        fixed = {} if case["LA_extra"] else {k: v for k, v in d["parameters"].items() if str(k) == "LA"}
        extra = {k: v for k, v in d["parameters"].items() if k not in fixed}
        d["parameters"] = fixed
        sim = pylbm.Simulation(d, initialize=False)
        sim.extra_parameters = extra
        sim.initialization()
    else:
        sim = pylbm.Simulation(d)
    m0 = ref.init_moments({c: f(*ref.x) for c, f in fns.items()})
    tol = 1e-10 * max(10.0, lbm.conds(ref))
    require(lbm.close(lbm.get_F(sim, ref.q), ref.f, tol), "initial distributions differ")
    p = perturb(case, ref.q, ref.n)
    if p is not None:
        for k in range(ref.q):
            sim.F[k][...] = ref.f[k] + p[k]
        ref.f = ref.f + p
    for it in range(case["steps"]):
        before = ref.f
        kwargs = {}
        if "changes" in case and it:  # the first step initialises
            ch = case["changes"][it]
            ref.vals.update(ch["p"])
            if ch["how"] == "set":
                sim.extra_parameters.update({lbm.sym(k): v for k, v in ch["p"].items()})
            else:
                kwargs = ch["p"]
        sim.one_time_step(**kwargs)
        ref.step()
        if not np.all(np.isfinite(ref.f)) or lbm.scale_of(ref.f) > 1e6 or ref.cond_u > 1e5:
            return info(it > 0, "stopped")
        got = lbm.get_F(sim, ref.q)
        sc = lbm.scale_of(ref.f, before)
        require(lbm.close(got, ref.f, (tol + 1e-14 * ref.cond_u ** 1.5) * 10 ** min(it, 3), sc),
                "distributions differ from the reference after step {}: {:.3e} (scale {:.2e})",
                it + 1, float(np.abs(got - ref.f).max()) if got.shape == ref.f.shape else -1, sc)
        ref.f = got.copy()  # errors do not accumulate
        require(abs(sim.t - ref.t) <= 1e-12 * max(1, abs(ref.t)), "time is {} instead of {}", sim.t, ref.t)
    m = ref.f2m(ref.f)
    for c in ref.allcons:
        require(lbm.close(sim.m[lbm.sym(c)], m[ref.index[c]], tol, lbm.scale_of(m)),
                "moment {} is not the one of the distributions", c)
    labels = ["dim%d" % spec["dim"], "schemes%d" % len(spec["schemes"])]
    labels += ["source"] * any(s.get("src") for s in spec["schemes"])
    txt = str(spec["schemes"])
    labels += ["t"] * ("t*" in txt or "*t" in txt)
    labels += ["rel_vel"] * bool(spec.get("rel_vel"))
    nontriv = any(float(x) != 0 for s in spec["schemes"] for x in [1]) and len(set(ref.f.ravel().round(12))) > 2
    return info(nontriv, *labels)


FAMILIES = [
    Family("parameters", check, extra_cases(), quick=60, thorough=2000, timeout=15),
    Family("scheme", check, cases(), quick=560, thorough=12000, timeout=15),
    Family("many schemes", check, cases(max_q=5, max_schemes=5), quick=80, thorough=3000, timeout=20),
    Family("large grids, many steps", check, cases(max_q=9, hi=70, hi3=18, nsteps=30), quick=80, thorough=3000, timeout=30),
    Family("relative velocity", check, cases(rel=True, max_q=6, max_schemes=1), quick=120, thorough=2000, timeout=15),
    Family("relative velocity, large", check, cases(rel=True, max_q=9, max_schemes=1), quick=16, thorough=1000, timeout=30),
]
