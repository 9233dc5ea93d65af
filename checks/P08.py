"""Model-based test of the reads, writes and elementary phases of a simulation."""
import numpy as np
from hypothesis import strategies as st

from vlib import bc, compare, lbm
from vlib.core import Family, info, require

import pylbm
from pylbm.storage import Array

RULE = "at least one time step or one phase followed by a read, on a solution which is not uniform"
ASSUMPTIONS = ["a write through the view sim.F[k] after a read of the moments is followed by f2m(), as it can not be detected",
               "without relative velocity (the elementary phases work in the fixed frame)",
               "the time given to the sources by the elementary phases is the current time of the simulation",
               "with boundary conditions, cells for which a condition reads a cell which is not fluid are not compared"]

OPS = ["step", "step", "step", "read", "read", "read", "readF", "set_m", "set_m", "set_m_view", "set_F", "set_F", "set_F_view", "add_F", "add_m", "user", "f2m", "m2f", "m2f",
       "equilibrium", "relaxation", "source", "stream", "init", "readall", "roundtrip", "eqtwice"]


@st.composite
def programs(draw, compiled=False):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    spec = draw(lbm.schemes(dim, max_q=9 if dim < 3 else 7))
    bc.no_idle(spec)
    bx = draw(lbm.box(dim, lbm.vmax_of(spec), hi=5 if dim < 3 else 3))
    q = lbm.nvtot(spec)
    cons = [c for s in spec["schemes"] for c in s["cons"]]
    op = st.tuples(st.sampled_from(OPS), st.integers(0, q - 1), st.sampled_from(cons), st.integers(0, 7))
    return {"spec": spec, "box": bx, "init": {c: draw(lbm.field(dim)) for c in cons},
            "backend": "cython" if compiled else "numpy",
            "inittype": draw(st.sampled_from(["moments", "moments", "distributions"])),
            "ops": [draw(op) for _ in range(draw(st.integers(20, 60) if compiled else st.integers(1, 24)))]}


def values(seed, n):
    g = np.arange(int(np.prod(n)), dtype=float).reshape(n)
    return 0.5 * np.sin(3.7 * (seed + 1) * (g + 1)) + seed / 8


def check(case):
    spec, bx = case["spec"], case["box"]
    ref = lbm.Ref(spec, bx)
    cons = ref.allcons
    vmax = lbm.vmax_of(spec)
    inner = tuple(slice(v, v + n) for v, n in zip(vmax, ref.n))
    fns = {c: lbm.field_fn(v) for c, v in case["init"].items()}
    init = fns
    if case["inittype"] == "distributions":
        init = {k: fns[cons[k % len(cons)]] for k in range(ref.q)}
    sim = pylbm.Simulation(lbm.sim_dict(spec, bx, init=init, inittype=case["inittype"], backend=case["backend"]))
    # the rows of the moments in the arrays are those of the matrix of the scheme
    M = np.zeros((ref.q, ref.q))
    for x in ref.sch:
        M[x["sl"], x["sl"]] = x["M"]
    P = np.array(sim.scheme.M.subs([(lbm.sym(a), b) for a, b in spec["params"].items()])).astype(float)
    perm = []
    for i in range(ref.q):
        perm.append([j for j in range(ref.q) if j not in perm and np.allclose(P[i], M[j], rtol=0, atol=1e-9 * np.abs(M).max())][0])
    cond = max(10.0, lbm.conds(ref))
    tol = 1e-11 * cond

    def initial():
        if case["inittype"] == "moments":
            m = ref.init_moments({c: f(*ref.x) for c, f in fns.items()})
        else:
            ref.f = np.array([np.broadcast_to(f(*ref.x), ref.n) for f in init.values()])
            m = ref.f2m(ref.f)
        return m

    m = initial()
    stale = False
    err = tol  # accumulated relative tolerance
    nread = nstep = 0
    big = lbm.scale_of(ref.f, m)
    nt = 0

    def fresh():
        nonlocal m, stale
        if stale:
            m, stale = ref.f2m(ref.f), False

    def same(a, b, what):
        require(np.shape(a) == np.shape(b), "op {} {}: {} has the shape {}", i, op, what, np.shape(a))
        e = float(np.max(np.abs(np.asarray(a) - b)))
        require(e <= err * big, "op {} {}: {} differs by {:.3e}", i, op, what, e)

    for i, (op, k, u, sd) in enumerate(case["ops"]):
        s = lbm.sym(u)
        row = ref.index[u]
        if op == "step":
            sim.one_time_step()
            ref.step()
            nt += 1
            stale = True
            nstep += 1
            require(sim.nt == nt and abs(sim.t - ref.t) <= 1e-12 * max(1, abs(ref.t)), "time {} after {} steps", sim.t, sim.nt)
        elif op == "read":
            fresh()
            same(sim.m[s], m[row], "the moment %s" % u)
            nread += 1
        elif op == "readall":
            fresh()
            for r in range(ref.q):
                same(sim.m[r] if sd % 2 else np.array(sim.m_halo[r])[inner], m[perm[r]], "the moment %d" % r)
            nread += 1
        elif op == "readF":
            same(sim.F[k], ref.f[k], "the distribution %d" % k)
            same(np.array(sim.F_halo[k])[inner], ref.f[k], "the distribution %d with the halo" % k)
        elif op in ("set_m", "set_m_view"):
            fresh()
            if op == "set_m_view":
                val = values(sd, ref.n)
                sim.m[s][...] = val
            elif sd % 3 == 0:
                val = sd / 4.0
                sim.m_halo[s if sd % 2 else perm.index(row)] = val
            else:
                val = np.pad(values(sd, ref.n), [(v, v) for v in vmax], mode="edge")
                sim.m_halo[s if sd % 2 else perm.index(row)] = val
                val = val[inner]
            m = m.copy()
            m[row] = val
        elif op == "set_F":
            if sd % 3 == 0:
                val = sd / 4.0
                sim.F_halo[k] = val
            else:
                val = np.pad(values(sd, ref.n), [(v, v) for v in vmax], mode="edge")
                sim.F_halo[k] = val
                val = val[inner]
            ref.f = ref.f.copy()
            ref.f[k] = val
            stale = True
        elif op == "set_F_view":
            val = values(sd, ref.n)
            sim.F[k][...] = val
            ref.f = ref.f.copy()
            ref.f[k] = val
            if not stale:
                sim.f2m()
                m = ref.f2m(ref.f)
        elif op == "add_F":  # in place
            ref.f = ref.f.copy()
            if sd % 2:
                sim.F_halo[k] += sd / 8
                ref.f[k] += sd / 8
            else:
                sim.F_halo[k] *= 0.5 + sd / 8
                ref.f[k] *= 0.5 + sd / 8
            stale = True
        elif op == "add_m":
            fresh()
            m = m.copy()
            sim.m_halo[s] += sd / 8 - 0.5
            m[row] += sd / 8 - 0.5
        elif op == "user":  # the arrays of the user: those of the simulation do not change
            arrays = [Array(ref.q, list(sim.container.m.nspace), 0, sim.container.sorder) for _ in range(2)]
            val = np.array([values(sd + r, arrays[0].nspace) for r in range(ref.q)])
            for r in range(ref.q):
                arrays[0][perm.index(r)] = val[r]
            got = val[(slice(None),) + inner]
            if sd % 2:
                sim.equilibrium(arrays[0])
                got = ref.equilibrium(got)
                for r in range(ref.q):
                    same(arrays[0][perm.index(r)][inner], got[r], "the moment %d of the user at equilibrium" % r)
            sim.m2f(arrays[0], arrays[1])
            want = ref.m2f(got)
            for r in range(ref.q):
                same(arrays[1][r][inner], want[r], "the distribution %d of the user" % r)
                same(sim.F[r], ref.f[r], "the distribution %d" % r)
        elif op == "f2m":
            sim.f2m()
            m, stale = ref.f2m(ref.f), False
        elif op == "m2f":
            fresh()
            sim.m2f()
            ref.f = ref.m2f(m)
        elif op == "equilibrium":
            fresh()
            sim.equilibrium()
            m = ref.equilibrium(m)
        elif op == "eqtwice":
            fresh()
            sim.equilibrium()
            one = [np.array(sim.m[r]) for r in range(ref.q)]
            sim.equilibrium()
            m = ref.equilibrium(m)
            for r in range(ref.q):
                same(sim.m[r], one[r], "the moment %d at equilibrium twice" % r)
        elif op == "relaxation":
            fresh()
            sim.relaxation()
            r = ref.relax_rates(m)
            m = (1 - r) * m + r * ref.equilibrium(m)
        elif op == "source":
            fresh()
            sim.source_term()
            m = ref.source(m)
        elif op == "stream":
            sim.boundary_condition()
            sim.transport()
            ref.f = ref.transport(ref.f)
            stale = True
        elif op == "roundtrip":
            fresh()
            before = m.copy()
            sim.m2f()
            sim.f2m()
            ref.f = ref.m2f(m)
            for r in range(ref.q):
                same(sim.m[r], before[perm[r]], "the moment %d after m2f, f2m" % r)
        elif op == "init":
            sim.initialization()
            m, stale = initial(), False
        if not np.all(np.isfinite(ref.f)) or not np.all(np.isfinite(m)):
            break
        big = max(big, lbm.scale_of(ref.f, m))
        if big > 1e5:
            break
        # resynchronisation: the errors do not accumulate
        if op in ("step", "stream", "m2f", "init", "roundtrip"):
            got = lbm.get_F(sim, ref.q)
            same(got, ref.f, "the distributions")
            ref.f = got
        if op in ("equilibrium", "relaxation", "source", "f2m", "eqtwice"):
            got = np.array([np.array(sim.m[perm.index(r)]) for r in range(ref.q)])
            same(got, m, "the moments")
            m = got
        big = lbm.scale_of(ref.f, m)
    return info(nread and (nstep or any(o[0] in ("stream", "relaxation") for o in case["ops"])),
                "dim%d" % spec["dim"], *sorted({o[0] for o in case["ops"]}))


@st.composite
def phase_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    case = draw(bc.problems(dim, max_q=9 if dim < 3 else 7, max_elems=2, steps=3))
    case["algo"] = draw(st.sampled_from(["pull", "base"]))
    return case


def check_phases(case):
    """the elementary phases, one after the other, are one time step"""
    sims = [compare.simulate(case), compare.simulate(case, algo=case["algo"])]

    def step(i, sim):
        if i == 0:
            sim.one_time_step()
            return
        sim.boundary_condition()
        sim.transport()
        sim.f2m()
        sim.source_term()
        sim.relaxation()
        sim.source_term()
        sim.m2f()
        sim.t += sim.dt

    r = compare.Runner(case, sims, ["one_time_step", "phases"])
    r.run(step)
    return info(r.ref.walls or any(s["src"] for s in case["spec"]["schemes"]), "dim%d" % case["spec"]["dim"])


@st.composite
def read_cases(draw, backend="numpy"):
    dim = draw(st.sampled_from([1, 2, 2]))
    case = draw(bc.problems(dim, max_q=9, max_elems=1, steps=3).filter(
        lambda c: any(b["value"] and b["value"]["time"] for b in c["bc"].values())))
    case["backend"] = backend
    case["what"] = draw(st.sampled_from(["m", "m_halo", "F", "m, F"]))
    return case


def check_reads(case):
    """the functions of the boundary values may read the fields during the step"""
    cons = [lbm.sym(c) for s in case["spec"]["schemes"] for c in s["cons"]]
    plain = pylbm.Simulation(bc.sim_dict(case, case["backend"]))
    d = bc.sim_dict(case, case["backend"])
    seen = {}

    def spy(fn):
        def function(*args):
            sim = seen.get("sim")
            if sim is not None:
                seen["calls"] = seen.get("calls", 0) + 1
                for c in cons:
                    if "m" in case["what"]:
                        (sim.m_halo if "halo" in case["what"] else sim.m)[c].sum()
                    if "F" in case["what"]:
                        sim.F[0].sum()
            return fn(*args)
        return function

    for lab, b in d["boundary_conditions"].items():
        if b.get("time_bc"):
            v = b["value"]
            b["value"] = (spy(v[0]), v[1]) if isinstance(v, tuple) else spy(v)
    sim = pylbm.Simulation(d)
    seen["sim"] = sim
    q = lbm.nvtot(case["spec"])
    ref = bc.RefBC(case, plain.domain)
    tol = 1e-11 * max(10.0, lbm.conds(ref))
    for it in range(case["steps"]):
        plain.one_time_step()
        sim.one_time_step()
        f = lbm.get_F(plain, q)
        if not np.all(np.isfinite(f)) or np.abs(f).max() > 1e6:
            break
        require(np.array_equal(f, lbm.get_F(sim, q)), "other distributions after step {}", it + 1)
        for c in cons:
            a, b = np.array(plain.m[c]), np.array(sim.m[c])
            require(np.abs(a - b).max() <= tol * lbm.scale_of(a, f), "the moment {} after step {} is not the one obtained without reading "
                    "it in the function of a boundary value: {}", c, it + 1, float(np.abs(a - b).max()))
    return info(seen.get("calls", 0), "dim%d" % case["spec"]["dim"], case["what"])


FAMILIES = [
    Family("operations", check, programs(), quick=360, thorough=12000, timeout=25),
    Family("phases", check_phases, phase_cases(), quick=100, thorough=4000, timeout=30),
    Family("reads during a step", check_reads, read_cases(), quick=40, thorough=2000, timeout=30),
    Family("reads during a step, compiled", check_reads, read_cases("cython"), quick=16, thorough=200, timeout=120, shrink=False),
    Family("operations, compiled", check, programs(compiled=True), quick=24, thorough=400, timeout=120, shrink=False),
]
