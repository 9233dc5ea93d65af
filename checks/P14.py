"""The result does not depend on the number of processes."""
import signal
import sys
import time

import numpy as np
from hypothesis import strategies as st

from vlib import bc, lbm, mpi
from vlib.core import Family, info, require

import pylbm

RULE = "the domain is really split, and has an obstacle, a wall or a periodic direction across the processes"
ASSUMPTIONS = [
    "each process owns in each direction at least as many cells as the width of the halo",
    "the cells whose boundary condition reads a cell which is not fluid (see P09) are not compared, nor those they reach",
    "no solid part next to a periodic side of the box",
    "the space step and the origin of the box are dyadic when there are elements (same coordinates, bit for bit, on each process)",
]


def argv(split):
    sys.argv = ["x"]
    if split is not None:
        for name, n in zip("xyz", split):
            sys.argv += ["-np" + name, str(n)]


def simulation(case, split):
    argv(split)
    d = bc.sim_dict(case, case["backend"])
    sim = pylbm.Simulation(d, sorder=list(case["sorder"])) if case["sorder"] else pylbm.Simulation(d)
    return sim


def inner(dom):
    return tuple(slice(v, v + n) for v, n in zip(dom.stencil.vmax, dom.shape_in))


def geometry(dom):
    s = inner(dom)
    region = dom.mpi_topo.get_region(*[int(n) for n in dom.global_size])
    res = {"region": np.array(region), "split": np.array(dom.mpi_topo.split), "size": np.array(dom.global_size),
           "in_or_out": np.array(dom.in_or_out[s]),
           "distance": np.array(dom.distance[(slice(None),) + s]), "flag": np.array(dom.flag[(slice(None),) + s])}
    if dom.compute_normal:
        res["normal"] = np.array(dom.normal[(slice(None),) + s])
    for e in range(dom.dim):
        res["coords%d" % e] = np.array(dom.coords[e])
    return res


def remote(case):
    """geometry, then the fields at the beginning and after each step"""
    if case.get("only_domain"):
        argv(case["split"])
        d = bc.sim_dict(case)
        return geometry(pylbm.Domain(d))
    sim = simulation(case, case["split"])
    res = geometry(sim.domain)
    q = lbm.nvtot(case["spec"])
    reg = tuple(slice(*r) for r in res["region"])
    cons = list(case["init"])
    frames = []

    def record():
        f = np.stack([np.array(sim.F[k]) for k in range(q)])
        m = np.stack([np.array(sim.m[lbm.sym(u)]) for u in cons])
        frames.append(np.concatenate([f, m]))
    record()
    p = bc.noise(case, q, case["dom"]["box"]["n"])
    for k in range(q):
        sim.F[k][...] = np.array(sim.F[k]) + p[k][reg]
    for it in range(case["steps"]):
        sim.one_time_step()
        if case["read"] or it == case["steps"] - 1:
            record()
    res["frames"] = np.stack(frames)
    return res


def assemble(parts, n, name, axis0):
    """the global array, and how many times each cell is given"""
    first = parts[0][name]
    lead = list(first.shape[:axis0])
    tail = list(first.shape[axis0 + len(n):])
    out = np.full(lead + list(n) + tail, np.nan)
    count = np.zeros(n, dtype=int)
    for p in parts:
        reg = tuple(slice(*r) for r in p["region"])
        require(list(p[name].shape[axis0:axis0 + len(n)]) == [int(r[1] - r[0]) for r in p["region"]],
                "{}: shape {} for the region {}", name, p[name].shape, p["region"].tolist())
        out[(slice(None),) * axis0 + reg] = p[name]
        count[reg] += 1
    require((count == 1).all(), "the regions do not cover the grid exactly once: {}", [p["region"].tolist() for p in parts])
    return out


def check(case):
    np_ = case["np"]
    n = case["dom"]["box"]["n"]
    dim = len(n)
    # alone first: the symbolic computations of some schemes do not end
    signal.setitimer(signal.ITIMER_REAL, 15 if case["backend"] == "numpy" else 100, 1.0)
    t0 = time.time()
    one = remote(dict(case, split=None))
    if time.time() - t0 > (8 if case["backend"] == "numpy" else 60):
        return info(False, "slow")
    signal.setitimer(signal.ITIMER_REAL, 290, 1.0)
    parts = mpi.run(np_, "checks.P14:remote", case)
    for p in parts:
        require(int(np.prod(p["split"])) == np_, "the splitting {} is not made of {} processes", p["split"].tolist(), np_)
        if case["split"] is not None:
            require(p["split"].tolist() == case["split"], "splitting {} instead of {}", p["split"].tolist(), case["split"])
        require(p["size"].tolist() == list(n), "global size {}", p["size"].tolist())
        for e in range(dim):
            a, b = p["region"][e]
            x = one["coords%d" % e][a:b]
            require(p["coords%d" % e].shape == x.shape and np.allclose(p["coords%d" % e], x, rtol=1e-12, atol=1e-12),
                    "coordinates of the region {}", p["region"].tolist())
    fluid = one["in_or_out"]
    got = assemble(parts, n, "in_or_out", 0)
    require(np.array_equal(got, fluid), "split in {}: the fluid map differs at {}", parts[0]["split"].tolist(),
            np.argwhere(got != fluid)[:4].tolist())
    for name in ("flag", "distance", "normal"):
        if name in one:
            got = assemble(parts, n, name, 1)
            ok = np.isclose(got, one[name], rtol=1e-9, atol=1e-9)
            require(ok.all(), "split in {}: {} differs at (velocity, cell) {}: {} instead of {}", parts[0]["split"].tolist(), name,
                    *(lambda i: (list(map(int, i)), float(got[tuple(i)]), float(one[name][tuple(i)])))(
                        np.argwhere(~ok)[0] if not ok.all() else np.zeros(got.ndim, dtype=int)))
    labels = ["dim%d" % dim, "split " + "x".join(map(str, parts[0]["split"].tolist()))]
    if case["dom"]["elems"]:
        labels.append("elements")
    labels += sorted({"periodic" for d in range(dim) if case["dom"]["labels"][2 * d] == -1 and parts[0]["split"][d] > 1})
    labels += sorted({m for c in case["bc"].values() for m in c["method"].values()})
    if case.get("only_domain"):
        return info(True, *labels)
    labels.append(case["backend"])
    frames = assemble(parts, n, "frames", 2)
    argv(None)
    ref = bc.RefBC(case, pylbm.Domain(bc.sim_dict(case)))
    ref.init_moments({c: lbm.field_fn(v)(*ref.x) for c, v in case["init"].items()})
    ref.transport(ref.f)
    flu = ref.fluid
    bad = flu & ~ref.mask
    vmax = lbm.vmax_of(case["spec"])
    tol = 1e-11 * max(10.0, lbm.conds(ref))
    done = 0
    its = [0] + (list(range(1, case["steps"] + 1)) if case["read"] else [case["steps"]])
    start = bad.copy()
    for j, it in enumerate(its):
        b = start.copy() if it else np.zeros_like(start)
        for _ in range(max(0, it - 1)):
            b = spread(b, vmax)
        ok = flu & ~b
        x, y = frames[j], one["frames"][j]
        if not np.all(np.isfinite(y[:, ok])) or lbm.scale_of(y[:, ok]) > 1e6:
            break
        e = np.where(ok, np.abs(x - y), 0)
        require(not np.isnan(e).any() and float(e.max()) <= tol * 4 ** it * max(1e-3, lbm.scale_of(y[:, ok])),
                "split in {}: after {} steps the (field, cell) {} differs by {:.3e}", parts[0]["split"].tolist(), it,
                tuple(int(i) for i in np.unravel_index(np.argmax(e), e.shape)), float(np.nanmax(e)))
        done += it > 0 and int(ok.sum())
    return info(done > 0, *labels)


def spread(bad, vmax):
    for d, v in enumerate(vmax):
        out = bad.copy()
        for s in range(1, v + 1):
            out |= np.roll(bad, s, axis=d) | np.roll(bad, -s, axis=d)
        bad = out
    return bad


def splits(np_, dim):
    out = []
    for a in range(1, np_ + 1):
        if np_ % a:
            continue
        if dim == 1:
            if a == np_:
                out.append([a])
            continue
        for b in range(1, np_ // a + 1):
            if (np_ // a) % b:
                continue
            if dim == 2:
                if a * b == np_:
                    out.append([a, b])
            else:
                out.append([a, b, np_ // a // b])
    return out


AUTO = {1: {2: [2], 3: [3], 4: [4], 6: [6], 5: [5]}, 2: {2: [2, 1], 3: [3, 1], 4: [2, 2], 6: [3, 2], 5: [5, 1]},
        3: {2: [2, 1, 1], 3: [3, 1, 1], 4: [2, 2, 1], 6: [3, 2, 1], 5: [5, 1, 1]}}


@st.composite
def cases(draw, np_, dims=(1, 2, 3), backend="numpy", domain=False, max_elems=2):
    dim = draw(st.sampled_from(dims))
    case = draw(bc.problems(dim, max_q={1: 5, 2: 9, 3: 7}[dim], n={1: (5, 14), 2: (4, 9), 3: (3, 5)}[dim],
                            max_elems=max_elems, coords=True, steps=3))
    split = draw(st.sampled_from(splits(np_, dim)))
    auto = draw(st.integers(0, 3)) == 0 or all(s == 1 for s in split)
    if auto:
        split = AUTO[dim][np_]
    vmax = lbm.vmax_of(case["spec"])
    bx = case["dom"]["box"]
    if case["dom"]["elems"] and bx["dx"] == 0.1:
        f = 0.125 / bx["dx"]
        return draw(cases(np_, dims=dims, backend=backend, domain=domain, max_elems=0))
    bx["n"] = [max(m, s * max(1, v) + draw(st.integers(0, 1))) for m, s, v in zip(bx["n"], split, vmax)]
    bc.fix_periodic(case["dom"], vmax)
    case["np"] = np_
    case["split"] = None if auto else split
    case["backend"] = backend
    case["read"] = draw(st.booleans())
    case["sorder"] = draw(st.one_of(st.none(), st.none(), st.permutations(range(dim + 1))))
    if domain:
        case["only_domain"] = True
    return case


def fam(np_, quick, workers, **k):
    return Family("%d processes" % np_, check, cases(np_, **k), quick=quick, thorough=quick * 25, timeout=300, workers=workers)


FAMILIES = [
    fam(2, 30, 2), fam(3, 20, 2), fam(4, 33, 3),
    Family("6 processes", check, cases(6), quick=6, thorough=600, timeout=300, workers=1),
    Family("2 processes, cython", check, cases(2, backend="cython"), quick=4, thorough=160, timeout=300, shrink=False, workers=2),
    Family("domain, 4 processes", check, cases(4, dims=(2, 2, 3), domain=True, max_elems=4), quick=96, thorough=4000, timeout=300, workers=3),
]
