"""Conservation laws, translations and symmetries of the lattice."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import bc, geo, lbm
from vlib.core import Family, info, require

import pylbm

RULE = "the solution takes more than two values (and, on closed domains and for the symmetries, at least one wall is met or the map is not the identity)"
ASSUMPTIONS = ["sources of the conservation laws depend on the space coordinates and on the parameters only",
               "symmetries: domains where the crossings of the walls are resolved by the grid, without ties between labels (see P12)",
               "no solid part next to a periodic side of the box",
               "runs are compared while the solution stays below 1e6"]


# ---------------------------------------------------------------------------
# conservation
# ---------------------------------------------------------------------------
@st.composite
def periodic_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    spec = draw(lbm.schemes(dim, sources=False, time=False, still=True))
    for s in spec["schemes"]:
        for u in s["cons"]:
            if draw(st.integers(0, 2)) == 0:
                s["src"][u] = draw(lbm.term([u], dim, True, [p for p in spec["params"] if p != "LA"], False, False)).replace("*" + u, "").replace(u, "1")
    bx = draw(lbm.box(dim, lbm.vmax_of(spec), hi=8 if dim < 3 else 4))
    return {"spec": spec, "box": bx, "init": {c: draw(lbm.field(dim)) for s in spec["schemes"] for c in s["cons"]},
            "noise": draw(st.integers(1, 4)), "steps": draw(st.integers(1, 6))}


def check_periodic(case):
    spec, bx = case["spec"], case["box"]
    ref = lbm.Ref(spec, bx)
    sim = pylbm.Simulation(lbm.sim_dict(spec, bx, init={c: lbm.field_fn(v) for c, v in case["init"].items()}))
    ref.init_moments({c: lbm.field_fn(v)(*ref.x) for c, v in case["init"].items()})
    p = bc.noise(case, ref.q, ref.n)
    for k in range(ref.q):
        sim.F[k][...] = ref.f[k] + p[k]
    m = ref.f2m(ref.f + p)
    tol = 1e-11 * max(10.0, lbm.conds(ref))
    src = ref.source(np.zeros_like(m)) * 2  # coordinates only
    for it in range(case["steps"]):
        F = lbm.get_F(sim, ref.q)
        before = {c: float(np.sum(ref.f2m(F)[ref.index[c]])) for c in ref.allcons}
        sc0 = lbm.scale_of(lbm.get_F(sim, ref.q))
        sim.one_time_step()
        F = lbm.get_F(sim, ref.q)
        sc = max(sc0, lbm.scale_of(F))
        if not np.all(np.isfinite(F)) or sc > 1e6:
            break
        sc = sc * F[0].size * max(1.0, float(np.abs(m).max()) / lbm.scale_of(ref.f + p))
        for c in ref.allcons:
            row = ref.index[c]
            add = float(np.sum(src[row]))
            now = float(np.sum(sim.m[lbm.sym(c)]))
            require(abs(now - before[c] - add) <= tol * (sc + abs(add)), "step {}: the total of {} goes from {} to {} (source {})",
                    it + 1, c, before[c], now, add)
            s = [s for s in ref.sch if s["sl"].start <= row < s["sl"].stop][0]
            direct = float(np.sum(np.tensordot(s["M"][row - s["sl"].start], F[s["sl"]], axes=(0, 0))))
            require(abs(now - direct) <= tol * sc, "step {}: the total of {} is {}, from the distributions {}", it + 1, c, now, direct)
    return info(np.ptp(F) > 0, "dim%d" % ref.dim, *(["source"] * any(s["src"] for s in spec["schemes"])))


@st.composite
def closed_cases(draw, dim, **k):
    case = draw(bc.problems(dim, methods=["BounceBack"], sources=False, coords=False, values=False, steps=6, mass=True, **k))
    return case


def check_closed(case):
    spec = case["spec"]
    sim = pylbm.Simulation(bc.sim_dict(case))
    ref = bc.RefBC(case, sim.domain)
    inner = tuple(slice(v, v + n) for v, n in zip(lbm.vmax_of(spec), ref.n))
    fl = np.array(sim.domain.in_or_out)[inner] == sim.domain.valin
    ref.init_moments({c: lbm.field_fn(v)(*ref.x) for c, v in case["init"].items()})
    F = ref.f + bc.noise(case, ref.q, ref.n)
    for k in range(ref.q):
        sim.F[k][...] = F[k]
    tol = 1e-11 * max(10.0, lbm.conds(ref))
    for it in range(case["steps"]):
        before = [float(F[s["sl"]][:, fl].sum()) for s in ref.sch]
        sc = lbm.scale_of(F[:, fl])
        sim.one_time_step()
        F = lbm.get_F(sim, ref.q)
        if not np.all(np.isfinite(F)) or lbm.scale_of(F) > 1e6:
            break
        sc = max(sc, lbm.scale_of(F[:, fl])) * max(1, fl.sum())
        for i, s in enumerate(ref.sch):
            now = float(F[s["sl"]][:, fl].sum())
            require(abs(now - before[i]) <= tol * sc, "step {}: the mass of the scheme {} goes from {} to {}", it + 1, i, before[i], now)
    return info(ref.walls and fl.any(), "dim%d" % ref.dim, *(["obstacle"] * bool(case["dom"]["elems"])))


# ---------------------------------------------------------------------------
# translation of the initial data
# ---------------------------------------------------------------------------
@st.composite
def roll_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    spec = draw(lbm.schemes(dim, coords=False, still=True))
    bx = draw(lbm.box(dim, lbm.vmax_of(spec), hi=8 if dim < 3 else 4))
    return {"spec": spec, "box": bx, "init": {c: draw(lbm.field(dim)) for s in spec["schemes"] for c in s["cons"]},
            "noise": draw(st.integers(1, 4)), "steps": draw(st.integers(1, 4)),
            "shift": [draw(st.integers(-n, n)) for n in bx["n"]]}


def check_roll(case):
    spec, bx = case["spec"], case["box"]
    ref = lbm.Ref(spec, bx)
    ref.init_moments({c: lbm.field_fn(v)(*ref.x) for c, v in case["init"].items()})
    F = ref.f + bc.noise(case, ref.q, ref.n)
    d = lbm.sim_dict(spec, bx, init={c: 0.0 for c in case["init"]})
    a, b = pylbm.Simulation(d), pylbm.Simulation(d)
    ax = tuple(range(ref.dim))
    sh = tuple(case["shift"])
    for k in range(ref.q):
        a.F[k][...] = F[k]
        b.F[k][...] = np.roll(F[k], sh, axis=ax)
    tol = 1e-11 * max(10.0, lbm.conds(ref))
    for it in range(case["steps"]):
        a.one_time_step()
        b.one_time_step()
        fa, fb = lbm.get_F(a, ref.q), lbm.get_F(b, ref.q)
        if not np.all(np.isfinite(fa)) or lbm.scale_of(fa) > 1e6:
            break
        e = np.abs(np.roll(fa, sh, axis=tuple(i + 1 for i in ax)) - fb)
        require(float(e.max()) <= tol * 10 ** it * lbm.scale_of(fa, F), "step {}: the solution is not translated, difference {:.3e}", it + 1, float(e.max()))
    return info(any(s % n for s, n in zip(case["shift"], bx["n"])) and np.ptp(fa) > 0, "dim%d" % ref.dim)


# ---------------------------------------------------------------------------
# symmetries of the lattice and translations of the whole problem
# ---------------------------------------------------------------------------
@st.composite
def map_cases(draw, dim, **k):
    case = draw(bc.problems(dim, directional=False, steps=3, **k))
    for i, l in enumerate(case["dom"]["labels"]):
        if l != -1:
            case["dom"]["labels"][i] = 0
    if "0" not in case["bc"]:
        first = draw(st.sampled_from(bc.SYM + bc.NEUMANN))
        case["bc"]["0"] = {"method": {str(i): first for i in range(len(case["spec"]["schemes"]))}, "value": None}
    used = {0} | {l for e in case["dom"]["elems"] for l in (e["label"] if isinstance(e["label"], list) else [e["label"]])}
    for lab in list(case["bc"]):
        if int(lab) not in used:
            del case["bc"][lab]
    for c in case["bc"].values():
        if c["value"]:
            for u in c["value"]["m"].values():
                u[dim + 1] = 0.0
    case["perm"] = draw(st.permutations(range(dim)))
    case["sign"] = [draw(st.sampled_from([1, -1])) for _ in range(dim)]
    return case


def transform(case):
    """the image of the problem by x'_i = sign_i * x_perm(i)"""
    perm, sign = case["perm"], case["sign"]
    spec, dom = case["spec"], case["dom"]
    dim = spec["dim"]
    tab = lbm.velocity_table(dim)
    vec = lambda v: [sign[i] * v[perm[i]] for i in range(dim)]
    sub = {lbm.sym("XYZ"[perm[i]]): sign[i] * lbm.sym("XYZ"[i]) for i in range(dim)}

    def ex(e):
        x = lbm.parse(spec, e)
        return str(x.subs(sub, simultaneous=True)) if hasattr(x, "subs") else e

    new = dict(spec, schemes=[])
    for s in spec["schemes"]:
        new["schemes"].append(dict(s, v=[tab.index(tuple(vec(tab[k]))) for k in s["v"]],
                                   polys=[ex(p) for p in s["polys"]], eq=[ex(p) for p in s["eq"]],
                                   s=[ex(p) for p in s["s"]], src={u: ex(p) for u, p in s["src"].items()}))
    bx = dom["box"]
    nb = {"dx": bx["dx"], "n": [bx["n"][p] for p in perm], "org": []}
    labels = []
    for i in range(dim):
        o = bx["org"][perm[i]]
        lab = dom["labels"][2 * perm[i]: 2 * perm[i] + 2]
        if sign[i] < 0:
            o = -(o + bx["n"][perm[i]] * bx["dx"])
            lab = lab[::-1]
        nb["org"].append(o)
        labels += lab
    elems = []
    for e in dom["elems"]:
        x = dict(e, c=vec(e["c"]))
        if "v" in e:
            x["v"] = [vec(v) for v in e["v"]]
        elems.append(x)
    init = {c: v[:2] + vec(v[2:2 + dim]) + v[2 + dim:] for c, v in case["init"].items()}
    bcs = {}
    for lab, c in case["bc"].items():
        x = dict(c)
        if c["value"]:
            x["value"] = dict(c["value"], m={u: w[:1] + vec(w[1:1 + dim]) + w[1 + dim:] for u, w in c["value"]["m"].items()})
        bcs[lab] = x
    return dict(case, spec=new, dom={"box": nb, "elems": elems, "labels": labels}, bc=bcs, init=init)


def resolved(model, spec):
    """the crossings of the walls do not depend on round-off"""
    vs = {tuple(v) for s in spec["schemes"] for v in [lbm.vel(spec["dim"], k) for k in s["v"]] if any(v)}
    if not model.sure.all():
        return False
    for v in vs:
        res = model.walls(v)
        fl = model.fluid
        if (fl & ~res["sure"]).any() or (fl & res["wall"] & ~res["single"]).any():
            return False
        for i in map(tuple, np.argwhere(fl & res["wall"])):
            labs = {model.label_of(res, c, i)[0] for c in range(len(res["tags"])) if res["cand"][c][i]}
            if len(labs) != 1:
                return False
    return True


def check_map(case):
    dom = case["dom"]
    if not resolved(geo.DomainModel(dom["box"], dom["elems"], dom["labels"]), case["spec"]):
        return info(False, "not resolved")
    image = transform(case)
    ref = lbm.Ref(case["spec"], dom["box"])
    a, b = pylbm.Simulation(bc.sim_dict(case)), pylbm.Simulation(bc.sim_dict(image))
    T = lambda g: np.flip(np.transpose(g, case["perm"]), [i for i, s in enumerate(case["sign"]) if s < 0])
    inner = lambda sim, c: (np.array(sim.domain.in_or_out) == sim.domain.valin)[tuple(
        slice(v, v + n) for v, n in zip(lbm.vmax_of(c["spec"]), c["dom"]["box"]["n"]))]
    fl, fl2 = inner(a, case), inner(b, image)
    require(np.array_equal(T(fl), fl2), "the fluid cells are not those of the image of the domain")
    ref.init_moments({c: lbm.field_fn(v)(*ref.x) for c, v in case["init"].items()})
    tol = 1e-10 * max(10.0, lbm.conds(ref))
    sc0 = lbm.scale_of(ref.f)

    def compare(when, tol):
        fa, fb = lbm.get_F(a, ref.q), lbm.get_F(b, ref.q)
        if not np.all(np.isfinite(fa[:, fl])) or lbm.scale_of(fa) > 1e6:
            return False
        for k in range(ref.q):
            e = np.where(fl2, np.abs(T(fa[k]) - fb[k]), 0)
            require(float(e.max()) <= tol * max(sc0, lbm.scale_of(fa[:, fl])),
                    "{}: the distribution {} is not the image of the initial one, difference {:.3e} at the cell {} of the image",
                    when, k, float(e.max()), tuple(int(x) for x in np.unravel_index(np.argmax(e), e.shape)))
        return True

    compare("initialization", tol)
    F = ref.f + bc.noise(case, ref.q, ref.n)
    for k in range(ref.q):
        a.F[k][...] = F[k]
        b.F[k][...] = T(F[k])
    for it in range(case["steps"]):
        a.one_time_step()
        b.one_time_step()
        if not compare("step %d" % (it + 1), tol * 10 ** it):
            break
    return info(list(case["perm"]) != list(range(ref.dim)) or -1 in case["sign"], "dim%d" % ref.dim,
                *(["obstacle"] * bool(dom["elems"])))


FAMILIES = [
    Family("periodic", check_periodic, periodic_cases(), quick=120, thorough=6000, timeout=20),
    Family("closed, 1D", check_closed, closed_cases(1), quick=30, thorough=1000, timeout=20),
    Family("closed, 2D", check_closed, closed_cases(2, max_elems=3), quick=120, thorough=6000, timeout=20),
    Family("closed, 3D", check_closed, closed_cases(3, max_q=7), quick=40, thorough=2000, timeout=30),
    Family("translations", check_roll, roll_cases(), quick=80, thorough=4000, timeout=20),
    Family("symmetries, 1D", check_map, map_cases(1), quick=40, thorough=1000, timeout=25),
    Family("symmetries, 2D", check_map, map_cases(2, max_q=9), quick=80, thorough=5000, timeout=30),
    Family("symmetries, 3D", check_map, map_cases(3, max_q=7), quick=40, thorough=2000, timeout=40),
]
