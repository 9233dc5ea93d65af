"""Simulations with obstacles and boundary conditions: data, dictionary of pylbm, reference."""
import numpy as np
from hypothesis import strategies as st

from . import geo, lbm

SYM = ["BounceBack", "AntiBounceBack", "BouzidiBounceBack", "BouzidiAntiBounceBack"]
NEUMANN = ["Neumann"]
DIRECTIONAL = ["NeumannX", "NeumannY", "NeumannZ"]


def symmetrise(dim, vs):
    tab = lbm.velocity_table(dim)
    out = list(vs)
    for k in vs:
        o = tab.index(tuple(-c for c in tab[k]))
        if o not in out:
            out.append(o)
    return out


@st.composite
def sym_velocities(draw, dim, max_q=9, fast=True):
    """velocities closed by the central symmetry, that move in every direction"""
    std = {1: [[0, 1, 2], [1, 2], [0, 1, 2, 3, 4], [0, 3, 4, 1, 2]],
           2: [list(range(5)), list(range(1, 5)), list(range(9)), [0] + list(range(5, 9)), list(range(13)), [0, 5, 6, 7, 8, 9, 10, 11, 12]],
           3: [list(range(7)), list(range(1, 7)), list(range(19))]}[dim]
    std = [s for s in std if len(s) <= max_q and (fast or max(s) < {1: 3, 2: 9, 3: 27}[dim])]
    if draw(st.integers(0, 3)) or max_q < {1: 2, 2: 4, 3: 6}[dim]:
        vs = draw(st.sampled_from(std))
    else:
        top = {1: 6, 2: 24, 3: 26}[dim] if fast else {1: 2, 2: 8, 3: 26}[dim]
        vs = draw(st.lists(st.integers(1, top), min_size=1, max_size=max(1, max_q // 2 - 1), unique=True))
        c = [lbm.vel(dim, k) for k in vs]
        for d in range(dim):
            if all(x[d] == 0 for x in c):
                vs = vs + [{1: [1], 2: [1, 2], 3: [5, 3, 1]}[dim][d]]
                c = [lbm.vel(dim, k) for k in vs]
        vs = symmetrise(dim, list(dict.fromkeys(vs)))
        if draw(st.booleans()):
            vs = [0] + vs
        if len(vs) > max_q:
            vs = vs[:0] + std[0]
    vs = list(vs)
    if draw(st.booleans()):
        vs = list(draw(st.permutations(vs)))
    return vs


@st.composite
def value(draw, cons, dim, time):
    """{conserved moment: coefficients of c0 + sum ci*x_i + c*sin(x_0*...)+ ct*t}, extra argument"""
    out = {"time": time, "m": {}}
    few = draw(st.integers(0, 2)) == 0  # some moments are not given: zero
    for u in cons:
        if draw(st.integers(0, 2 if few else 4)):
            out["m"][u] = [draw(st.integers(-8, 8)) / 8 for _ in range(dim + 2)] + \
                [draw(st.integers(1, 8)) / 4 if time else 0.0]
    out["arg"] = draw(st.sampled_from([None, None, 0.5, -2.0]))
    return out


def eval_value(v, u, x, t):
    c = v["m"][u]
    dim = len(x)
    r = c[0] + 0.0 * x[0]
    for d in range(dim):
        r = r + c[1 + d] * x[d]
    r = r + c[dim + 1] * np.sin(x[0] * (1 + x[-1])) + c[dim + 2] * t
    if v["arg"] is not None:
        r = r + v["arg"]
    return r


def value_function(v, dim, record=None):
    """what the user writes"""
    def fill(f, m, t, x, extra):
        if record is not None:
            record.append((t, [np.array(a, dtype=float).copy() for a in x], extra))
        for u in v["m"]:
            val = eval_value(dict(v, arg=extra[0] if extra else None), u, x, 0.0 if t is None else t)
            m[lbm.sym(u)] = val

    if v["time"]:
        fn = {1: lambda f, m, t, x, *a: fill(f, m, t, [x], a),
              2: lambda f, m, t, x, y, *a: fill(f, m, t, [x, y], a),
              3: lambda f, m, t, x, y, z, *a: fill(f, m, t, [x, y, z], a)}[dim]
    else:
        fn = {1: lambda f, m, x, *a: fill(f, m, None, [x], a),
              2: lambda f, m, x, y, *a: fill(f, m, None, [x, y], a),
              3: lambda f, m, x, y, z, *a: fill(f, m, None, [x, y, z], a)}[dim]
    if v["arg"] is not None:
        return (fn, (v["arg"],))
    return fn


def no_idle(spec):
    """the generated code of a relaxation which does nothing at all does not compile: excluded"""
    rel = [(s, i) for s in spec["schemes"] for i in range(len(s["v"])) if i not in s["pos"]]
    if all(s["s"][i] in ("0", "0.0") for s, i in rel):
        for s, i in rel[:1]:
            s["s"][i] = "1"


def draw_rel_vel(draw, spec):
    cons = spec["schemes"][0]["cons"]
    spec["rel_vel"] = [draw(st.sampled_from(
        ["0", "1/4", "-0.5", "1/3"] + ["p0"] * ("p0" in spec["params"]) +
        ["%s/4" % c for c in cons] + ["%s/(3+%s**2)" % (cons[-1], cons[0])])) for _ in range(spec["dim"])]


@st.composite
def problems(draw, dim, methods=None, values=True, time=True, max_q=9, max_schemes=2, max_elems=2,
             coords=True, sources=True, periodic=True, fast=True, n=None, directional=True, kinds=None,
             nonlinear=True, steps=3, obstacles=None, one_label=False, mass=False, rel=False, relax=None,
             given=None, twins=False):
    """spec + domain + boundary conditions
    twins: a square box whose sides have the same method and different values"""
    if rel:
        sources, mass, max_schemes = False, True, 1
    vs = given or [draw(sym_velocities(dim, max_q=max_q, fast=fast)) for _ in range(draw(st.integers(1, max_schemes)))]
    spec = draw(lbm.schemes(dim, max_schemes=len(vs), max_q=max_q, coords=coords, time=time, sources=sources,
                            nonlinear=nonlinear, given=vs, closed=mass,
                            relax=None if relax is None else draw(relax)))
    no_idle(spec)
    if rel:
        draw_rel_vel(draw, spec)
    vmax = lbm.vmax_of(spec)
    n = n or {1: (4, 12), 2: (4, 9), 3: (3, 5)}[dim]
    n = (max(n[0], 2 * max(vmax)), max(n[1], 2 * max(vmax)))
    labs = st.integers(0, 3) if not one_label else st.just(1)
    dom = draw(geo.domains(dim, max_elems=max_elems, n=n, vmax=vmax, labels=labs, fluid=obstacles, kinds=kinds,
                           periodic=periodic, dxs=[1.0, 0.5, 0.25, 0.1]))
    if twins:
        dom["box"]["n"] = [dom["box"]["n"][0]] * dim
        dom["labels"] = list(range(2 * dim))
        dom["elems"] = []
    fix_periodic(dom, vmax)
    labels = sorted(set(dom["labels"]) | {l for e in dom["elems"]
                                          for l in (e["label"] if isinstance(e["label"], list) else [e["label"]])})
    names = methods or SYM + NEUMANN
    cons = sum([s["cons"] for s in spec["schemes"]], [])
    bc = {}
    for lab in labels:
        if lab == -1:
            continue
        m = dict(bc["0"]["method"]) if twins and bc else {}
        for k in range(len(spec["schemes"]) if not m else 0):
            pool = list(names)
            if directional and methods is None and draw(st.integers(0, 5)) == 0:
                pool = DIRECTIONAL[:dim]
            m[str(k)] = draw(st.sampled_from(pool))
        v = None
        if values and (twins or draw(st.integers(0, 3))):
            v = draw(value(cons, dim, time and draw(st.booleans())))
        bc[str(lab)] = {"method": m, "value": v}
    return {"spec": spec, "dom": dom, "bc": bc, "noise": draw(st.integers(1, 5)),
            "steps": draw(st.integers(1, steps)),
            "init": {c: draw(lbm.field(dim)) for c in cons}}


def fix_periodic(dom, vmax):
    """a solid part next to a periodic side is not in the class: these sides become walls"""
    dim = len(dom["box"]["n"])
    if -1 not in dom["labels"]:
        return
    model = geo.DomainModel(dom["box"], dom["elems"], dom["labels"])
    for d in range(dim):
        if dom["labels"][2 * d] == -1:
            w = (vmax[d] + 1) * dom["box"]["dx"]
            lo, hi = dom["box"]["org"][d], dom["box"]["org"][d] + dom["box"]["n"][d] * dom["box"]["dx"]
            for body, isf in model.bodies:
                a, b = [x[d] for x in body.bounds()]
                if not isf and (a <= lo + w or b >= hi - w):
                    dom["labels"][2 * d] = dom["labels"][2 * d + 1] = 0


def sim_dict(case, backend="numpy", record=None, label_map=None):
    import pylbm
    spec, dom = case["spec"], case["dom"]
    d = lbm.scheme_dict(spec)
    del d["dim"]
    bx = dom["box"]
    b = {}
    for name, m, o in zip("xyz", bx["n"], bx["org"]):
        b[name] = [o, o + m * bx["dx"]]
    b["label"] = list(dom["labels"])
    d.update(box=b, space_step=bx["dx"], generator=backend)
    if dom["elems"]:
        d["elements"] = [geo.build(e) for e in dom["elems"]]
    bcs = {}
    for lab, c in case["bc"].items():
        x = {"method": {int(k): getattr(pylbm.bc, m) for k, m in c["method"].items()}}
        if c["value"] is not None:
            rec = None
            if record is not None:
                rec = record.setdefault(lab, [])
            x["value"] = value_function(c["value"], spec["dim"], rec)
            if c["value"]["time"]:
                x["time_bc"] = True
        bcs[int(lab)] = x
    if bcs:
        d["boundary_conditions"] = bcs
    d["init"] = {lbm.sym(c): lbm.field_fn(v) for c, v in case["init"].items()}
    d["inittype"] = "moments"
    return d


def fluid_of(sim, case):
    """the fluid cells according to the domain"""
    inner = tuple(slice(v, v + n) for v, n in zip(lbm.vmax_of(case["spec"]), case["dom"]["box"]["n"]))
    return np.array(sim.domain.in_or_out)[inner] == sim.domain.valin


def noise(case, q, n):
    g = np.arange(q * int(np.prod(n)), dtype=float).reshape([q] + list(n))
    return 0.2 * np.sin(case["noise"] * 12.9898 * (g + 1) + 0.37 * g * g)


class RefBC(lbm.Ref):
    """Reference of the schemes with boundary conditions. The walls are those of the
    model of the geometry; where it is at the round-off, those of the domain."""

    def __init__(self, case, domain):
        spec, dom = case["spec"], case["dom"]
        super().__init__(spec, dom["box"])
        self.case = case
        model = geo.DomainModel(dom["box"], dom["elems"], dom["labels"])
        vmax = lbm.vmax_of(spec)
        inner = tuple(slice(v, v + n) for v, n in zip(vmax, self.n))
        fl = np.array(domain.in_or_out)[inner] == domain.valin
        self.fluid = np.where(model.sure, model.fluid, fl)
        self.mask = self.fluid.copy()  # cells to compare
        self.anti = False  # an anti bounce-back of Bouzidi with a distance lower than 1/2
        num = {}
        for i, v in enumerate(domain.stencil.unique_velocities):
            num[tuple(int(c) for c in np.ravel(v.v)[: self.dim])] = i
        self.walls = []  # (global index k, label, cells (idx), distances)
        per = [dom["labels"][2 * d] == -1 for d in range(self.dim)]
        self.per = per
        cache = {}
        for s in self.sch:
            for j in range(len(s["v"])):
                k = s["sl"].start + j
                out = tuple(int(-c) for c in s["v"][j])
                if not any(out):
                    continue
                if out not in cache:
                    cache[out] = self.walls_of(model, domain, num[out], out, inner)
                for lab, idx, dist in cache[out]:
                    self.walls.append((k, lab, idx, dist))

    def walls_of(self, model, domain, iu, out, inner):
        fk = np.array(domain.flag[iu])[inner]
        dk = np.array(domain.distance[iu])[inner]
        res = model.walls(out)
        lab = np.where(self.fluid, fk, domain.valin)
        dist = dk.copy()
        lab[self.fluid & res["sure"] & ~res["wall"]] = domain.valin
        for i in map(tuple, np.argwhere(self.fluid & res["sure"] & res["wall"] & (res["gap"] > 1e-6))):
            labels = [int(l) for l in self.labels_of(model, res, i)]
            if res["single"][i]:
                dist[i] = res["dist"][i]
                if int(fk[i]) not in labels:
                    lab[i] = labels[0]
            elif int(fk[i]) == domain.valin and labels:
                lab[i] = labels[0]
                dist[i] = res["dist"][i]
        groups = []
        for l in np.unique(lab):
            if l in (-1, domain.valin):
                continue
            idx = np.where(lab == l)
            groups.append((int(l), idx, dist[idx]))
        return groups

    def labels_of(self, model, res, i):
        return [model.label_of(res, c, i)[0] for c in range(len(res["tags"])) if res["cand"][c][i]]

    def at(self, f, k, idx, shift):
        """values of f[k] at idx+shift (periodic), and True where this cell is fluid"""
        pos, ok = [], np.ones(idx[0].shape, dtype=bool)
        for d in range(self.dim):
            p = idx[d] + int(shift[d])
            if not self.per[d]:
                ok &= (p >= 0) & (p < self.n[d])
            pos.append(p % self.n[d])
        pos = tuple(pos)
        return f[k][pos], ok & self.fluid[pos]

    def feq_at(self, value, x, t):
        """equilibrium distributions for the prescribed values at the points x (lists of arrays)"""
        m = np.zeros([self.q] + list(np.shape(x[0])))
        if value is not None:
            for u in value["m"]:
                m[self.index[u]] = eval_value(value, u, x, t)
            m = self.equilibrium(m, x=x, t=t)
            return self.m2f(m)
        return m

    def opposite(self, k):
        for s in self.sch:
            if s["sl"].start <= k < s["sl"].stop:
                v = -self.V[k]
                for j in range(len(s["v"])):
                    if np.array_equal(s["v"][j], v):
                        return s["sl"].start + j
        return None

    def scheme_of(self, k):
        return [i for i, s in enumerate(self.sch) if s["sl"].start <= k < s["sl"].stop][0]

    def transport(self, f):
        out = super().transport(f)
        dx = self.bx["dx"]
        for k, lab, idx, d in self.walls:
            c = self.case["bc"][str(lab)]
            method = c["method"][str(self.scheme_of(k))]
            v = self.V[k]
            if method.startswith("Neumann"):
                shift = [0] * self.dim
                if method != "Neumann":
                    e = "XYZ".index(method[-1])
                    shift = [-int(a) for a in v]
                    shift[e] = 0
                val, ok = self.at(f, k, idx, shift)
                bad = ~ok
            else:
                x = [self.x[e][idx] - d * v[e] * dx for e in range(self.dim)]
                feq = self.feq_at(c["value"], x, self.t)
                ks = self.opposite(k)
                sg = -1 if "Anti" in method else 1
                here, _ = self.at(f, ks, idx, [0] * self.dim)
                rhs = feq[k] - sg * feq[ks]
                bad = np.zeros(d.shape, dtype=bool)
                if method.startswith("Bouzidi"):
                    far, ok = self.at(f, ks, idx, v)
                    same, _ = self.at(f, k, idx, [0] * self.dim)
                    low = d < 0.5
                    bad = low & ~ok
                    sg2 = sg
                    if sg < 0 and np.any(low & (d < 0.5 - 1e-12)):
                        self.anti = True
                        if self.defective:
                            sg2 = 1
                    dd = np.where(low, 1.0, d)
                    val = np.where(low, sg * 2 * d * here + sg2 * (1 - 2 * d) * far + rhs,
                                   sg * here / (2 * dd) + (1 - 1 / (2 * dd)) * same + rhs / (2 * dd))
                else:
                    val = sg * here + rhs
            out[(k,) + idx] = val
            bidx = tuple(a[bad] for a in idx)
            self.mask[bidx] = False
        return out

    defective = False
