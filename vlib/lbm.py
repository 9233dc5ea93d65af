"""Schemes as plain data, the dictionary of pylbm built from them, and an independent
reference implementation of the lattice Boltzmann step (numpy, dense linear algebra)."""
import itertools
from fractions import Fraction
from functools import lru_cache

import numpy as np
import sympy as sp
from hypothesis import strategies as st

# ---------------------------------------------------------------------------
# velocities: an enumeration of the lattice made independently of pylbm
# ---------------------------------------------------------------------------


@lru_cache(None)
def velocity_table(dim, shells=7):
    """The documented numbering (doc: pictures of the stencils): shell after shell
    (maximum norm); number -> components."""
    if dim == 1:
        out = [(0,)]
        for k in range(1, 50):
            out += [(k,), (-k,)]
        return out
    if dim == 2:
        out = [(0, 0)]

        def orbit(v):
            o = [v]
            for _ in range(3):
                o.append((-o[-1][1], o[-1][0]))
            return o

        for r in range(1, shells + 1):
            out += orbit((r, 0)) + orbit((r, r))
            for k in range(1, r):
                for ab in zip(orbit((r, k)), orbit((k, r))):
                    out += ab
        return out
    out = [(0, 0, 0)]
    for r in range(1, shells + 1):
        for b in range(r + 1):
            for a in range(b + 1):
                for p in sorted(set(itertools.permutations((a, b, r)))):
                    for sg in itertools.product(*[(1, -1) if c else (1,) for c in p]):
                        out.append(tuple(x * y for x, y in zip(p, sg)))
    return out


def vel(dim, num):
    """components of a velocity, for the oracle"""
    return velocity_table(dim)[num]


vel_full = vel


# ---------------------------------------------------------------------------
# bases of polynomials
# ---------------------------------------------------------------------------
@lru_cache(None)
def monomials(dim, vs):
    """exponents of monomials, lowest degree first, independent on the velocities"""
    out, rows = [], []
    maxdeg = 9
    for deg in range(maxdeg * dim):
        for e in itertools.product(range(deg + 1), repeat=dim):
            if sum(e) != deg or max(e) > maxdeg:
                continue
            row = [Fraction(int(np.prod([int(c) ** k for c, k in zip(v, e)]))) for v in vs]
            r = list(row)
            for piv, prow in rows:
                if r[piv]:
                    f = r[piv] / prow[piv]
                    r = [a - f * b for a, b in zip(r, prow)]
            nz = [i for i, a in enumerate(r) if a]
            if nz:
                rows.append((nz[0], r))
                out.append(e)
                if len(out) == len(vs):
                    return out
    raise RuntimeError("no basis")


NAMES = "XYZ"


def mono_str(e, la=None):
    f = []
    for c, k in zip(NAMES, e):
        if k:
            x = c if la is None else "(%s/%s)" % (c, la)
            f.append(x if k == 1 else "%s**%d" % (x, k))
    return "*".join(f) or "1"


STANDARD = {
    1: [[0, 1, 2], [1, 2], [0, 1, 2, 3, 4], [0, 1], [0, 2, 3]],
    2: [[0, 1, 3], list(range(9)), list(range(5)), list(range(1, 5)), list(range(13)), [0, 5, 6, 7, 8], [0, 1, 2], [0] + list(range(5, 13))],
    3: [list(range(7)), list(range(1, 7)), [0, 1, 3, 5], list(range(19)), [0] + list(range(1, 7)) + list(range(19, 27))],
}


@st.composite
def velocities(draw, dim, max_q=9, wide=True, still=False):
    kind = draw(st.integers(0, 2))
    if kind < 2:
        c = [s for s in STANDARD[dim] if len(s) <= max_q]
        vs = draw(st.sampled_from(c))
    else:
        top = {1: 8, 2: 24, 3: 124 if draw(st.integers(0, 3)) == 0 else 26}[dim] if wide else {1: 2, 2: 8, 3: 26}[dim]
        vs = draw(st.lists(st.integers(0, top), min_size=2, max_size=min(max_q, {1: 5, 2: 7, 3: 7}[dim]), unique=True))
    vs = list(vs)
    # every direction must move (halo of at least one cell)
    if draw(st.booleans()):
        vs = draw(st.permutations(vs))
    comps = [vel(dim, k) for k in vs]
    if not (still and draw(st.integers(0, 3)) == 0) and any(all(c[d] == 0 for c in comps) for d in range(dim)):
        for d in range(dim):
            unit = {1: [1], 2: [1, 2], 3: [5, 3, 1]}[dim][d]
            if all(c[d] == 0 for c in comps) and unit not in vs:
                vs.append(unit)
    return list(vs)


rat = lambda a=-8, b=8, den=(1, 2, 3, 4, 5, 8): st.builds(
    lambda p, q: "%d/%d" % (p, q), st.integers(a, b), st.sampled_from(den))
small = st.integers(-7, 7).map(lambda k: "%d/16" % k)


@st.composite
def term(draw, cons, dim, coords, params, time, nonlinear=True):
    """a term of an equilibrium or of a source"""
    c = draw(small)
    f = ["(%s)" % c]
    n = draw(st.integers(0, 2 if nonlinear else 1))
    for _ in range(n):
        u = draw(st.sampled_from(cons))
        shape = draw(st.integers(0, 9)) if nonlinear else 0
        if shape == 9:
            f.append("sqrt(2+%s**2)" % u)
        elif shape == 8:
            f.append("(2+%s**2)**(-2)" % u)
        elif shape == 7:
            f.append("%s/(2+%s**2)" % (u, u))
        elif shape == 6:
            f.append("sin(%s)" % u)
        elif shape == 5:
            f.append("Abs(%s)" % u)
        elif shape == 4:
            f.append("%s**2" % u)
        else:
            f.append(u)
    if nonlinear and draw(st.integers(0, 15)) == 0:  # no factor
        u = draw(st.sampled_from(cons))
        return draw(st.sampled_from(["(2+%s**2)**(-2)", "1/(2+%s**2)", "(1+%s**2)**(3/2)", "-%s**3", "1/sqrt(1+%s**2)", "exp(-%s**2)"])) % u
    if not nonlinear and n == 0:
        f.append(draw(st.sampled_from(cons)))
    extra = draw(st.integers(0, 5))
    if coords and extra == 0:
        f.append("%s" % NAMES[draw(st.integers(0, dim - 1))])
    if coords and extra == 1:
        f.append("cos(%s)" % NAMES[draw(st.integers(0, dim - 1))])
    if params and extra == 2:
        f.append(draw(st.sampled_from(params)))
    if time and extra == 3:
        f.append("t")
    return "*".join(f)


def expr(draw, *a, **k):
    n = draw(st.integers(0, 2))
    return " + ".join([draw(term(*a, **k)) for _ in range(n)]) or "0"


@st.composite
def schemes(draw, dim, max_schemes=2, max_q=9, coords=True, time=True, sources=True,
            nonlinear=True, wide=True, mix=True, relax=None, symbolic=True, max_cons=3, couple=True,
            closed=False, still=False, given=None):
    """given: the velocities of the schemes.
    closed: the conserved moments are the lowest monomials, their span does not depend on
    the origin of the velocities"""
    ns = len(given) if given else draw(st.integers(1, max_schemes))
    params = {}
    if symbolic:
        for i in range(draw(st.integers(0, 2))):
            params["p%d" % i] = draw(st.integers(-8, 8)) / 8
    pnames = [p for p in params if p != "LA"]
    out = []
    nc = []
    for k in range(ns):
        v = list(given[k]) if given else draw(velocities(dim, max_q, wide, still))
        n = len(v)
        maxc = min(max_cons, n - 1) if n > 1 else 1
        nc.append(draw(st.integers(1, maxc)))
        out.append({"v": v})
    # with large powers of numbers which are not powers of 2, sympy is slow
    deg = max(max(max(e) for e in monomials(dim, tuple(vel(dim, q) for q in x["v"]))) for x in out)
    low = deg <= 2
    la = draw(st.sampled_from(["1", "1", "2", "1/2", "LA"] + ["3", "3/10"] * low))
    if la == "LA":
        params["LA"] = draw(st.sampled_from([1.0, 2.0, 0.5, 4.0, 1, 2] + [10.0, 3] * low))
    names = [["u%d" % i for i in range(sum(nc[:k]), sum(nc[:k + 1]))] for k in range(ns)]
    allcons = sum(names, [])
    for k, sch in enumerate(out):
        v = sch["v"]
        n = len(v)
        vs = tuple(vel(dim, q) for q in v)
        exps = monomials(dim, vs)
        lascale = None if not draw(st.booleans()) else {"LA": "LA"}.get(la, "(%s)" % la)
        monos = [mono_str(e, lascale) for e in exps]
        polys = []
        for i in range(n):
            p = monos[i]
            if mix and i:
                nm = draw(st.integers(0, 2))
                for _ in range(nm):
                    j = draw(st.integers(0, i - 1))
                    c = draw(st.integers(-3, 3))
                    if c:
                        p += " + (%d)*%s" % (c, monos[j])
            if mix and draw(st.integers(0, 4)) == 0:
                p = "(%s)*(%s)" % (draw(st.sampled_from(["2", "1/2", "-1", "3"])), p)
            polys.append(p)
        order = list(range(n))
        if mix and draw(st.integers(0, 2)) == 0:
            order = draw(st.permutations(order))
        polys = [polys[i] for i in order]
        cons_pos = list(range(nc[k]))
        if closed:
            cons_pos = draw(st.permutations([order.index(i) for i in range(nc[k])]))
        elif mix and draw(st.integers(0, 1)) == 0:
            cons_pos = draw(st.permutations(list(range(n))))[: nc[k]]
        coupling = allcons if couple else names[k]
        eq, s = [], []
        for i in range(n):
            if i in cons_pos:
                eq.append(names[k][cons_pos.index(i)])
                s.append(draw(st.sampled_from(["0", "0", "0.", "1", "7/5"])))
            else:
                eq.append(expr(draw, coupling, dim, coords, pnames, False, nonlinear))
                if relax is not None:
                    s.append(relax)
                else:
                    s.append(draw(st.one_of(
                        st.integers(0, 16).map(lambda a: str(a / 8)),
                        st.sampled_from(["1", "2", "3/2", "1.9"]),
                        st.sampled_from(["1+%s/4" % p for p in pnames] or ["1.25"]))))
        if coords and relax is None and draw(st.integers(0, 5)) == 0:
            free = [i for i in range(n) if i not in cons_pos]
            if free:
                s[draw(st.sampled_from(free))] = "1 + sin(%s)/4" % NAMES[draw(st.integers(0, dim - 1))]
        src = {}
        if sources and draw(st.booleans()):
            for u in names[k]:
                if draw(st.booleans()):
                    src[u] = expr(draw, coupling, dim, coords, pnames, time, nonlinear)
        sch.update(polys=polys, eq=eq, s=s, cons=names[k], pos=cons_pos, src=src)
    return {"dim": dim, "la": la, "params": params, "schemes": out}


@st.composite
def box(draw, dim, vmax, lo=2, hi=8, dx=None):
    n = [draw(st.integers(max(lo, vmax[d]), max(hi, vmax[d]))) for d in range(dim)]
    dx = dx or draw(st.sampled_from([1.0, 0.5, 0.25, 0.125, 0.1]))
    org = [draw(st.sampled_from([0, 0, 1, -2, 3])) * dx for d in range(dim)]
    return {"n": n, "dx": dx, "org": org}


def vmax_of(spec):
    dim = spec["dim"]
    out = [0] * dim
    for s in spec["schemes"]:
        for k in s["v"]:
            for d, c in enumerate(vel_full(dim, k)):
                out[d] = max(out[d], abs(c))
    return out


@st.composite
def field(draw, dim, amp=(1, 8)):
    """a smooth field: [mean, amplitude, phases...] -> mean + amp*cos(sum k_i x_i + ph)"""
    return [draw(st.integers(-16, 16)) / 8, draw(st.integers(-8, 8)) / 8] + \
           [draw(st.integers(-40, 40)) / 8 for _ in range(dim)] + [draw(st.integers(0, 8)) / 4]


def field_fn(c):
    dim = len(c) - 3
    def f1(x):
        return c[0] + c[1] * np.cos(c[2] * x + c[-1])
    def f2(x, y):
        return c[0] + c[1] * np.cos(c[2] * x + c[3] * y + c[-1])
    def f3(x, y, z):
        return c[0] + c[1] * np.cos(c[2] * x + c[3] * y + c[4] * z + c[-1])
    return [f1, f2, f3][dim - 1]


# ---------------------------------------------------------------------------
# from the data to pylbm
# ---------------------------------------------------------------------------
def sym(name):
    return sp.Symbol(name)


def local_symbols(spec):
    names = list("XYZ") + ["t", "LA"] + list(spec["params"]) + \
        sum([s["cons"] for s in spec["schemes"]], [])
    names += list(spec.get("extra", {}))
    return {n: sym(n) for n in names}


def parse(spec, e):
    if not isinstance(e, str):
        return e
    return sp.sympify(e, locals=local_symbols(spec), rational=False)


def num(spec, e):
    """numbers stay numbers for the dictionary"""
    x = parse(spec, e)
    if isinstance(x, sp.Expr) and x.is_number:
        if x.is_Integer:
            return int(x)
        if x.is_Float:
            return float(x)
    return x


def la_value(spec):
    la = spec["la"]
    return float(spec["params"]["LA"]) if la == "LA" else float(Fraction(la))


def scheme_dict(spec):
    la = spec["la"]
    d = {
        "dim": spec["dim"],
        "scheme_velocity": sym("LA") if la == "LA" else float(Fraction(la)),
        "schemes": [],
    }
    if spec["params"]:
        d["parameters"] = {sym(k): v for k, v in spec["params"].items()}
    for s in spec["schemes"]:
        cons = [sym(c) for c in s["cons"]]
        x = {
            "velocities": list(s["v"]),
            "conserved_moments": cons if len(cons) > 1 or s.get("aslist") else cons[0],
            "polynomials": [num(spec, p) for p in s["polys"]],
            "relaxation_parameters": [num(spec, p) for p in s["s"]],
            "equilibrium": [num(spec, p) for p in s["eq"]],
        }
        if s.get("src"):
            x["source_terms"] = {sym(k): num(spec, v) for k, v in s["src"].items()}
        d["schemes"].append(x)
    if spec.get("rel_vel"):
        d["relative_velocity"] = [num(spec, p) for p in spec["rel_vel"]]
    return d


def box_dict(bx, label=-1):
    d = {}
    for name, n, o in zip("xyz", bx["n"], bx["org"]):
        d[name] = [o, o + n * bx["dx"]]
    d["label"] = label
    return d


def sim_dict(spec, bx, init=None, inittype="moments", label=-1, backend="numpy"):
    d = scheme_dict(spec)
    del d["dim"]
    d["box"] = box_dict(bx, label)
    d["space_step"] = bx["dx"]
    d["generator"] = backend
    d["inittype"] = inittype
    if init is not None:
        d["init"] = {(sym(k) if isinstance(k, str) else int(k)): v for k, v in init.items()}
    return d


def get_F(sim, ns):
    return np.array([np.array(sim.F[k]) for k in range(ns)])


def nvtot(spec):
    return sum(len(s["v"]) for s in spec["schemes"])


# ---------------------------------------------------------------------------
# the reference
# ---------------------------------------------------------------------------
class Ref:
    """Dense reference of the D'Humieres scheme, on a grid of cell centres.
    `f` has the shape [nvtot, *n]; distributions are in the order of the description;
    moments in the order of the description too."""

    def __init__(self, spec, bx, extra=None):
        self.spec, self.bx = spec, bx
        self.dim = spec["dim"]
        self.la = la_value(spec)
        self.dt = bx["dx"] / self.la
        self.t = 0.0
        self.n = list(bx["n"])
        x = [o + (np.arange(n) + 0.5) * bx["dx"] for o, n in zip(bx["org"], bx["n"])]
        self.x = np.meshgrid(*x, indexing="ij")
        self.vals = dict(spec["params"])
        self.vals.update(extra or {})
        self.sch = []
        off = 0
        self.index = {}
        symbols = [sym(c) for c in "XYZ"[: self.dim]]
        consts = {sym(k): v for k, v in self.vals.items()}
        self.allcons = sum([s["cons"] for s in spec["schemes"]], [])
        args = [sym("t")] + symbols + [sym(u) for u in self.allcons] + [sym(k) for k in self.vals]
        for s in spec["schemes"]:
            v = np.array([vel_full(self.dim, k) for k in s["v"]])
            polys = [sp.lambdify(symbols + list(consts), parse(spec, p), "numpy") for p in s["polys"]]
            M = self.moment_matrix(polys, v, [0.0] * self.dim)
            eq = [sp.lambdify(args, parse(spec, e), "numpy") for e in s["eq"]]
            rel = [sp.lambdify(args, parse(spec, e), "numpy") for e in s["s"]]
            src = {c: sp.lambdify(args, parse(spec, e), "numpy") for c, e in s.get("src", {}).items()}
            for c, pos in zip(s["cons"], s["pos"]):
                self.index[c] = off + pos
            self.sch.append(dict(v=v, polys=polys, M=M, invM=np.linalg.inv(M), eq=eq, s=rel, src=src,
                                 sl=slice(off, off + len(v)), pos=s["pos"], cons=s["cons"]))
            off += len(v)
        self.q = off
        self.V = np.concatenate([s["v"] for s in self.sch])
        self.cond_u = 1.0
        self.rel_vel = None
        if spec.get("rel_vel"):
            self.rel_vel = [sp.lambdify(args, parse(spec, e), "numpy") for e in spec["rel_vel"]]
        self.f = np.zeros([off] + self.n)

    def moment_matrix(self, polys, v, u):
        pv = list(self.vals.values())
        cols = []
        for p in polys:
            cols.append([p(*[c * self.la - uu for c, uu in zip(w, u)], *pv) for w in v])
        shape = np.broadcast_shapes(*[np.shape(x) for x in u])
        return np.array([[np.broadcast_to(np.asarray(a, dtype=float), shape) for a in row]
                         for row in cols])

    def f2m(self, f):
        m = np.empty_like(f)
        for s in self.sch:
            m[s["sl"]] = np.tensordot(s["M"], f[s["sl"]], axes=(1, 0))
        return m

    def m2f(self, m):
        f = np.empty_like(m)
        for s in self.sch:
            f[s["sl"]] = np.tensordot(s["invM"], m[s["sl"]], axes=(1, 0))
        return f

    def _args(self, m, x=None, t=None):
        return [self.t if t is None else t] + list(self.x if x is None else x) + \
            [m[self.index[c]] for c in self.allcons] + list(self.vals.values())

    def equilibrium(self, m, x=None, t=None):
        out = np.empty_like(m)
        a = self._args(m, x, t)
        for s in self.sch:
            for i, e in enumerate(s["eq"]):
                out[s["sl"].start + i] = e(*a)
        return out

    def source(self, m):
        new = m.copy()
        a = self._args(m)
        for s in self.sch:
            for c, e in s["src"].items():
                new[self.index[c]] = m[self.index[c]] + self.dt / 2 * e(*a)
        return new

    def relax_rates(self, m):
        out = np.empty_like(m)
        a = self._args(m)
        for s in self.sch:
            for i, e in enumerate(s["s"]):
                out[s["sl"].start + i] = e(*a)
        return out

    def transport(self, f):
        out = np.empty_like(f)
        for k in range(self.q):
            out[k] = np.roll(f[k], tuple(int(c) for c in self.V[k]), axis=tuple(range(self.dim)))
        return out

    def collide(self, f):
        m = self.f2m(f)
        if self.rel_vel is None:
            m = self.source(m)
            s, eq = self.relax_rates(m), self.equilibrium(m)
            m = (1 - s) * m + s * eq
            m = self.source(m)
            return self.m2f(m)
        a = self._args(m)
        u = [np.broadcast_to(np.asarray(e(*a), dtype=float), self.n) for e in self.rel_vel]
        rates, eq = self.relax_rates(m), self.equilibrium(m)
        out = np.empty_like(f)
        for s in self.sch:
            Mu = self.moment_matrix(s["polys"], s["v"], u)  # [i, j, *n] or [i, j]
            Mu = np.broadcast_to(Mu.reshape(Mu.shape + (1,) * (2 + self.dim - Mu.ndim)),
                                 Mu.shape[:2] + tuple(self.n))
            Mu = np.moveaxis(Mu, (0, 1), (-2, -1))
            if np.all(np.isfinite(Mu)):
                self.cond_u = max(self.cond_u, float(np.max(np.linalg.cond(Mu))))
            ff = np.moveaxis(f[s["sl"]], 0, -1)
            feq = np.moveaxis(np.tensordot(s["invM"], eq[s["sl"]], axes=(1, 0)), 0, -1)
            mt = (Mu @ ff[..., None])[..., 0]
            et = (Mu @ feq[..., None])[..., 0]
            r = np.moveaxis(rates[s["sl"]].copy(), 0, -1)
            r[..., s["pos"]] = 0
            mt = (1 - r) * mt + r * et
            out[s["sl"]] = np.moveaxis(np.linalg.solve(Mu, mt[..., None])[..., 0], -1, 0)
        return out

    def step(self):
        self.f = self.collide(self.transport(self.f))
        self.t += self.dt

    def init_moments(self, values):
        """values: {conserved moment: array or number}"""
        m = np.zeros([self.q] + self.n)
        for c, v in values.items():
            m[self.index[c]] = v
        m = self.equilibrium(m)
        self.f = self.m2f(m)
        return m


def scale_of(*arrays):
    return max([1.0] + [float(np.max(np.abs(a))) for a in arrays if np.size(a)])


def close(a, b, tol=1e-9, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(b))):
        return True  # the reference itself overflows: nothing to say
    sc = scale if scale is not None else scale_of(b)
    return bool(np.all(np.abs(a - b) <= tol * sc))


def conds(ref):
    return max(np.linalg.cond(s["M"]) for s in ref.sch)
