"""Geometrical elements as plain data, and their exact geometry, made independently of pylbm.

Each element is the image, by an affine map, of a canonical convex body: a list of half
spaces n.y <= b and possibly a unit ball in the first `k` coordinates.
"""
import itertools

import numpy as np
from hypothesis import strategies as st

KINDS = {
    2: ["circle", "ellipse", "triangle", "parallelogram"],
    3: ["sphere", "ellipsoid", "cyl_circle", "cyl_ellipse", "cyl_triangle", "parallelepiped"],
}
NFACES = {"circle": 1, "ellipse": 1, "triangle": 3, "parallelogram": 4, "sphere": 1, "ellipsoid": 1,
          "cyl_circle": 3, "cyl_ellipse": 3, "cyl_triangle": 5, "parallelepiped": 6, "stl_box": 6, "stl_tetra": 4}
STL = ["stl_box", "stl_tetra"]


# ---------------------------------------------------------------------------
# data
# ---------------------------------------------------------------------------
def _rotations():
    """integer matrices with orthogonal columns of the same norm"""
    out = []
    for a, b, c, d in itertools.product(range(-2, 3), repeat=4):
        if a * a + b * b + c * c + d * d == 0:
            continue
        out.append([[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
                    [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
                    [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]])
    return out


ROTATIONS = _rotations()


def _dyadic(draw, lo, hi, den=64):
    return draw(st.integers(int(lo * den), int(hi * den))) / den


@st.composite
def elements(draw, dim, lo, hi, size, kinds=None, labels=None, fluid=None, aligned=False):
    """an element whose reference point is in [lo, hi]^dim, and whose size is about `size`
    lo, hi: lists; labels: strategy for one label"""
    kind = draw(st.sampled_from(kinds or KINDS[dim]))
    c = [_dyadic(draw, a, b) for a, b in zip(lo, hi)]
    labels = labels or st.integers(0, 9)
    e = {"kind": kind, "c": c, "fluid": draw(st.booleans()) if fluid is None else fluid}
    s = lambda: max(_dyadic(draw, size / 8, size), 1 / 64)
    if kind in ("circle", "sphere"):
        e["r"] = s()
    elif kind == "ellipse":
        a, b = draw(st.tuples(st.integers(-8, 8), st.integers(-8, 8)).filter(lambda x: x != (0, 0)))
        r = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, -0.5, -1.0]))
        f = 2.0 ** np.floor(np.log2(size / (max(abs(a), abs(b)) * max(1, abs(r)))))
        f = float(f)
        e["v"] = [[a * f, b * f], [-b * f * r, a * f * r]]
    elif kind in ("triangle", "parallelogram"):
        v = draw(st.tuples(*[st.integers(-12, 12)] * 4).filter(
            lambda v: abs(v[0] * v[3] - v[1] * v[2]) >= 6))
        if aligned or draw(st.integers(0, 2)) == 0:
            p, q = draw(st.sampled_from([1, -1])) * s(), draw(st.sampled_from([1, -1])) * s()
            e["v"] = [[p, 0.0], [0.0, q]] if draw(st.booleans()) else [[0.0, p], [q, 0.0]]
        else:
            f = float(2.0 ** np.floor(np.log2(size / 6)))
            e["v"] = [[v[0] * f, v[1] * f], [v[2] * f, v[3] * f]]
    elif kind == "ellipsoid":
        R = draw(st.sampled_from(ROTATIONS))
        n = float(np.sqrt(R[0][0] ** 2 + R[1][0] ** 2 + R[2][0] ** 2))
        f = float(2.0 ** np.floor(np.log2(size / n)))
        sc = [draw(st.sampled_from([0.5, 1.0, 0.25, 0.75])) * f for _ in range(3)]
        e["v"] = [[R[i][j] * sc[j] for i in range(3)] for j in range(3)]
    else:
        if aligned or draw(st.integers(0, 2)) == 0:
            perm = draw(st.permutations(range(3)))
            sg = [draw(st.sampled_from([1, -1])) for _ in range(3)]
            le = [s() for _ in range(3)]
            if kind == "cyl_circle":
                le[1] = le[0]
            v = [[0.0] * 3 for _ in range(3)]
            for i in range(3):
                v[i][perm[i]] = sg[i] * le[i]
            e["v"] = v
        elif kind in ("cyl_circle", "cyl_ellipse"):
            R = draw(st.sampled_from(ROTATIONS))
            n = float(np.sqrt(R[0][0] ** 2 + R[1][0] ** 2 + R[2][0] ** 2))
            f = float(2.0 ** np.floor(np.log2(size / n)))
            sc = [draw(st.sampled_from([0.5, 1.0, 0.75])) * f for _ in range(3)]
            if kind == "cyl_circle":
                sc[1] = sc[0]
            e["v"] = [[R[i][j] * sc[j] for i in range(3)] for j in range(3)]
            if draw(st.booleans()):  # oblique axis
                e["v"][2] = [w + 0.25 * a - 0.5 * b for w, a, b in zip(e["v"][2], e["v"][0], e["v"][1])]
            if kind == "cyl_circle" and draw(st.integers(0, 3)) == 0:  # two radii which are not orthogonal
                c, d = draw(st.sampled_from([(0.6, 0.8), (-0.6, 0.8), (0.8, -0.6), (-0.8, -0.6)]))
                e["v"][1] = [c * a + d * b for a, b in zip(*e["v"][:2])]
        else:
            v = draw(st.lists(st.integers(-8, 8), min_size=9, max_size=9).filter(
                lambda v: abs(np.linalg.det(np.reshape(v, (3, 3)))) >= 100))
            f = float(2.0 ** np.floor(np.log2(size / 6)))
            e["v"] = [[x * f for x in v[3 * i:3 * i + 3]] for i in range(3)]
    nf = NFACES[kind]
    if kind not in STL and draw(st.integers(0, 2)):
        e["label"] = [draw(labels) for _ in range(nf)]
    else:
        e["label"] = draw(labels)
    return e


def build(e):
    """the element of pylbm"""
    import pylbm
    k, c, lab = e["kind"], e["c"], e["label"]
    kw = dict(label=list(lab) if isinstance(lab, list) else lab, isfluid=e["fluid"])
    v = e.get("v")
    if k in STL:
        return pylbm.elements.stl_element.STLElement(stl_file(e), **kw)
    return {
        "circle": lambda: pylbm.Circle(c, e["r"], **kw),
        "sphere": lambda: pylbm.Sphere(c, e["r"], **kw),
        "ellipse": lambda: pylbm.Ellipse(c, *v, **kw),
        "ellipsoid": lambda: pylbm.Ellipsoid(c, *v, **kw),
        "triangle": lambda: pylbm.Triangle(c, *v, **kw),
        "parallelogram": lambda: pylbm.Parallelogram(c, *v, **kw),
        "cyl_circle": lambda: pylbm.CylinderCircle(c, *v, **kw),
        "cyl_ellipse": lambda: pylbm.CylinderEllipse(c, *v, **kw),
        "cyl_triangle": lambda: pylbm.CylinderTriangle(c, *v, **kw),
        "parallelepiped": lambda: pylbm.Parallelepiped(c, *v, **kw),
    }[k]()


def triangles(e):
    """the triangles of the surface, counterclockwise seen from outside: [n, 3, 3]"""
    c, v = np.array(e["c"]), np.array(e["v"])
    if e["kind"] == "stl_tetra":
        p = [c, c + v[0], c + v[1], c + v[2]]
        faces = [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]
    else:
        p = [c + i * v[0] + j * v[1] + k * v[2] for i in (0, 1) for j in (0, 1) for k in (0, 1)]
        faces = [f for a, b, d, g in [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
                 for f in ((a, b, d), (a, d, g))]
    t = np.array([[p[i] for i in f] for f in faces])
    return t if np.linalg.det(v) > 0 else t[:, ::-1]


def stl_file(e):
    """the name of a file, in the current directory, which contains the surface"""
    import hashlib
    import json
    from stl import mesh
    name = "s%s.stl" % hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest()[:12]
    t = triangles(e)
    data = np.zeros(len(t), dtype=mesh.Mesh.dtype)
    data["vectors"] = t
    mesh.Mesh(data).save(name)
    return name


# ---------------------------------------------------------------------------
# geometry
# ---------------------------------------------------------------------------
class Body:
    """The convex body of an element. Faces are numbered as the labels of the element."""

    def __init__(self, e):
        k = e["kind"]
        self.e = e
        c = np.array(e["c"], dtype=float)
        self.dim = dim = len(c)
        self.ball = 0
        self.planes = []  # (face, n, b)
        if k in ("circle", "sphere"):
            A = np.eye(dim) * e["r"]
            self.ball = dim
        else:
            A = np.array(e["v"], dtype=float).T.copy()
            if k in ("ellipse", "ellipsoid"):
                self.ball = dim
            elif k == "triangle":
                self.planes = [(0, (0, -1), 0), (1, (-1, 0), 0), (2, (1, 1), 1)]
            elif k == "parallelogram":
                self.planes = [(0, (0, -1), 0), (1, (-1, 0), 0), (2, (0, 1), 1), (3, (1, 0), 1)]
            elif k in ("cyl_circle", "cyl_ellipse"):
                if k == "cyl_circle":  # orthogonal radii
                    r = np.linalg.norm(A[:, 0])
                    A[:, 1] -= A[:, 0] * np.inner(A[:, 0], A[:, 1]) / r**2
                    A[:, 1] *= r / np.linalg.norm(A[:, 1])
                self.ball = 2
                self.planes = [(1, (0, 0, -1), 1), (2, (0, 0, 1), 1)]
            elif k == "cyl_triangle":
                self.planes = [(0, (0, -1, 0), 0), (1, (-1, 0, 0), 0), (2, (1, 1, 0), 1),
                               (3, (0, 0, -1), 1), (4, (0, 0, 1), 1)]
            elif k == "stl_tetra":
                self.planes = [(0, (0, -1, 0), 0), (1, (-1, 0, 0), 0), (2, (0, 0, -1), 0), (3, (1, 1, 1), 1)]
            elif k in ("parallelepiped", "stl_box"):
                self.planes = [(0, (0, -1, 0), 0), (1, (-1, 0, 0), 0), (2, (1, 0, 0), 1), (3, (0, 1, 0), 1),
                               (4, (0, 0, -1), 0), (5, (0, 0, 1), 1)]
        self.c, self.A, self.iA = c, A, np.linalg.inv(A)
        lab = e["label"]
        self.labels = list(lab) if isinstance(lab, list) else [lab] * NFACES[k]
        self.nfaces = NFACES[k]

    def level(self, pts):
        """<= 0 inside; pts: [..., dim]; in canonical units"""
        y = (np.asarray(pts, dtype=float) - self.c) @ self.iA.T
        g = np.full(y.shape[:-1], -np.inf)
        if self.ball:
            g = np.sqrt(np.sum(y[..., : self.ball] ** 2, axis=-1)) - 1
        for _, n, b in self.planes:
            g = np.maximum(g, y @ np.array(n, dtype=float) - b)
        return g

    def clip(self, pts, v):
        """intersection of the lines pts + t*v with the body.
        Returns t_in, t_out, face_in, face_out, gap. t_in > t_out: no intersection.
        gap: difference with the next candidates (0: the line goes through an edge)."""
        pts = np.asarray(pts, dtype=float)
        y = (pts - self.c) @ self.iA.T
        w = np.broadcast_to(np.asarray(v, dtype=float), pts.shape) @ self.iA.T
        shp = y.shape[:-1]
        t_in, t_out = np.full(shp, -np.inf), np.full(shp, np.inf)
        f_in, f_out = np.full(shp, -1), np.full(shp, -1)
        s_in, s_out = np.full(shp, -np.inf), np.full(shp, np.inf)  # seconds

        def enter(t, face, mask=True):
            nonlocal t_in, f_in, s_in
            better = (t > t_in) & mask
            s_in = np.where(better, t_in, np.where(mask, np.maximum(s_in, t), s_in))
            f_in = np.where(better, face, f_in)
            t_in = np.where(better, t, t_in)

        def leave(t, face, mask=True):
            nonlocal t_out, f_out, s_out
            better = (t < t_out) & mask
            s_out = np.where(better, t_out, np.where(mask, np.minimum(s_out, t), s_out))
            f_out = np.where(better, face, f_out)
            t_out = np.where(better, t, t_out)

        empty = np.zeros(shp, dtype=bool)
        tangent = np.zeros(shp, dtype=bool)
        with np.errstate(all="ignore"):
            if self.ball:
                yb, wb = y[..., : self.ball], w[..., : self.ball]
                a, b = np.sum(wb * wb, -1), np.sum(yb * wb, -1)
                c = np.sum(yb * yb, -1) - 1
                d = b * b - a * c
                tangent |= np.abs(d) < 1e-8 * (b * b + a * np.abs(c) + a)
                par = a < 1e-18
                empty |= par & (c > 0)
                tangent |= par & (np.abs(c) < 1e-9)
                empty |= ~par & (d < 0)
                r = np.sqrt(np.maximum(d, 0))
                enter((-b - r) / a, 0, ~par)
                leave((-b + r) / a, 0, ~par)
            for face, n, bb in self.planes:
                n = np.array(n, dtype=float)
                nw, ny = w @ n, y @ n - bb
                par = np.abs(nw) < 1e-13 * np.sqrt(np.sum(w * w, -1))
                empty |= par & (ny > 0)
                tangent |= par & (np.abs(ny) < 1e-9)
                t = -ny / nw
                enter(t, face, ~par & (nw < 0))
                leave(t, face, ~par & (nw > 0))
            t_in = np.where(empty, np.inf, t_in)
            t_out = np.where(empty, -np.inf, t_out)
            gap = np.minimum(t_in - s_in, s_out - t_out)
            gap = np.where(np.isnan(gap), np.inf, gap)
            gap = np.minimum(gap, np.where(empty, np.inf, np.abs(t_out - t_in)))
            gap = np.where(tangent, 0, gap)
        return t_in, t_out, f_in, f_out, gap

    def normal(self, face, pts):
        """unit outward normal (physical) at the points `pts` of the face (arrays)"""
        pts = np.asarray(pts, dtype=float)
        y = (pts - self.c) @ self.iA.T
        n = np.zeros_like(y)
        if self.ball:
            isb = np.asarray(face) == 0
            n[isb, : self.ball] = y[isb, : self.ball]
        for f, m, _ in self.planes:
            n[np.asarray(face) == f] = m
        n = n @ self.iA
        nn = np.linalg.norm(n, axis=-1, keepdims=True)
        return n / np.where(nn == 0, 1, nn)

    def bounds(self):
        """exact bounding box"""
        lo = np.empty(self.dim)
        hi = np.empty(self.dim)
        for i in range(self.dim):
            row = self.A[i]
            if self.ball:
                r = np.linalg.norm(row[: self.ball]) + np.sum(np.abs(row[self.ball:]))
                lo[i], hi[i] = self.c[i] - r, self.c[i] + r
            else:
                k = self.e["kind"]
                base = [(0, 0), (1, 0), (0, 1)] + ([(1, 1)] if k in ("parallelogram", "parallelepiped", "stl_box") else [])
                if k == "stl_tetra":
                    vals = np.array([self.c] + [self.c + self.A[:, j] for j in range(3)])[:, i]
                    lo[i], hi[i] = vals.min(), vals.max()
                    continue
                ext = [()] if self.dim == 2 else ([(-1,), (1,)] if k == "cyl_triangle" else [(0,), (1,)])
                vals = [self.c[i] + float(np.dot(row, p + q)) for p in base for q in ext]
                lo[i], hi[i] = min(vals), max(vals)
        return lo, hi


# ---------------------------------------------------------------------------
# domains
# ---------------------------------------------------------------------------
class DomainModel:
    """Fluid cells and walls of a domain: box + elements (last one wins)."""

    def __init__(self, bx, elems, labels, tol=1e-7):
        """bx: {"n", "dx", "org"}; labels: of the sides of the box (2*dim)"""
        self.bx, self.labels = bx, labels
        self.dx = bx["dx"]
        self.dim = len(bx["n"])
        self.bodies = [(Body(e), e["fluid"]) for e in elems]
        self.lo = np.array(bx["org"], dtype=float)
        self.hi = self.lo + np.array(bx["n"]) * self.dx
        self.x = [o + (np.arange(n) + 0.5) * self.dx for o, n in zip(bx["org"], bx["n"])]
        self.pts = np.stack(np.meshgrid(*self.x, indexing="ij"), -1)
        self.fluid, self.sure = self.status(self.pts, tol)

    def status(self, pts, tol=1e-7):
        """fluid (array of bool), and sure: not at the round-off of a surface"""
        pts = np.asarray(pts)
        inbox = np.all((pts > self.lo) & (pts < self.hi), axis=-1)
        fluid = inbox.copy()
        sure = np.ones(fluid.shape, dtype=bool)
        for body, isf in self.bodies:
            g = body.level(pts)
            fluid = np.where(g <= 0, isf, fluid)
            sure &= np.abs(g) > tol
        return fluid & inbox, sure

    def walls(self, v):
        """for a velocity v (integers): dictionary of arrays over the cells
          wall: the cell reached by the velocity is not fluid (only where the cell is fluid)
          sure: the answer is not at the round-off
          single: exactly one crossing of the border of the fluid along the segment, at most
            one before the last elements are added, and no element is entered and left between the two cells (not resolved by the grid)
          dist, label candidates, normal of this crossing"""
        v = np.array(v, dtype=int)
        dim, dx = self.dim, self.dx
        pts = self.pts
        shp = pts.shape[:-1]
        w = v * dx
        target, tsure = self.status(pts + w)
        wall = self.fluid & ~target
        sure = self.sure & tsure
        # breakpoints
        ts, tags, ends = [], [], []
        gap = np.full(shp, np.inf)
        clipped = np.zeros(shp, dtype=bool)
        for d in range(dim):
            if v[d]:
                side = 2 * d + (1 if v[d] > 0 else 0)
                b = self.hi[d] if v[d] > 0 else self.lo[d]
                ts.append((b - pts[..., d]) / w[d])
                tags.append(("box", side, None))
        # a wall of the box is seen through the periodic sides
        walled = np.zeros(shp, dtype=bool)
        for t, (_, side, _) in zip(ts, tags):
            walled |= (t < 1) & (self.labels[side] != -1)
        through = np.zeros(shp, dtype=bool)
        for t, (_, side, _) in zip(ts, tags):
            through |= walled & (t < 1) & (self.labels[side] == -1)
        ts = [np.where(walled & (self.labels[side] == -1), np.inf, t) for t, (_, side, _) in zip(ts, tags)]
        solid_sides = [d for d in range(dim) if self.labels[2 * d + (1 if v[d] > 0 else 0)] != -1]
        for k, (body, isf) in enumerate(self.bodies):
            t_in, t_out, f_in, f_out, g = body.clip(pts, w)
            hit = t_in <= t_out
            ends.append((t_in, t_out))
            ts.append(np.where(hit, t_in, np.inf))
            tags.append(("in", k, f_in))
            ts.append(np.where(hit, t_out, np.inf))
            tags.append(("out", k, f_out))
            clipped |= (t_in > 0) & (t_out < 1) & (t_in <= t_out)
            near = (t_out > -1e-6) & (t_in < 1 + 1e-6) | (g == 0)
            gap = np.where(near, np.minimum(gap, g), gap)
        T = np.array(ts)
        T = np.where((T > 0) & (T < 1), T, np.inf)
        order = np.sort(T, axis=0)
        edges = np.concatenate([np.zeros((1,) + shp), order, np.full((1,) + shp, np.inf)])
        edges = np.where(np.isfinite(edges), edges, 1.0)
        ntrans = np.zeros((len(self.bodies) + 1,) + shp, dtype=int)  # after each element
        tstar = np.full(shp, np.inf)
        state = [None] * (len(self.bodies) + 1)
        for i in range(len(edges) - 1):
            a, b = edges[i], edges[i + 1]
            wide = b - a > 1e-9
            mid = pts + ((a + b) / 2)[..., None] * w
            inside = (mid > self.lo) & (mid < self.hi)
            inbox = np.where(walled, np.all(inside[..., solid_sides], axis=-1), np.all(inside, axis=-1))
            s = inbox
            for k in range(len(self.bodies) + 1):
                if k:
                    body, isf = self.bodies[k - 1]
                    s = np.where(body.level(mid) <= 0, isf, s) & inbox
                if state[k] is None:
                    state[k] = s
                change = wide & (s != state[k])
                ntrans[k] += change
                if k == len(self.bodies):
                    tstar = np.where(change & ~s & ~np.isfinite(tstar), a, tstar)
                state[k] = np.where(wide, s, state[k])
        ntrans, resolved = ntrans[-1], np.all(ntrans <= 1, axis=0)
        single = wall & (ntrans == 1) & resolved & ~clipped
        # configurations which are not resolved by the grid (see DESIGN.md, P12)
        before = np.ones(shp, dtype=bool)  # the cell is fluid before the element is added
        for k, (body, isf) in enumerate(self.bodies):
            t_in, t_out = ends[k]
            inside = body.level(pts) <= 0
            if isf:
                single &= ~((t_in > 0) & (t_in < 1) & (t_in <= t_out))
                single &= ~(inside & ~before & (t_out < tstar - 1e-9))
            before = np.where(inside, isf, before)
            single &= ~(through & (t_in <= t_out) & (t_out > 0) & (t_in < 1))
        # who is at t*
        cand = [np.abs(t - tstar) < 1e-7 for t in T]
        return dict(wall=wall, sure=sure, single=single, dist=tstar, T=T, tags=tags, cand=cand,
                    gap=gap, w=w)

    def label_of(self, res, i, idx):
        """label and normal (from fluid to solid) of the candidate i at the cell idx"""
        what, k, face = res["tags"][i]
        if what == "box":
            n = np.zeros(self.dim)
            n[k // 2] = 1 if k % 2 else -1
            return self.labels[k], n
        body, isf = self.bodies[k]
        f = int(face[idx])
        p = self.pts[idx] + res["dist"][idx] * res["w"]
        n = body.normal(np.array([f]), p[None])[0]
        if np.dot(n, res["w"]) < 0:
            n = -n
        return body.labels[f], n


@st.composite
def domains(draw, dim, max_elems=3, n=(3, 12), vmax=None, labels=None, fluid=None, kinds=None, periodic=True,
            dxs=None, sizes=(1.5, 2.5, 4, 8), min_elems=0):
    """box + elements + labels"""
    vmax = vmax or [1] * dim
    lo, hi = n
    nn = [draw(st.integers(max(lo, vmax[d]), max(hi, vmax[d]))) for d in range(dim)]
    dx = draw(st.sampled_from(dxs or [1.0, 0.5, 0.25, 0.125, 0.1]))
    org = [draw(st.sampled_from([0, 0, 1, -2])) * dx for _ in range(dim)]
    bx = {"n": nn, "dx": dx, "org": org}
    ne = draw(st.integers(min_elems, max_elems))
    a = [o - 1.5 * dx for o in org]
    b = [o + (m + 1.5) * dx for o, m in zip(org, nn)]
    elems = []
    if draw(st.integers(0, 7)) == 0:  # elements possibly far from the box
        a, b = [x - 9 * dx for x in a], [x + 9 * dx for x in b]
    if dim > 1:
        for _ in range(ne):
            elems.append(draw(elements(dim, a, b, draw(st.sampled_from(list(sizes))) * dx, labels=labels,
                                       kinds=kinds, fluid=fluid)))
    labels = labels or st.integers(0, 9)
    lab = []
    for d in range(dim):
        if periodic and draw(st.integers(0, 2)) == 0:
            lab += [-1, -1]
        else:
            lab += [draw(labels), draw(labels)]
    return {"box": bx, "elems": elems, "labels": lab}


def domain_dict(case, velocities):
    """dictionary for pylbm.Domain"""
    b = {}
    bx = case["box"]
    for name, m, o in zip("xyz", bx["n"], bx["org"]):
        b[name] = [o, o + m * bx["dx"]]
    b["label"] = list(case["labels"])
    d = {"box": b, "space_step": bx["dx"], "schemes": [{"velocities": list(v)} for v in velocities]}
    if case["elems"]:
        d["elements"] = [build(e) for e in case["elems"]]
    return d
