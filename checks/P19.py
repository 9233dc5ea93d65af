"""The routines written by the code generators, against the expressions they are made of.

A case is a module: a list of routines, each of them made of loops over ranges of one to
three dimensional arrays, with statements assigning scalar arrays, vectors of arrays, or
local variables. The expressions are trees; the tree is both turned into a sympy
expression and evaluated directly at each point (in extended precision, with a bound of
the rounding errors, from which the tolerance is computed: a point where a comparison or
a floor is not settled by this bound is not compared).
"""
import inspect

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from vlib.core import Family, info, require

from pylbm.generator import For, Generator, If
from pylbm.generator.ast import Assignment  # noqa: F401
from pylbm.symbolic import SymbolicVector, indexed, iv, nx, ny, nz, set_order, space_idx

RULE = ("a routine with an expression of depth at least 2, compared on at least one point, and leaving entries "
        "out of its range when the range is not the whole array")
ASSUMPTIONS = [
    "an array which is assigned in a loop is only read in this loop at the index of the assignment (the numpy code is vectorised)",
    "functions in the domain where they are real; the functions with no counterpart in a backend (Max, Min, erf, gamma, Heaviside, sinc) are out of the supported language",
    "an index of loop, or the size of an array, is not used as a value",
]

L = np.longdouble
EPS = L(2) ** -52
SIZES = [nx, ny, nz]


# --- expressions -----------------------------------------------------------------------

UN = ["neg", "sqrt", "invsqrt", "cbrt", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "log", "log2", "sinh",
      "cosh", "tanh", "asinh", "acosh", "atanh", "floor", "ceil", "abs", "sign", "sec", "cot", "inv", "sq",
      "expn"]
BIN = ["add", "sub", "mul", "div", "sdiv", "mod", "atan2", "powr"]
RARE = ["mod", "atan2", "powr"]


def leaf():
    return st.one_of(
        st.tuples(st.just("x"), st.integers(0, 5), st.lists(st.integers(-2, 2), min_size=3, max_size=3)).map(list),
        st.tuples(st.just("x"), st.integers(0, 5), st.just([0, 0, 0])).map(list),
        st.tuples(st.just("s"), st.integers(0, 1)).map(list),
        st.tuples(st.just("loc"), st.integers(0, 3)).map(list),
        st.tuples(st.just("out"), st.integers(0, 3)).map(list),
        st.tuples(st.just("i"), st.integers(-4, 9)).map(list),
        st.tuples(st.just("q"), st.integers(-9, 9), st.sampled_from([2, 3, 4, 6, 7, 12, 36])).map(list),
        st.tuples(st.just("r"), st.sampled_from([0.1, -2.5, 1.3, 0.75, 1e-3, 1.25e7, -0.3333, 2.0])).map(list),
        st.tuples(st.just("k"), st.sampled_from(["pi", "E", "GoldenRatio", "EulerGamma"])).map(list),
    )


def compare_(sub):
    rel = st.tuples(st.sampled_from(["lt", "le", "gt", "ge"]), sub, sub).map(list)
    return st.one_of(rel, rel, st.tuples(st.sampled_from(["and", "or"]), rel, rel).map(list),
                     st.tuples(st.just("not"), rel).map(list))


def extend(sub):
    return st.one_of(
        st.tuples(st.sampled_from(["add", "sub", "mul", "div", "sdiv"]), sub, sub).map(list),
        st.tuples(st.sampled_from(["add", "mul"]), sub, sub).map(list),
        st.tuples(st.sampled_from(BIN), sub, sub).map(list),
        st.tuples(st.sampled_from(UN), sub).map(list),
        st.tuples(st.just("pow"), sub, st.integers(-4, 5)).map(list),
        st.tuples(st.just("ipow"), st.one_of(leaf(), sub), st.integers(1, 4), sub).map(list),
        st.tuples(st.just("fpow"), sub, st.sampled_from([[3, 2], [-3, 2], [2, 3], [-1, 3], [5, 4], [-1, 2], [1, 2]])).map(list),
        st.tuples(st.just("pw"), compare_(sub), sub, sub).map(list),
        st.tuples(st.just("pw3"), compare_(sub), sub, compare_(sub), sub, sub).map(list),
        st.tuples(st.sampled_from(["umul", "uadd"]), sub, sub).map(list),
    )


def trees(leaves=10):
    return st.recursive(leaf(), extend, max_leaves=leaves)


def depth(t):
    kids = [k for k in t[1:] if isinstance(k, list) and k and isinstance(k[0], str)]
    return 1 + max([depth(k) for k in kids], default=0)


class Ctx:
    """names of the arrays of a routine, and their values"""

    def __init__(self, dim, reads, scalars, room, sizes):
        self.dim, self.reads, self.scalars, self.room, self.sizes = dim, reads, scalars, room, sizes
        self.locals_s, self.locals_v = [], []
        self.outs_s, self.outs_v = [], []


def guard(t, op):
    return op


def build(t, c):
    """the sympy expression of a tree"""
    k = t[0]
    if k == "x":
        return c.reads[t[1] % len(c.reads)][0](c.shift(t[2]))
    if k == "s":
        return c.scalars[t[1] % len(c.scalars)][0]
    if k == "loc":
        return c.locals_s[t[1] % len(c.locals_s)] if c.locals_s else sp.Integer(t[1] + 2)
    if k == "out":
        return c.outs_s[t[1] % len(c.outs_s)] if c.outs_s else sp.Integer(t[1] + 2)
    if k == "i":
        return sp.Integer(t[1])
    if k == "q":
        return sp.Rational(t[1], t[2])
    if k == "r":
        return sp.Float(t[1])
    if k == "k":
        return {"pi": sp.pi, "E": sp.E, "GoldenRatio": sp.GoldenRatio, "EulerGamma": sp.EulerGamma,
                }[t[1]]
    if k == "pow":
        b = build(t[1], c)
        return (b if t[2] >= 0 else b * b + sp.Rational(1, 2)) ** t[2]
    if k == "ipow":
        return build(t[3], c) / build(t[1], c) ** t[2]
    if k == "fpow":
        b = build(t[1], c)
        return (b * b + sp.Rational(1, 2)) ** sp.Rational(*t[2])
    if k == "pw":
        return sp.Piecewise((build(t[2], c), cond(t[1], c)), (build(t[3], c), True))
    if k == "pw3":
        return sp.Piecewise((build(t[2], c), cond(t[1], c)), (build(t[4], c), cond(t[3], c)), (build(t[5], c), True))
    a = build(t[1], c)
    if k in BIN + ["umul", "uadd"]:
        b = build(t[2], c)
        if k in ("umul", "uadd") and not (a.free_symbols and b.free_symbols):
            return a / (b + sp.Float(3.0625)) if k == "umul" else a - b
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                "div": lambda: a / (b * b + sp.Rational(3, 4)), "sdiv": lambda: a / b,
                "mod": lambda: sp.Mod(a, b * b + 1), "atan2": lambda: sp.atan2(a, b),
                "powr": lambda: (a * a + 1) ** sp.sin(b),
                "umul": lambda: sp.Mul(a, sp.Pow(sp.Add(b, sp.Float(3.0625), evaluate=False), -1, evaluate=False), evaluate=False),
                "uadd": lambda: sp.Add(a, sp.Mul(-1, b, evaluate=False), evaluate=False)}[k]()
    h, o = sp.Rational(1, 2), sp.Integer(1)
    return {
        "neg": lambda: -a, "sqrt": lambda: sp.sqrt(a * a + h), "invsqrt": lambda: 1 / sp.sqrt(a * a + h),
        "cbrt": lambda: (a * a + h) ** sp.Rational(1, 3), "exp": lambda: sp.exp(a / (1 + a * a)),
        "expn": lambda: sp.exp(-a * a / 2), "sin": lambda: sp.sin(a), "cos": lambda: sp.cos(a),
        "tan": lambda: sp.tan(a), "asin": lambda: sp.asin(a / (1 + a * a)), "acos": lambda: sp.acos(a / (1 + a * a)),
        "atan": lambda: sp.atan(a), "log": lambda: sp.log(a * a + h), "log2": lambda: sp.log(a * a + h, 2),
        "sinh": lambda: sp.sinh(a / (1 + a * a)), "cosh": lambda: sp.cosh(a / (1 + a * a)),
        "tanh": lambda: sp.tanh(a), "asinh": lambda: sp.asinh(a), "acosh": lambda: sp.acosh(a * a + o + h),
        "atanh": lambda: sp.atanh(a / (1 + a * a)), "floor": lambda: sp.floor(a), "ceil": lambda: sp.ceiling(a),
        "abs": lambda: sp.Abs(a), "sign": lambda: sp.sign(a), "sec": lambda: sp.sec(a), "cot": lambda: sp.cot(a),
        "inv": lambda: 1 / a, "sq": lambda: a * a,
    }[k]()


RELS = {"lt": sp.Lt, "le": sp.Le, "gt": sp.Gt, "ge": sp.Ge}


def cond(t, c):
    if t[0] == "and":
        return sp.And(cond(t[1], c), cond(t[2], c))
    if t[0] == "or":
        return sp.Or(cond(t[1], c), cond(t[2], c))
    if t[0] == "not":
        return sp.Not(cond(t[1], c))
    return RELS[t[0]](build(t[1], c), build(t[2], c))


# values: pairs (value, bound of the error), arrays of long doubles

def v(a, e=None):
    a = np.asarray(a, dtype=L)
    return a, (np.abs(a) * EPS if e is None else e)


def wrap(a, e):
    return a, e + np.abs(a) * EPS


def vadd(a, b, s=1):
    r = a[0] + s * b[0]
    return r, a[1] + b[1] + EPS * (np.abs(a[0]) + np.abs(b[0]))


def vmul(a, b):
    return wrap(a[0] * b[0], np.abs(a[0]) * b[1] + np.abs(b[0]) * a[1] + a[1] * b[1])


def vfun(f, a, *others):
    r = f(a[0], *[o[0] for o in others])
    e = np.maximum(np.abs(f(a[0] + a[1], *[o[0] for o in others]) - r), np.abs(f(a[0] - a[1], *[o[0] for o in others]) - r))
    if others:
        b = others[0]
        e = e + np.maximum(np.abs(f(a[0], b[0] + b[1]) - r), np.abs(f(a[0], b[0] - b[1]) - r))
    # (jump inside the error)
    return wrap(r, 2 * e)


SINGULAR = [False]                               # a division by zero in the routine which is evaluated


def vinv(a):
    bad = ~(np.abs(a[0]) > 4 * a[1])
    SINGULAR[0] = SINGULAR[0] or bad.any()
    d = np.where(bad, L(1), a[0])
    return wrap(np.where(bad, L(np.nan), 1 / d), 2 * a[1] / d ** 2)


def vconst(a):
    return v(L(a))


def value(t, c):
    k = t[0]
    if k == "x":
        return v(c.reads[t[1] % len(c.reads)][1](c.shift(t[2])))
    if k == "s":
        return v(c.scalars[t[1] % len(c.scalars)][1])
    if k == "loc":
        return c.locals_v[t[1] % len(c.locals_v)] if c.locals_v else v(t[1] + 2)
    if k == "out":
        return c.outs_v[t[1] % len(c.outs_v)] if c.outs_v else v(t[1] + 2)
    if k == "i":
        return v(t[1])
    if k == "q":
        return v(L(t[1]) / L(t[2]))
    if k == "r":
        return v(t[1])
    if k == "k":
        return v({"pi": L(np.pi), "E": L(np.e), "GoldenRatio": (1 + np.sqrt(L(5))) / 2,
                  "EulerGamma": L(np.euler_gamma)}[t[1]])
    half = vconst(0.5)
    if k == "pow":
        b = value(t[1], c)
        if t[2] < 0:
            b = vinv(vadd(vmul(b, b), half))
        r = v(np.ones_like(b[0]))
        for _ in range(abs(t[2])):
            r = vmul(r, b)
        return r
    if k == "ipow":
        b = value(t[1], c)
        r = b
        for _ in range(t[2] - 1):
            r = vmul(r, b)
        return vmul(value(t[3], c), vinv(r))
    if k == "fpow":
        b = value(t[1], c)
        p = L(t[2][0]) / L(t[2][1])
        return vfun(lambda x: x ** p, vadd(vmul(b, b), half))
    if k == "pw":
        return choose(vcond(t[1], c), value(t[2], c), value(t[3], c))
    if k == "pw3":
        return choose(vcond(t[1], c), value(t[2], c), choose(vcond(t[3], c), value(t[4], c), value(t[5], c)))
    a = value(t[1], c)
    if k in BIN + ["umul", "uadd"]:
        b = value(t[2], c)
        return {"add": lambda: vadd(a, b), "sub": lambda: vadd(a, b, -1), "mul": lambda: vmul(a, b),
                "div": lambda: vmul(a, vinv(vadd(vmul(b, b), vconst(0.75)))), "sdiv": lambda: vmul(a, vinv(b)),
                "mod": lambda: vfun(lambda x, y: x - y * np.floor(x / y), a, vadd(vmul(b, b), vconst(1))),
                "atan2": lambda: vfun(np.arctan2, a, b),
                "powr": lambda: vfun(lambda x, y: x ** y, vadd(vmul(a, a), vconst(1)), vfun(np.sin, b)),
                "umul": lambda: vmul(a, vinv(vadd(b, vconst(3.0625)))), "uadd": lambda: vadd(a, b, -1)}[k]()
    frac = lambda: vmul(a, vinv(vadd(vmul(a, a), vconst(1))))  # noqa: E731
    sqp = lambda s: vadd(vmul(a, a), vconst(s))  # noqa: E731
    return {
        "neg": lambda: (-a[0], a[1]), "sqrt": lambda: vfun(np.sqrt, sqp(.5)), "invsqrt": lambda: vinv(vfun(np.sqrt, sqp(.5))),
        "cbrt": lambda: vfun(np.cbrt, sqp(.5)), "exp": lambda: vfun(np.exp, frac()),
        "expn": lambda: vfun(np.exp, vmul(vmul(a, a), vconst(-.5))), "sin": lambda: vfun(np.sin, a),
        "cos": lambda: vfun(np.cos, a), "tan": lambda: vmul(vfun(np.sin, a), vinv(vfun(np.cos, a))),
        "asin": lambda: vfun(np.arcsin, frac()), "acos": lambda: vfun(np.arccos, frac()),
        "atan": lambda: vfun(np.arctan, a), "log": lambda: vfun(np.log, sqp(.5)), "log2": lambda: vfun(np.log2, sqp(.5)),
        "sinh": lambda: vfun(np.sinh, frac()), "cosh": lambda: vfun(np.cosh, frac()), "tanh": lambda: vfun(np.tanh, a),
        "asinh": lambda: vfun(np.arcsinh, a), "acosh": lambda: vfun(np.arccosh, sqp(1.5)),
        "atanh": lambda: vfun(np.arctanh, frac()), "floor": lambda: settled(np.floor, a), "ceil": lambda: settled(np.ceil, a),
        "abs": lambda: (np.abs(a[0]), a[1]), "sign": lambda: settled(np.sign, a), "sec": lambda: vinv(vfun(np.cos, a)),
        "cot": lambda: vmul(vfun(np.cos, a), vinv(vfun(np.sin, a))), "inv": lambda: vinv(a), "sq": lambda: vmul(a, a),
    }[k]()


def settled(f, a):
    m = 8 * a[1] + L(1e-13) * (1 + np.abs(a[0]))
    r = f(a[0])
    return np.where((f(a[0] + m) == r) & (f(a[0] - m) == r), r, L(np.nan)), np.zeros_like(r)


def choose(test, a, b):
    yes, no = test
    val = np.where(yes, a[0], np.where(no, b[0], L(np.nan)))
    return val, np.where(yes, a[1], b[1])


def vcond(t, c):
    """(certainly true, certainly false)"""
    if t[0] in ("and", "or"):
        p, q = vcond(t[1], c), vcond(t[2], c)
        if t[0] == "and":
            return p[0] & q[0], p[1] | q[1]
        return p[0] | q[0], p[1] & q[1]
    if t[0] == "not":
        p = vcond(t[1], c)
        return p[1], p[0]
    a, b = value(t[1], c), value(t[2], c)
    m = 8 * (a[1] + b[1]) + L(1e-13) * (np.abs(a[0]) + np.abs(b[0]))
    up, lo = a[0] > b[0] + m, a[0] < b[0] - m
    return (up, lo) if t[0] in ("gt", "ge") else (lo, up)


# --- routines --------------------------------------------------------------------------

@st.composite
def routine(draw, dims, leaves):
    dim = draw(st.sampled_from(dims))
    r = {"dim": dim,
         "reads": draw(st.lists(st.sampled_from(["array", "array", "vector", "packed"]), min_size=1, max_size=3)),
         "priority": draw(st.permutations(range(dim + 1))),
         "loops": []}
    lo = [draw(st.integers(0, 2)) for _ in range(dim)]
    up = [draw(st.integers(0, 2)) for _ in range(dim)]
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        body = []
        for _ in range(draw(st.integers(1, 3))):
            kind = draw(st.sampled_from(["array", "array", "local", "vector", "inplace"]))
            if kind == "vector":
                nv = draw(st.integers(2, 3))
                body.append({"kind": kind, "nv": nv,
                             "rhs": [draw(trees(leaves // 2)) for _ in range(nv)],
                             "matrix": draw(st.one_of(st.none(), st.lists(st.lists(
                                 st.tuples(st.integers(-4, 4), st.sampled_from([1, 2, 3, 6])).map(list), min_size=nv, max_size=nv),
                                 min_size=nv, max_size=nv)))})
            else:
                body.append({"kind": kind, "rhs": draw(trees(leaves))})
        r["loops"].append({"lo": lo, "up": up, "body": body, "reverse": draw(st.booleans()),
                           "if": 0})
    return r


@st.composite
def modules(draw, backend, nroutines, leaves=10, dims=(1, 2, 3)):
    return {"backend": backend, "size": [draw(st.integers(5, 8)) for _ in range(3)], "seed": draw(st.integers(0, 2 ** 20)),
            "routines": [draw(routine(dims, leaves)) for _ in range(nroutines)]}


class Rejected(Exception):
    pass


def prepare(r, case, rng, name):
    """(code, local variables, arrays, expected)"""
    dim = r["dim"]
    size = case["size"][:dim]
    shape_s = SIZES[:dim]
    numpy = case["backend"] == "NUMPY"
    arrays, getters = {}, []
    prio = list(r["priority"])
    sa, sb = sp.symbols("sa sb", real=True)
    arrays["sa"], arrays["sb"] = float(rng.uniform(0.3, 2)), float(rng.uniform(-2, 2))

    def new(shape):
        a = rng.uniform(0.3, 3, size=shape) * rng.choice([-1, 1], size=shape)
        return np.ascontiguousarray(a)

    # arrays are stored in their order; vectors with a permutation of (velocity, space)
    for q, kind in enumerate(r["reads"]):
        an = "a%d" % q
        if kind == "array":
            arrays[an] = stored(new(size), prio[1:])
            getters.append(("array", an, None))
        else:
            nv = 3
            full = new([nv] + size)
            arrays[an] = stored(full, prio)
            getters.append((kind, an, nv))
    code, local_vars = [], []
    outs = {}                                    # name -> (array as (values, errors) in natural order, perm)
    deep = False
    nout = 0
    expected = {}
    mask_name = None
    for nl, loop in enumerate(r["loops"]):
        lo, up = loop["lo"], loop["up"]
        rngs = [(lo[d], shape_s[d] - up[d]) for d in range(dim)]
        idx = space_idx(rngs)
        inner = tuple(slice(lo[d], size[d] - up[d]) for d in range(dim))
        c = Ctx(dim, [], [(sa, L(arrays["sa"])), (sb, L(arrays["sb"]))], (lo, up), size)

        def shift(s):
            return [max(-lo[d], min(up[d], s[d])) for d in range(dim)]
        c.shift = shift

        def arr_sym(an):
            return lambda s: indexed(an, shape_s, [idx[d] + s[d] if s[d] else idx[d] for d in range(dim)], priority=prio[1:])

        def arr_val(a):
            def f(s):
                return a[tuple(slice(lo[d] + s[d], size[d] - up[d] + s[d]) for d in range(dim))]
            return f
        for kind, an, nv in getters:
            if kind == "array":
                c.reads.append((arr_sym(an), arr_val(natural_(arrays[an], prio[1:]))))
                continue
            natural = natural_(arrays[an], prio)
            for comp in range(nv):
                if kind == "vector":
                    f = (lambda comp, an, nv: lambda s: indexed(
                        an, [nv] + shape_s, [iv] + idx, velocities=[s for _ in range(nv)], priority=prio)[comp])(comp, an, nv)
                else:
                    f = (lambda comp, an, nv: lambda s: indexed(
                        an, [nv] + shape_s, [iv] + [idx[d] + s[d] if s[d] else idx[d] for d in range(dim)],
                        velocities_index=range(nv), priority=prio)[comp])(comp, an, nv)
                c.reads.append((f, arr_val(natural[comp])))
        test = None
        if loop["if"] and not numpy:
            mask_name = "mask"
            if "mask" not in arrays:
                arrays["mask"] = rng.integers(0, 2, size=[size[p] for p in np.argsort(prio[1:])]).astype(float)
            test = natural_(arrays["mask"], prio[1:])[inner] == 1
        body = []
        nloc = 0
        for s in loop["body"]:
            deep = deep or (depth(s["rhs"]) > 2 if s["kind"] != "vector" else True)
            if s["kind"] == "local":
                sym = sp.Symbol("loc%d_%d" % (nl, nloc), real=True)
                e = build(s["rhs"], c)
                val = value(s["rhs"], c)
                body.append(sp.Eq(sym, e, evaluate=False))
                local_vars.append(sym)
                nloc += 1
                c.locals_s.append(sym)
                c.locals_v.append(val)
                check_expr(e)
                continue
            if s["kind"] == "vector":
                nv = s["nv"]
                on = "o%d" % nout
                nout += 1
                full = new([nv] + size)
                arrays[on] = stored(full, prio)
                lhs = indexed(on, [nv] + shape_s, [iv] + idx, velocities_index=range(nv), priority=prio)
                es = [build(t, c) for t in s["rhs"]]
                vals = [value(t, c) for t in s["rhs"]]
                if s["matrix"]:
                    M = sp.Matrix([[sp.Rational(*q) for q in row] for row in s["matrix"]])
                    es = list(M * sp.Matrix(es))
                    new_vals = []
                    for row in s["matrix"]:
                        acc = v(L(0))
                        for q, val in zip(row, vals):
                            if q[0]:
                                acc = vadd(acc, vmul(v(L(q[0]) / L(q[1])), val))
                        new_vals.append(acc)
                    vals = new_vals
                for e in es:
                    check_expr(e)
                body.append(sp.Eq(lhs, SymbolicVector(es), evaluate=False))
                res = full.astype(L), np.zeros(full.shape, dtype=L)
                for comp in range(nv):
                    put(res[0][comp], res[1][comp], inner, vals[comp], test)
                    c.outs_s.append(lhs[comp])
                    c.outs_v.append((res[0][comp][inner].copy(), res[1][comp][inner].copy()))
                expected[on] = res, prio
                continue
            if s["kind"] == "inplace" and c_outs_scalar(expected, c):
                on = c_outs_scalar(expected, c)[0]
                full = None
            else:
                on = "o%d" % nout
                nout += 1
                full = new(size)
                arrays[on] = stored(full, prio[1:])
            lhs = indexed(on, shape_s, idx, priority=prio[1:])
            if full is None:
                res = expected[on][0]
                e = build(s["rhs"], c) + lhs / 2
                val = vadd(value(s["rhs"], c), vmul((res[0][inner], res[1][inner]), v(L(.5))))
            else:
                res = full.astype(L), np.zeros(size, dtype=L)
                e = build(s["rhs"], c)
                val = value(s["rhs"], c)
            check_expr(e)
            body.append(sp.Eq(lhs, e, evaluate=False))
            put(res[0], res[1], inner, val, test)
            if full is not None:
                expected[on] = res, prio[1:]
            # (the index of a value already registered moves with the assignment)
            c.outs_s = [o for o in c.outs_s if o != lhs] if full is None else c.outs_s
            if full is None:
                c.outs_v = c.outs_v[:0]
                c.outs_s = c.outs_s[:0]
            c.outs_s.append(lhs)
            c.outs_v.append((res[0][inner].copy(), res[1][inner].copy()))
            c.last = getattr(c, "last", []) + [on]
        order = list(idx)[::-1] if loop["reverse"] and not numpy else set_order(list(idx), prio[1:])
        if test is not None:
            body = If((sp.Eq(indexed("mask", shape_s, idx, priority=prio[1:]), sp.Symbol("valin", real=True)), body))
            arrays["valin"] = 1.0
        code.append(For(order, body))
    return code if len(code) > 1 else code[0], local_vars, arrays, expected, deep


def c_outs_scalar(expected, c):
    return [o for o in getattr(c, "last", []) if len(expected[o][1]) == c.dim]


def put(a, e, inner, val, test):
    x = np.broadcast_to(val[0], a[inner].shape)
    y = np.broadcast_to(val[1], a[inner].shape)
    if test is None:
        a[inner], e[inner] = x, y
    else:
        a[inner], e[inner] = np.where(test, x, a[inner]), np.where(test, y, e[inner])


def stored(a, prio):
    """the array in the order of storage: its axis p is the natural axis argsort(prio)[p]"""
    return np.ascontiguousarray(np.transpose(a, np.argsort(prio)))


def natural_(a, prio):
    return np.transpose(a, np.argsort(np.argsort(prio)))


def check_expr(e):
    if e.has(sp.zoo, sp.nan, sp.oo, -sp.oo, sp.I) or not isinstance(e, sp.Expr):
        raise Rejected()
    if any(abs(k) > 2 ** 20 for k in e.atoms(sp.Integer)):
        raise Rejected()                         # (products of literals which are not integers of C)
    if e.has(sp.Max, sp.Min, sp.Heaviside, sp.re, sp.im, sp.arg, sp.conjugate, sp.ITE, sp.functions.elementary.complexes.periodic_argument):
        raise Rejected()


def check(case):
    rng = np.random.default_rng(case["seed"])
    gen = Generator(case["backend"])
    plans = []
    rejected = 0
    for q, r in enumerate(case["routines"]):
        name = "routine_%d" % q
        try:
            SINGULAR[0] = False
            with np.errstate(all="ignore"):
                code, loc, arrays, expected, deep = prepare(r, case, rng, name)
        except (Rejected, TypeError, RecursionError) as err:
            if isinstance(err, TypeError) and "relational" not in str(err) and "real" not in str(err):
                raise
            rejected += 1
            continue
        if not expected:
            continue
        gen.add_routine((name, code), local_vars=loc)
        plans.append((name, r, arrays, expected, deep, SINGULAR[0]))
    if not plans:
        return info(False, "rejected")
    gen.compile()
    labels, good = set(), 0
    for name, r, arrays, expected, deep, singular in plans:
        f = getattr(gen.module, name)
        given = dict(arrays)
        for s, n in zip(["nx", "ny", "nz"], case["size"]):
            given[s] = n
        names = inspect.getfullargspec(f).args
        before = {k: np.copy(a) for k, a in arrays.items() if k not in expected}
        with np.errstate(all="ignore"):
            try:
                f(**{k: given[k] for k in names})
            except (ZeroDivisionError, OverflowError):
                if not singular:
                    raise
                continue
        for k, a in before.items():
            require(np.array_equal(a, arrays[k]), "{}: the array {}, only read, is modified", name, k)
        compared = 0
        for on, (res, prio) in expected.items():
            got = natural_(arrays[on], prio)
            val, err = res
            with np.errstate(all="ignore"):
                ok = np.isfinite(val) & np.isfinite(err) & (err <= 1e-6 * np.maximum(np.abs(val), L(1e-6))) & (np.abs(val) < 1e60) & \
                    (np.abs(val) > 1e-60)
                kept = err == 0
                tol = 60 * err
                bad = ok & ~(np.abs(got - val) <= tol)
                bad |= kept & np.isfinite(val) & (got != val.astype(float)) & (np.abs(got - val) > 0)
            require(not bad.any(), "{}: {} at {}: {} instead of {} (tolerance {})", name, on,
                    *(lambda p: (p.tolist(), float(got[tuple(p)]), float(val[tuple(p)]), float(tol[tuple(p)])))(
                        np.argwhere(bad)[0] if bad.any() else np.zeros(got.ndim, dtype=int)))
            compared += int((ok & ~kept).sum())
        if compared and deep:
            good += 1
        labels.add("dim%d" % r["dim"])
        labels.update("read " + k for k in r["reads"])
        for loop in r["loops"]:
            labels.update("stmt " + s["kind"] for s in loop["body"])
            if any(loop["lo"]) or any(loop["up"]):
                labels.add("partial range")
            if loop["if"] and case["backend"] != "NUMPY":
                labels.add("if")
            for s in loop["body"]:
                for t in (s["rhs"] if s["kind"] == "vector" else [s["rhs"]]):
                    labels.update("op " + o for o in ops(t))
        if len(r["loops"]) > 1:
            labels.add("two loops")
    return info(good > 0, *sorted(labels))


def ops(t):
    out = {t[0]}
    for k in t[1:]:
        if isinstance(k, list) and k and isinstance(k[0], str):
            out |= ops(k)
    return out


FAMILIES = [
    Family("numpy", check, strategy=modules("NUMPY", 2), quick=700, thorough=40000, timeout=30),
    Family("cython", check, strategy=modules("CYTHON", 6, leaves=8), quick=48, thorough=1200, timeout=120, shrink=True),
]
