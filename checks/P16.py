"""Well-formed and ill-formed descriptions."""
RULE = "an ill-formed description, or a well-formed one with at least 3 optional entries"
ASSUMPTIONS = ["tuples are accepted as lists", "the codes generated by cython and loopy are not tried",
               "boxes which miss a multiple of the space step by 0.3 to 0.7 cells, space steps of at most 0.25 (the tolerance of the code is the space step itself, counted in cells)"]
import copy
import logging

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from vlib import bc, lbm
from vlib.core import Family, info, require

import pylbm

CLASSES = ["Stencil", "Geometry", "Domain", "Scheme", "Simulation"]


class Other:
    """not a boundary method"""


# the entries: what is refused whatever the class, and the classes which need them
def wrong(kind):
    X = sp.Symbol("X")
    return {
        "number": ["1", None, [1.0], {"a": 1}, 1j],
        "number|symbol": ["LA", None, [1.0], {}, X + 1],
        "number|expr": ["X", None, [1], {}],
        "symbol": ["u", 1, None, X + 1, ["u"]],
        "symbols": ["u", 1.5, None, ["u"], [1], {}],
        "integer": [1.5, "1", None, [1]],
        "label": [1.5, "1", None, [0.5], ["a"], {}],
        "list": [1, "abc", None, {"a": 1}],
        "interval": [1.0, "01", None, [0.0], [0.0, 1.0, 2.0], ["a", "b"], [None, 1.0]],
        "dict": [1, "abc", None, [1], []],
        "string:inittype": ["momentum", 1, None, ["moments"]],
        "string:generator": ["fortran", 1, None, ["numpy"]],
        "boolean": [1, "yes", None, 0.0],
        "dim": [0, 4, "2", 1.5, None],
        "element": ["circle", 1, None, {}, pylbm.Circle],
        "method": ["BounceBack", 1, Other, None, pylbm.Circle],
        "function": ["f", 1, None],
        "velocity": [-1.5, "1", None, 0.5],
        "init": ["1", None, ["f", (1,)]],
        "algorithm": ["pull", Other, 1, pylbm.bc.BounceBack],
        "text": [1, None, ["a"]],
    }[kind]


def mutations(d, classes_of):
    """[(label, path, operation, value, classes which refuse)]"""
    out = []
    ALL = tuple(CLASSES)

    def replace(path, kind):
        for w in wrong(kind):
            out.append(("%s: wrong type" % path[0], path, "set", w, ALL))

    def drop(path, classes):
        out.append(("%s: missing" % path[-1], path, "del", None, tuple(classes)))

    def add(path, key, value=1):
        out.append(("unknown entry", path + (key,), "set", value, ALL))

    for k in ("foo", "boxx", "space_steps", "Dim", "boundary_condition", 3):
        add((), k)
    add((), "dim", 2)                                  # with a box: one of them
    replace(("box",), "dict")
    drop(("box",), ["Domain", "Geometry", "Scheme", "Simulation", "Stencil"])
    for a in "xyz":
        if a in d["box"]:
            replace(("box", a), "interval")
    replace(("box", "label"), "label")
    add(("box",), "w", [0.0, 1.0])
    add(("box",), "labels", 0)
    replace(("space_step",), "number")
    out.append(("space_step: negative", ("space_step",), "set", -d["space_step"], ALL))
    drop(("space_step",), ["Domain", "Simulation"])
    replace(("scheme_velocity",), "number|symbol")
    drop(("scheme_velocity",), ["Scheme", "Simulation"])
    replace(("schemes",), "list")
    out.append(("schemes: wrong type", ("schemes",), "set", [1], ALL))
    drop(("schemes",), ["Domain", "Scheme", "Simulation", "Stencil"])
    for i, s in enumerate(d["schemes"]):
        p = ("schemes", i)
        add(p, "speeds")
        add(p, "polynomial", [1])
        replace(p + ("velocities",), "list")
        for w in wrong("velocity") + [-1]:
            out.append(("velocities: wrong type", p + ("velocities", 0), "set", w, ALL))
        drop(p + ("velocities",), ["Domain", "Scheme", "Simulation", "Stencil"])
        for k in ("polynomials", "relaxation_parameters", "equilibrium"):
            replace(p + (k,), "list")
            for w in wrong("number|expr"):
                out.append((k + ": wrong type", p + (k, len(s[k]) - 1), "set", w, ALL))
            drop(p + (k,), ["Scheme", "Simulation"])
        out.append(("polynomials and M", p + ("M",), "set", sp.eye(len(s["velocities"])), ALL))
        out.append(("M: wrong type", p, "M", [[1]], ALL))
        out.append(("equilibrium and feq", p + ("feq",), "set", [lambda f: f, (1,)], ALL))
        replace(p + ("conserved_moments",), "symbols")
        drop(p + ("conserved_moments",), ["Scheme", "Simulation"])
        out.append(("source_terms: wrong type", p + ("source_terms",), "set", [1], ALL))
        out.append(("source_terms: wrong type", p + ("source_terms",), "set", {"u": 1}, ALL))
        out.append(("source_terms: wrong type", p + ("source_terms",), "set", {sp.Symbol("u0"): "1"}, ALL))
    out.append(("parameters: wrong type", ("parameters",), "set", [1], ALL))
    out.append(("parameters: wrong type", ("parameters",), "set", {"LA": 1}, ALL))
    out.append(("parameters: wrong type", ("parameters",), "set", {sp.Symbol("LA"): "1"}, ALL))
    replace(("inittype",), "string:inittype")
    replace(("generator",), "string:generator")
    replace(("init",), "dict")
    out.append(("init: wrong type", ("init",), "set", {"u0": 1.0}, ALL))
    for w in wrong("init"):
        out.append(("init: wrong type", ("init", next(iter(d["init"]))), "set", w, ALL))
    drop(("init",), ["Simulation"])
    if "elements" in d:
        replace(("elements",), "list")
        for w in wrong("element"):
            out.append(("elements: wrong type", ("elements", 0), "set", w, ALL))
    else:
        out.append(("elements: wrong type", ("elements",), "set", ["circle"], ALL))
    if "boundary_conditions" in d:
        replace(("boundary_conditions",), "dict")
        out.append(("boundary_conditions: wrong type", ("boundary_conditions",), "set", {"left": {}}, ALL))
        for lab, b in d["boundary_conditions"].items():
            p = ("boundary_conditions", lab)
            add(p, "methods")
            replace(p, "dict")
            replace(p + ("method",), "dict")
            out.append(("method: wrong type", p + ("method",), "set", {"a": pylbm.bc.BounceBack}, ALL))
            for w in wrong("method"):
                out.append(("method: wrong type", p + ("method", 0), "set", w, ALL))
            for w in wrong("function"):
                out.append(("value: wrong type", p + ("value",), "set", w, ALL))
            for w in wrong("boolean"):
                if w is None:          # (the default value)
                    continue
                out.append(("time_bc: wrong type", p + ("time_bc",), "set", w, ALL))
    for w in wrong("boolean"):
        out.append(("show_code: wrong type", ("show_code",), "set", w, ALL))
    out.append(("relative_velocity: wrong type", ("relative_velocity",), "set", 0.5, ALL))
    out.append(("relative_velocity: wrong type", ("relative_velocity",), "set", ["u"], ALL))
    for w in wrong("dict"):
        out.append(("codegen_option: wrong type", ("codegen_option",), "set", w, ALL))
        out.append(("lbm_algorithm: wrong type", ("lbm_algorithm",), "set", w, ALL))
    for w in wrong("text"):
        out.append(("codegen_option: wrong type", ("codegen_option",), "set", {"directory": w}, ALL))
    for w in wrong("boolean"):
        out.append(("codegen_option: wrong type", ("codegen_option",), "set", {"generate": w}, ALL))
    out.append(("codegen_option: unknown entry", ("codegen_option",), "set", {"dir": "a"}, ALL))
    for w in wrong("algorithm"):
        out.append(("lbm_algorithm: wrong type", ("lbm_algorithm",), "set", {"name": w}, ALL))
    out.append(("lbm_algorithm: unknown entry", ("lbm_algorithm",), "set", {"algo": 1}, ALL))
    return out


def snapshot(x):
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    if isinstance(x, sp.MatrixBase):
        return ("matrix", str(x))
    if hasattr(x, "__dict__") and type(x).__module__.startswith("pylbm.elements"):
        return (type(x).__name__, id(x), snapshot({k: v for k, v in vars(x).items() if k != "log"}))
    return (type(x).__name__, repr(x), id(x) if not isinstance(x, (int, float, str)) else 0)


def build(case):
    d = bc.sim_dict(case["problem"])
    for k in case["without"]:
        if k == "label":
            continue
        d.pop(k, None)
    if case["rel"] is not None:
        d["relative_velocity"] = [case["rel"]] * case["problem"]["spec"]["dim"]
    o = case["options"]
    if o.get("show_code") is not None:
        d["show_code"] = False
    if o.get("codegen"):
        d["codegen_option"] = {"generate": True}
    if o.get("algorithm"):
        d["lbm_algorithm"] = {"name": pylbm.algorithm.PullAlgorithm, **({"settings": {}} if o["algorithm"] > 1 else {})}
    return d


def make(cls, d):
    logging.disable(logging.CRITICAL)
    if cls == "Simulation":
        return pylbm.Simulation(d)
    return getattr(pylbm, cls)(d)


def optional(case):
    return sum(1 for k in ("elements", "boundary_conditions", "parameters", "inittype", "generator") if k in build(case)) + \
        len([v for v in case["options"].values() if v])


def check_good(case):
    d = build(case)
    before = snapshot(d)
    for cls in CLASSES:
        try:
            make(cls, d)
        except SystemExit:
            require(False, "{}: a well-formed description is refused", cls)
        require(snapshot(d) == before, "{}: the description is modified", cls)
    n = optional(case)
    # only what the class needs
    need = {"Stencil": ["box", "schemes"], "Geometry": ["box"], "Domain": ["box", "space_step", "schemes"],
            "Scheme": ["box", "scheme_velocity", "schemes"]}
    for cls, keys in need.items():
        small = {k: d[k] for k in keys}
        for k in ("parameters", "elements"):
            if k in d and cls in ("Scheme", "Domain", "Geometry"):
                small[k] = d[k]
        if cls in ("Stencil", "Domain"):
            small["schemes"] = [{"velocities": s["velocities"]} for s in d["schemes"]]
        if cls in ("Stencil", "Scheme") and case["dim"]:
            small.pop("box")
            small["dim"] = case["problem"]["spec"]["dim"]
        if "relative_velocity" in d and cls == "Scheme":
            small["relative_velocity"] = d["relative_velocity"]
        b = snapshot(small)
        try:
            make(cls, small)
        except SystemExit:
            require(False, "{}: a well-formed description is refused: {}", cls, sorted(small))
        require(snapshot(small) == b, "{}: the description is modified", cls)
    return info(n >= 3, "dim%d" % case["problem"]["spec"]["dim"], "accepted", *sorted(k for k, v in case["options"].items() if v))


def apply(d, path, op, value):
    x = d
    for k in path[:-1] if op != "M" else path:
        x[k] = copy.copy(x[k])
        x = x[k]
    if op == "set":
        x[path[-1]] = value
    elif op == "del":
        del x[path[-1]]
    else:
        del x["polynomials"]
        x["M"] = value
    return d


def check_bad(case):
    d = build(case)
    muts = mutations(d, None)
    groups = sorted({m[0] for m in muts})
    g = groups[case["group"] % len(groups)]
    sub = [m for m in muts if m[0] == g]
    label, path, op, value, classes = sub[case["which"] % len(sub)]
    d = apply(dict(d), path, op, value)
    before = snapshot(d)
    for cls in CLASSES:
        if cls not in classes:
            continue
        try:
            make(cls, d)
        except (SystemExit, Exception) as e:  # pylint: disable=broad-except
            require(snapshot(d) == before, "{}: the description is modified although it is refused", cls)
            continue
        require(False, "{}: accepted although {} ({} {} {!r})", cls, label, op, path, value)
    return info(True, "dim%d" % case["problem"]["spec"]["dim"], label)


def check_box(case):
    d = build(case)
    dim = case["problem"]["spec"]["dim"]
    e = "xyz"[case["which"] % dim]
    d["box"] = dict(d["box"])
    a, b = d["box"][e]
    d["box"][e] = [a, b + case["excess"] * d["space_step"]]
    before = snapshot(d)
    for cls in ("Domain", "Simulation"):
        try:
            make(cls, d)
        except (SystemExit, Exception):  # pylint: disable=broad-except
            require(snapshot(d) == before, "{}: the description is modified although it is refused", cls)
            continue
        require(False, "{}: a box of {} cells is accepted", cls, (d["box"][e][1] - a) / d["space_step"])
    return info(True, "dim%d" % dim, "box")


def check_inconsistent(case):
    d = build(case)
    problem = case["problem"]
    w = case["which"]
    d["schemes"] = [dict(s) for s in d["schemes"]]
    s = d["schemes"][w % len(d["schemes"])]
    for k in ("velocities", "polynomials", "relaxation_parameters", "equilibrium"):
        s[k] = list(s[k])
    cons = s["conserved_moments"] if isinstance(s["conserved_moments"], list) else [s["conserved_moments"]]
    other = sp.Symbol("nothing")
    n = len(s["velocities"])
    ops = [(k + " too short", lambda k=k: s[k].pop()) for k in ("velocities", "polynomials", "relaxation_parameters", "equilibrium")
           if k != "velocities"]
    ops += [(k + " too long", lambda k=k: s[k].append(1)) for k in ("polynomials", "relaxation_parameters", "equilibrium")]
    ops += [("conserved moment not in the equilibrium", lambda: s.update(conserved_moments=cons[:-1] + [other])),
            ("init of something else", lambda: d.update(init={**d["init"], other: 1.0})),
            ("source term of something else", lambda: s.update(source_terms={other: 1}))]
    if n > 1:
        ops += [("repeated velocity", lambda: s["velocities"].__setitem__(0, s["velocities"][-1])),
                ("repeated polynomial", lambda: s["polynomials"].__setitem__(0, s["polynomials"][-1]))]
    if any(e not in cons for e in s["equilibrium"]):
        def unknown():
            k = [i for i, e in enumerate(s["equilibrium"]) if e not in cons][w % sum(e not in cons for e in s["equilibrium"])]
            s["equilibrium"][k] = s["equilibrium"][k] + other
        ops.append(("unknown symbol in the equilibrium", unknown))
    ops.append(("label too short", lambda: d.update(box=dict(d["box"], label=list(d["box"]["label"])[:-1]))))
    ops.append(("label too long", lambda: d.update(box=dict(d["box"], label=list(d["box"]["label"]) + [d["box"]["label"][0]]))))
    dim = len([e for e in "xyz" if e in d["box"]])
    ops += [("relative velocity too " + a, lambda n=n: d.update(relative_velocity=[0.0] * n)) for a, n in (("long", dim + 1), ("short", dim - 1))]
    if dim == 2:
        ops.append(("box with x and z", lambda: d.update(box={{"y": "z"}.get(k, k): v for k, v in d["box"].items()})))
    if not problem["dom"]["elems"] and any(l != -1 for l in problem["dom"]["labels"]):
        l = next(l for l in problem["dom"]["labels"] if l != -1)
        ops.append(("no boundary condition for a label", lambda: d.update(
            boundary_conditions={k: v for k, v in d["boundary_conditions"].items() if k != l})))
    label, op = ops[case["group"] % len(ops)]
    op()
    before = snapshot(d)
    try:
        make("Simulation", d)
    except (SystemExit, Exception):  # pylint: disable=broad-except
        require(snapshot(d) == before, "the description is modified although it is refused")
        return info(True, label)
    require(False, "accepted although: {}", label)


@st.composite
def cases(draw, mode):
    dim = draw(st.integers(1, 3))
    problem = draw(bc.problems(dim, max_q={1: 5, 2: 7, 3: 7}[dim], n={1: (4, 9), 2: (4, 6), 3: (3, 4)}[dim], max_elems=2, steps=1))
    opts = {}
    if draw(st.booleans()):
        opts["show_code"] = True
    if draw(st.integers(0, 2)) == 0:
        opts["codegen"] = True
    if draw(st.integers(0, 2)) == 0:
        opts["algorithm"] = draw(st.integers(1, 2))
    case = {"problem": problem, "without": draw(st.sampled_from([[], ["inittype"]])) if mode == "good" else [],
            "rel": None, "options": opts, "dim": draw(st.booleans())}
    if mode == "good":
        return case
    case["which"] = draw(st.integers(0, 10000))
    if mode in ("bad", "inconsistent"):
        case["group"] = draw(st.integers(0, 10000))
    if mode == "box":
        # (the code takes deviations smaller than the space step, counted in cells, for round-off)
        case["excess"] = draw(st.floats(0.3, 0.7))
        problem["dom"]["box"]["dx"] = draw(st.sampled_from([0.25, 0.1, 0.125, 0.05]))
    return case


FAMILIES = [
    Family("accepted", check_good, cases("good"), quick=60, thorough=2000, timeout=20),
    Family("refused", check_bad, cases("bad"), quick=800, thorough=30000, timeout=20),
    Family("box", check_box, cases("box"), quick=80, thorough=3000, timeout=20),
    Family("inconsistent", check_inconsistent, cases("inconsistent"), quick=160, thorough=6000, timeout=20),
]
