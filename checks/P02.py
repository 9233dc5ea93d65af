"""Tables of the stencils."""
RULE = 'a stencil with at least two distinct velocities'
ASSUMPTIONS = ['the velocities of an elementary scheme are distinct (the moment matrix is singular otherwise)']
import numpy as np
from hypothesis import strategies as st

from vlib import lbm
from vlib.core import Family, info, require

import pylbm


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 3))
    top = {1: 24, 2: 48, 3: 124}[dim]
    out = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.integers(0, 3))
        if kind == 0:
            v = list(range(draw(st.integers(1, min(top, 27)))))
        elif kind == 1:  # symmetric
            half = draw(st.lists(st.integers(0, top), min_size=1, max_size=6))
            table = lbm.velocity_table(dim)
            v = sorted(set(half) | {table.index(tuple(-c for c in table[k])) for k in half})
        else:
            v = draw(st.lists(st.integers(0, top), min_size=1, max_size=9, unique=True))
        if draw(st.booleans()):
            v = draw(st.permutations(v))
        out.append(list(v))
    return {"dim": dim, "v": out, "form": draw(st.sampled_from(["dim", "box", "tuple", "array"]))}


def check(case):
    dim, lists = case["dim"], case["v"]
    table = lbm.velocity_table(dim)
    conv = {"tuple": tuple, "array": np.array}.get(case["form"], list)
    d = {"schemes": [{"velocities": conv(v)} for v in lists]}
    if case["form"] == "tuple":
        d = {"schemes": [{"velocities": list(v)} for v in lists], "dim": dim}
    elif case["form"] == "box":
        d["box"] = {k: [0, 1] for k in "xyz"[:dim]}
    else:
        d["dim"] = dim
    if case["form"] == "array":
        d = {"schemes": [{"velocities": [int(k) for k in v]} for v in lists], "dim": dim}
    s = pylbm.Stencil(d)
    require([list(x["velocities"]) for x in d["schemes"]] == lists, "the description is modified")
    require(s.dim == dim, "dim")
    require(s.nstencils == len(lists) and len(s) == len(lists), "number of stencils")
    require(list(s.nv) == [len(v) for v in lists], "nv: {}", s.nv)
    ptr = [0]
    for v in lists:
        ptr.append(ptr[-1] + len(v))
    require(list(s.nv_ptr) == ptr, "nv_ptr: {}", s.nv_ptr)
    unique = sorted(set(sum(lists, [])))
    require(s.unvtot == len(unique), "unvtot")
    require(list(s.unum) == unique, "unum: {}", s.unum)
    comps = np.array([table[k] for k in unique])
    for a, name in enumerate(["uvx", "uvy", "uvz"][:dim]):
        require(list(getattr(s, name)) == list(comps[:, a]), "{}: {}", name, getattr(s, name))
    require([tuple(v.v) for v in s.unique_velocities] == [table[k] for k in unique], "unique_velocities")
    for i, k in enumerate(unique):
        require(s.unum2index[k] == i, "unum2index[{}] = {}", k, s.unum2index[k])
    require(list(s.num2index) == sum(lists, []), "num2index")
    require(list(s.vmax) == list(np.abs(comps).max(axis=0)), "vmax {}", s.vmax)
    require(list(s.vmin) == list(comps.min(axis=0)), "vmin {}", s.vmin)
    require(list(s.vmax_full) == list(np.abs(comps).max(axis=0)) + [0] * (3 - dim), "vmax_full")
    allv = []
    for k, v in enumerate(lists):
        c = [table[n] for n in v]
        allv += c
        require(list(s.num[k]) == v, "num[{}]: {}", k, s.num[k])
        require(s[k].nv == len(v) and list(s[k].num) == v, "stencil {}", k)
        require([w.num for w in s.v[k]] == v and [tuple(w.v) for w in s.v[k]] == c, "v[{}]", k)
        for a, name in enumerate(["vx", "vy", "vz"][:dim]):
            require(list(getattr(s, name)[k]) == [w[a] for w in c], "{}[{}]", name, k)
            require(list(getattr(s[k], name)) == [w[a] for w in c], "[{}].{}", k, name)
        require(np.array_equal(s.get_all_velocities(k), np.array(c)), "get_all_velocities({})", k)
    require(np.array_equal(s.get_all_velocities(), np.array(allv)), "get_all_velocities")
    per = [all(tuple(-c for c in table[n]) in {table[m] for m in v} for n in v) for v in lists]
    require(bool(s.is_symmetric()) == all(per), "declared symmetric: {}, schemes {}", s.is_symmetric(), per)
    for axis in [None] + list(range(dim)):
        exp, ok = [], True
        for k, v in enumerate(lists):
            for n in v:
                w = tuple(-c if i != axis else c for i, c in enumerate(table[n]))
                pos = [i for i, m in enumerate(v) if table[m] == w]
                ok = ok and len(pos) == 1
                exp.append(ptr[k] + pos[0] if pos else None)
        if not ok:
            continue
        got = s.get_symmetric(axis) if axis is not None else s.get_symmetric()
        require(list(got) == exp, "get_symmetric({}): {} instead of {}", axis, list(got), exp)
    return info(len(unique) > 1, "dim%d" % dim, "schemes%d" % len(lists), "symmetric" if all(per) else
                ("mixed" if any(per) else "not symmetric"), "shared" if len(unique) < ptr[-1] else "disjoint")


FAMILIES = [Family("tables", check, cases(), quick=6000, thorough=100000)]
