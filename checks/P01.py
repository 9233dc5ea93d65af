"""Numbering of the velocities."""
RULE = 'a velocity other than the zero velocity'
ASSUMPTIONS = []
from hypothesis import strategies as st

from vlib import lbm
from vlib.core import Family, info, require

from pylbm.stencil import Velocity


def components(dim, num):
    """the documented numbering, computed directly"""
    if dim == 1:
        return ((num + 1) // 2 * (1 if num % 2 else -1),) if num else (0,)
    if dim == 3:
        return lbm.velocity_table(3, 10)[num]
    if num == 0:
        return (0, 0)
    r = 1
    while (2 * r + 1) ** 2 <= num:
        r *= 2
    while (2 * r - 1) ** 2 > num:
        r -= max(1, ((2 * r - 1) ** 2 - num) // (8 * r))
    while (2 * r + 1) ** 2 <= num:
        r += 1
    p = num - (2 * r - 1) ** 2
    # quarter of turns of (a, b)
    if p < 8:
        a, b, turns = r, (0 if p < 4 else r), p % 4
    else:
        k, i = p // 8, p % 8
        a, b, turns = (r, k, i // 2) if i % 2 == 0 else (k, r, i // 2)
    for _ in range(turns):
        a, b = -b, a
    return (a, b)


def number(dim, v):
    """the inverse"""
    if dim == 1:
        return 2 * abs(v[0]) - (v[0] > 0)
    if dim == 3:
        return lbm.velocity_table(3, 10).index(tuple(v))
    r = max(abs(c) for c in v)
    if r == 0:
        return 0
    a, b = v
    for turns in range(4):
        if a > 0 and b >= 0:
            break
        a, b = b, -a
    lo = (2 * r - 1) ** 2
    if b == 0:
        return lo + turns
    if a == b:
        return lo + 4 + turns
    return lo + 8 * min(a, b) + 2 * turns + (0 if a == r else 1)


NAMES = ["vx", "vy", "vz"]


def check(case):
    dim, num = case["dim"], case["num"]
    want = components(dim, num)
    if number(dim, want) != num:
        raise RuntimeError("oracle")
    v = Velocity(dim=dim, num=num)
    require(tuple(v.v) == want, "the components of {} are {} instead of {}", num, v.v, want)
    require(v.num == num and v.dim == dim, "number or dimension modified")
    require(tuple(v.v_full) == want + (0,) * (3 - dim), "v_full")
    require([v.vx, v.vy, v.vz] == list(want) + [None] * (3 - dim), "components vx, vy, vz")
    w = Velocity(**dict(zip(NAMES, want)))
    require(w.num == num, "the number of {} is {} instead of {}", want, w.num, num)
    require(w.dim == dim and tuple(w.v) == want, "dimension or components modified")
    w = Velocity(dim=dim, **dict(zip(NAMES, want)))
    require(w.num == num, "the number of {} (dim given) is {}", want, w.num)
    for axis in [None] + list(range(dim)):
        s = v.get_symmetric(axis)
        exp = tuple(-c if i != axis else c for i, c in enumerate(want))
        require(tuple(s.v) == exp, "symmetric of {} by {}: {} instead of {}", want, axis, s.v, exp)
        require(s.num == number(dim, exp), "number of the symmetric of {} by {}", want, axis)
        b = s.get_symmetric(axis)
        require(b.num == num and tuple(b.v) == want, "symmetric of the symmetric")
    for axis in (dim, -1):
        try:
            v.get_symmetric(axis)
        except ValueError:
            continue
        require(False, "no error for the axis {} in dimension {}", axis, dim)
    return info(num > 0, "dim%d" % dim, "shell%d" % max(abs(c) for c in want) if max(abs(c) for c in want) < 6 else "far")


def table(tier, seed):
    top = {1: 300, 2: 1225, 3: 729} if tier == "quick" else {1: 2000, 2: 6561, 3: 2197}
    return [{"dim": d, "num": k} for d in (1, 2, 3) for k in range(top[d])]


far = st.one_of(
    st.builds(lambda n: {"dim": 1, "num": n}, st.integers(0, 10 ** 6)),
    st.builds(lambda n: {"dim": 2, "num": n}, st.integers(0, 10 ** 6)),
    st.builds(lambda r, k: {"dim": 2, "num": max(0, (2 * r - 1) ** 2 + k)}, st.integers(1, 3000), st.integers(-3, 12)),
    st.builds(lambda n: {"dim": 3, "num": n}, st.integers(0, 3374)),
)

FAMILIES = [
    Family("first numbers", check, cases=table),
    Family("random numbers", check, far, quick=6000, thorough=100000),
]
