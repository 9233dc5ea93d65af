"""Several simulations in the same process."""
RULE = "at least two simulations of different descriptions, with steps of one between the construction and the last step of the other"
ASSUMPTIONS = ["code is read from a directory (generate=False) by the description which wrote it last there"]
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

import numpy as np
from hypothesis import strategies as st

from vlib import bc, lbm, paths
from vlib.core import Family, info, require

import pylbm


def description(problem, backend="numpy"):
    return bc.sim_dict(problem, backend)


def state(sim, q):
    return [np.array(sim.F[k]).copy() for k in range(q)] + [np.array(sim.m[k]).copy() for k in range(q)] + \
        [np.array(sim.m[c]).copy() for c in sorted(sim.scheme.consm, key=str)] + [np.array(sim.t), np.array(sim.nt)]


def fill(sim, problem, q):
    p = bc.noise(problem, q, problem["dom"]["box"]["n"])
    for k in range(q):
        sim.F[k][...] = np.array(sim.F[k]) + p[k]


def create(problem, backend, d=None):
    sim = pylbm.Simulation(d if d is not None else description(problem, backend))
    q = lbm.nvtot(problem["spec"])
    if problem["perturbed"]:
        fill(sim, problem, q)
    return sim


def alone(problem, backend, nsteps, code=None):
    """the states after 1, 2, ... steps"""
    q = lbm.nvtot(problem["spec"])
    d = description(problem, backend)
    if code:
        d["codegen_option"] = code
    sim = create(problem, backend, d)
    out = []
    for _ in range(nsteps):
        sim.one_time_step()
        out.append(state(sim, q))
    return out


def in_child(fn, *args):
    """the result of the function, computed in a copy of this process: what it does to the
    state of the modules is not seen here"""
    with tempfile.TemporaryFile() as fh:
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                try:
                    out = ("result", fn(*args))
                except BaseException:
                    out = ("error", traceback.format_exc()[-3000:])
                pickle.dump(out, fh)
                fh.flush()
            finally:
                os._exit(0)
        try:
            os.waitpid(pid, 0)
        except BaseException:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise
        fh.seek(0)
        data = fh.read()
    require(data, "the simulation alone: the process ends")
    kind, out = pickle.loads(data)
    require(kind == "result", "the simulation alone: {}", out)
    return out


def same(a, b, what):
    for k, (x, y) in enumerate(zip(a, b)):
        if x.shape == y.shape and (x.tobytes() == y.tobytes() or np.array_equal(x, y, equal_nan=True)):
            continue
        i = tuple(np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))[0]) if x.shape == y.shape else ()
        require(False, "{}: the array {} of the state differs at {}: {} instead of {}", what, k, list(map(int, i)),
                x[i].tolist(), y[i].tolist())


def spoil(d, how):
    """modify the description in place"""
    if how == 0:
        d.clear()
        return
    for s in d["schemes"]:
        if how & 1:
            s["relaxation_parameters"][:] = [0.3] * len(s["relaxation_parameters"])
            s["equilibrium"][:] = [0 for _ in s["equilibrium"]]
        if how & 2:
            s["velocities"].reverse()
            s["polynomials"].reverse()
        if "source_terms" in s:
            s["source_terms"].clear()
    if how & 4:
        d["space_step"] = d["space_step"] / 2
        d["box"]["x"] = [7.0, 8.0]
        if isinstance(d["box"]["label"], list):
            d["box"]["label"][:] = [9] * len(d["box"]["label"])
    if how & 8 and "parameters" in d:
        for k in d["parameters"]:
            d["parameters"][k] = 0.123
    if how & 16 and "boundary_conditions" in d:
        for b in d["boundary_conditions"].values():
            for k in b["method"]:
                b["method"][k] = pylbm.bc.Neumann
            b["value"] = None
            b["time_bc"] = False
        d["boundary_conditions"].clear()
    d["init"].clear()
    if "elements" in d:
        del d["elements"][:]


def check(case):
    """case["ops"]: what happens, one after the other, to the slots of simulations"""
    here = os.getcwd()
    root = tempfile.mkdtemp(prefix="dirs-")
    sys.dont_write_bytecode = False
    problems = case["problems"]
    backend = case["backend"]
    q = [lbm.nvtot(p["spec"]) for p in problems]
    need = [0] * len(problems)
    live = {}
    count = {}
    for op in case["ops"]:
        if op[0] == "new":
            live[op[1]] = op[2]
            count[op[1]] = 0
        elif op[0] == "step" and op[1] in live:
            count[op[1]] += 1
            need[live[op[1]]] = max(need[live[op[1]]], count[op[1]])
    try:
        want = [in_child(alone, p, backend, k) if k else None for p, k in zip(problems, need)]
        if any(not np.isfinite(a).all() for w in want if w for s in w for a in s):
            return info(False, "unstable")
        live, owner, wrote, shared = {}, {}, {}, {}
        mixed = 0
        last = None
        labels = set()
        for op in case["ops"]:
            if op[0] == "new":
                _, slot, which, how = op
                d = None
                if how.get("reuse") and which in shared:
                    d = shared[which]
                    labels.add("description reused")
                else:
                    d = description(problems[which], backend)
                    if not how.get("dir"):
                        shared[which] = d
                if how.get("dir"):
                    d = dict(d)
                    name = os.path.join(root, how["dir"])
                    read = how.get("read") and wrote.get(name) == which
                    d["codegen_option"] = {"directory": name, "generate": not read}
                    if not read:
                        wrote[name] = which
                    labels.add("directory read" if read else "directory written")
                live[slot] = [create(problems[which], backend, d), which, 0]
                owner[slot] = d
                if how.get("spoil") is not None:
                    spoil(d, how["spoil"])
                    shared.pop(which, None)
                    labels.add("description modified")
            elif op[0] == "step" and op[1] in live:
                sim, which, k = live[op[1]]
                sim.one_time_step()
                live[op[1]][2] += 1
                mixed += last is not None and last != which
                last = which
                if op[2]:
                    same(state(sim, q[which]), want[which][k], "the simulation {} (description {}) after {} steps".format(op[1], which, k + 1))
            elif op[0] == "drop":
                live.pop(op[1], None)
        for slot, (sim, which, k) in live.items():
            if k:
                same(state(sim, q[which]), want[which][k - 1], "the simulation {} (description {}) at the end".format(slot, which))
    finally:
        sys.dont_write_bytecode = True
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)
    return info(mixed > 0, backend, "simulations %d" % len(live), *labels)


def twin(draw, p, what=None):
    """a description which differs only by some numbers"""
    p = json.loads(json.dumps(p))
    names = sum([s["cons"] for s in p["spec"]["schemes"]], [])
    if what is None and len(names) > 1 and draw(st.booleans()):
        # the same names, for other moments
        k = draw(st.integers(1, len(names) - 1))
        new = dict(zip(names, names[k:] + names[:k]))
        return json.loads(re.sub(r"\b(%s)\b" % "|".join(names), lambda m: new[m.group(1)], json.dumps(p)))
    what = draw(st.integers(0, 8)) if what is None else what
    sch = p["spec"]["schemes"][0]
    free = [i for i in range(len(sch["v"])) if i not in sch["pos"]]
    if what == 0 and free:
        i = draw(st.sampled_from(free))
        sch["s"][i] = draw(st.sampled_from(["1.25", "1.75", "1.50", "1.125"]))
    elif what == 1 and free:
        i = draw(st.sampled_from(free))
        sch["eq"][i] = "(%d/16)*%s" % (draw(st.integers(-7, 7)), sch["cons"][0])
    elif what == 3:
        las = ["1", "2", "1/2", "4"]
        if p["spec"]["la"] == "LA":
            p["spec"]["params"]["LA"] = draw(st.sampled_from([float(eval(x)) for x in las if eval(x) != p["spec"]["params"]["LA"]]))
        else:
            p["spec"]["la"] = draw(st.sampled_from([x for x in las if x != p["spec"]["la"]]))
    elif what == 4 and not p["dom"]["elems"]:
        p["dom"]["box"]["dx"] = draw(st.sampled_from([x for x in [1.0, 0.5, 0.25] if x != p["dom"]["box"]["dx"]]))
    elif what == 5 and p["bc"]:
        m = p["bc"][draw(st.sampled_from(sorted(p["bc"])))]["method"]
        m["0"] = draw(st.sampled_from([x for x in ["BounceBack", "AntiBounceBack", "BouzidiBounceBack"] if x != m["0"]]))
    elif what == 6 and any(x != "LA" for x in p["spec"]["params"]):
        x = draw(st.sampled_from(sorted(x for x in p["spec"]["params"] if x != "LA")))
        p["spec"]["params"][x] += draw(st.sampled_from([0.125, -0.25]))
    elif what == 7:
        # the same velocities, listed in another order
        k = draw(st.integers(1, len(sch["v"]) - 1))
        sch["v"] = draw(st.sampled_from([sch["v"][k:] + sch["v"][:k], sch["v"][::-1]]))
    elif what == 8 and free:
        # other moments
        i = draw(st.sampled_from(free))
        sch["polys"][i] = "%s + (%d)*(%s)" % (sch["polys"][i], draw(st.sampled_from([-2, -1, 1, 3])), sch["polys"][sch["pos"][0]])
    else:
        for c in p["init"]:
            p["init"][c] = [x + 0.125 for x in p["init"][c]]
    bc.no_idle(p["spec"])
    return p


@st.composite
def cases(draw, backend="numpy", dirs=True, nops=14, max_new=6):
    problems = []
    mode = draw(st.integers(0, 3))
    for _ in range(draw(st.integers(2, 3)) if backend == "numpy" and mode == 0 else 1):
        dim = draw(st.sampled_from([1, 1, 2, 2, 3]))
        p = draw(bc.problems(dim, max_q={1: 5, 2: 9, 3: 7}[dim], n={1: (4, 9), 2: (4, 6), 3: (3, 4)}[dim], max_elems=1, steps=1,
                             nonlinear=draw(st.booleans())))
        p["perturbed"] = draw(st.booleans())
        sch = p["spec"]["schemes"][0]
        i = next((i for i in range(len(sch["v"])) if i not in sch["pos"]), None)
        if mode > 1 and i is not None:
            # descriptions whose codes have the same length
            for a in draw(st.permutations([3, 5, 7]))[:2]:
                problems.append(json.loads(json.dumps(p)))
                problems[-1]["spec"]["schemes"][0]["eq"][i] = "(%d/16)*%s" % (a, sch["cons"][0])
                problems[-1]["perturbed"] = True
            continue
        problems.append(p)
        if mode > 0 or draw(st.booleans()):
            problems.append(dict(twin(draw, p), perturbed=p["perturbed"]))
    ops = []
    slots = []
    nnew = draw(st.integers(2, max_new))
    nstep = draw(st.integers(2, nops - nnew))
    kinds = draw(st.permutations(["new"] * (nnew - 2) + ["step"] * nstep + ["drop"] * draw(st.integers(0, 1))))
    first = draw(st.integers(0, len(problems) - 1))
    for i, kind in enumerate(["new", "new"] + list(kinds) + ["step", "step"]):
        if kind == "new":
            how = {}
            if dirs and draw(st.integers(0, 4)):
                how["dir"] = draw(st.sampled_from(["a", "a", "b"]))
                if draw(st.integers(0, 2)) == 0:
                    how["read"] = True
            if draw(st.integers(0, 2)) == 0:
                how["reuse"] = True
            if draw(st.integers(0, 3)) == 0:
                how["spoil"] = draw(st.integers(0, 31))
            slot = i if i < 2 else draw(st.integers(0, 3))
            ops.append(["new", slot, (first + i) % len(problems) if i < 2 else draw(st.integers(0, len(problems) - 1)), how])
            slots.append(slot)
        elif kind == "drop":
            ops.append(["drop", draw(st.sampled_from(slots))])
        else:
            ops.append(["step", draw(st.sampled_from(slots)), draw(st.booleans())])
    return {"backend": backend, "problems": problems, "ops": ops}


# --- in other processes -------------------------------------------------------------------

SCRIPT = """
import json, sys, warnings, logging
warnings.simplefilter("ignore"); logging.disable(50)
case = json.load(open(sys.argv[1])); out = sys.argv[2]
sys.argv = ["x"]
from vlib import paths
paths.setup()
import numpy as np
from checks import P21
res = P21.alone(case["problems"][0], case["backend"], case["steps"], case["write"])
np.savez(open(out, "wb"), **{"a%d_%d" % (i, j): a for i, s in enumerate(res) for j, a in enumerate(s)})
"""


def check_process(case):
    """the same description in another process, with another seed of the hashes"""
    root = tempfile.mkdtemp(prefix="proc-")
    p = case["problems"][0]
    folder = os.path.join(root, "code")
    case = dict(case, write={"directory": folder} if case["dir"] else None)
    try:
        with open(os.path.join(root, "case.json"), "w") as fh:
            json.dump(case, fh)
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([paths.REPO, paths.VERIF]), PYTHONHASHSEED=str(case["hash"]))
        r = subprocess.run([sys.executable, "-c", SCRIPT, os.path.join(root, "case.json"), os.path.join(root, "out.npz")],
                           cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
        if r.returncode:
            raise RuntimeError(r.stdout[-2000:].decode())
        want = alone(p, case["backend"], case["steps"])
        with np.load(os.path.join(root, "out.npz")) as z:
            for i, s in enumerate(want):
                same([z["a%d_%d" % (i, j)] for j in range(len(s))], s, "in another process, after {} steps".format(i + 1))
        if case["dir"]:
            want = alone(p, case["backend"], case["steps"], {"directory": folder, "generate": False})
            with np.load(os.path.join(root, "out.npz")) as z:
                for i, s in enumerate(want):
                    same([z["a%d_%d" % (i, j)] for j in range(len(s))], s,
                         "with the code written by another process, after {} steps".format(i + 1))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return info(True, "dim%d" % p["spec"]["dim"], "process", case["backend"], "code read" if case["dir"] else "code generated")


@st.composite
def twins(draw):
    """two simple descriptions which differ by one number"""
    dim = draw(st.sampled_from([1, 1, 2]))
    p = draw(bc.problems(dim, max_q=5, n={1: (4, 9), 2: (4, 6)}[dim], max_elems=1, steps=1, max_schemes=1, nonlinear=False))
    p["perturbed"] = draw(st.booleans())
    q = dict(twin(draw, p, draw(st.sampled_from([0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 7, 8]))), perturbed=p["perturbed"])
    return {"problems": [p, q], "backend": "numpy",
            "ops": [["new", 0, 0, {}], ["new", 1, 1, {}]] + draw(st.permutations([["step", 0, True], ["step", 1, True], ["step", 1, True]]))}


@st.composite
def process_cases(draw, backend="numpy"):
    case = draw(cases(backend))
    p = case["problems"][0]
    return {"problems": [p], "backend": backend, "dir": draw(st.booleans()) or backend == "cython", "steps": 3, "hash": draw(st.integers(0, 1000))}


FAMILIES = [
    Family("interleaved", check, cases(dirs=False), quick=32, thorough=3000, timeout=30),
    Family("twins", check, twins(), quick=64, thorough=2000, timeout=20),
    Family("directories", check, cases(), quick=36, thorough=3000, timeout=30),
    Family("cython", check, cases("cython", nops=8, max_new=3), quick=3, thorough=150, timeout=120, shrink=False),
    Family("other process", check_process, process_cases(), quick=16, thorough=400, timeout=30),
    Family("other process, cython", check_process, process_cases("cython"), quick=4, thorough=80, timeout=120, shrink=False),
]
