"""The hdf5 files and their xdmf companions, read back."""
import os
import shutil
import signal
import sys
import tempfile
import time
from xml.etree import ElementTree

import h5py
import numpy as np
from hypothesis import strategies as st

from vlib import bc, lbm, mpi
from vlib.core import Family, info, require

import pylbm

RULE = "at least one field with different values in all the cells, on a grid which is not a cube"
ASSUMPTIONS = ["2D and 3D grids (the xdmf files do not describe 1D grids)",
               "names without the characters that have a meaning in xml; names of files without a dot (what follows is dropped)",
               "vectors given as lists of at most 3 arrays, or functions returning them; the missing components are not specified"]


def field(seed, k, c, n):
    """the values of the component c of the field k on the whole grid"""
    return np.random.default_rng([seed, k, c]).uniform(-10, 10, size=n)


def layout(a, kind, dtype):
    a = np.ascontiguousarray(a)
    if dtype == "int":
        a = np.rint(a * 100).astype(np.int64)
    elif dtype == "float32":
        a = a.astype(np.float32)
    elif dtype == "bool":
        a = a > 0
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.zeros([2 * s for s in a.shape], dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if kind == "halo":
        b = np.full([s + 3 for s in a.shape], 77, dtype=a.dtype)
        s = tuple(slice(1, -2) for _ in a.shape)
        b[s] = a
        return b[s]
    return a


def coords(case, d):
    rng = np.random.default_rng([case["seed"], 1000 + d])
    if case["uniform"]:
        return case["org"][d] + (np.arange(case["n"][d]) + 0.5) * case["dx"]
    return np.cumsum(rng.uniform(0.1, 1, size=case["n"][d]))


def write(case):
    """(by each process) write the files of the case in case["root"]"""
    dim = len(case["n"])
    sys.argv = ["x"]
    if case["split"]:
        for name, s in zip("xyz", case["split"]):
            sys.argv += ["-np" + name, str(s)]
    topo = pylbm.mpi_topology.MpiTopology(dim, [True] * dim)
    region = topo.get_region(*case["n"])
    s = tuple(slice(*r) for r in region)
    os.chdir(case["root"])
    for step, label in enumerate(case["steps"]):
        f = pylbm.H5File(topo, case["filename"], *([case["path"]] if case["path"] is not None else []),
                         **({} if label is None else {"timestep": label}))
        f.set_grid(*[coords(case, d)[s[d]] for d in range(dim)])
        for k, item in enumerate(case["items"]):
            parts = [layout(field(case["seed"] + step, k, c, case["n"])[s], item["layout"], item["dtype"])
                     for c in range(item["nc"] if item["kind"] == "vector" else 1)]
            before = [p.copy() for p in parts]
            if item["kind"] == "scalar":
                if item["call"] == "array":
                    f.add_scalar(item["name"], parts[0])
                elif item["call"] == "function":
                    f.add_scalar(item["name"], lambda p=parts: p[0])
                else:
                    f.add_scalar(item["name"], lambda a, b, p=parts: p[a - b], 3, 3)
            else:
                if item["call"] == "array":
                    f.add_vector(item["name"], list(parts))
                elif item["call"] == "function":
                    f.add_vector(item["name"], lambda p=parts: list(p))
                else:
                    f.add_vector(item["name"], lambda a, p=parts: p[:a], len(parts))
            for p, b in zip(parts, before):
                require(np.array_equal(p, b), "the field {} is modified", item["name"])
        f.save()
    return {"ok": np.array(1), "region": np.array(region)}


def verify(case, root, fields, x):
    """fields(step, item index, component) -> array"""
    n = case["n"]
    dim = len(n)
    folder = os.path.join(root, case["path"] or "")
    want = set()
    for step, label in enumerate(case["steps"]):
        name = case["filename"].replace(".h5", "") + ("" if label is None else "_%s" % label)
        want |= {name + ".h5", name + ".xdmf"}
        h5 = os.path.join(folder, name + ".h5")
        require(os.path.exists(h5), "the file {} is missing: {}", name + ".h5", os.listdir(folder))
        with h5py.File(h5, "r") as fh:
            for d in range(dim):
                got = fh["x_%d" % d][...]
                require(got.shape == (n[d],) and np.array_equal(got, x[d]), "{}: coordinates x_{}: {}", name, d, got)
            for k, item in enumerate(case["items"]):
                got = fh[item["name"]][...]
                require(got.shape == tuple(n[::-1]) + ((3,) if item["kind"] == "vector" else ()),
                        "{}: shape {} of {}", name, got.shape, item["name"])
                for c in range(item["nc"] if item["kind"] == "vector" else 1):
                    a = got[..., c] if item["kind"] == "vector" else got
                    e = fields(step, k, c)
                    # the first direction of space is the fastest
                    bad = a.T != e
                    require(not bad.any(), "{}: {} (component {}), {}, {} at {}: {} instead of {}", name, item["name"], c,
                            item["dtype"], item["layout"],
                            *(lambda i: (list(map(int, i)), float(a.T[tuple(i)]), float(e[tuple(i)])))(
                                np.argwhere(bad)[0] if bad.any() else [0] * dim))
            xdmf(os.path.join(folder, name + ".xdmf"), fh, case, name)
    require(set(os.listdir(folder)) >= want, "files {}", os.listdir(folder))


def xdmf(fn, fh, case, name):
    n = case["n"]
    dim = len(n)
    require(os.path.exists(fn), "no file {}", fn)
    root = ElementTree.parse(fn).getroot()
    require(root.tag == "Xdmf", "tag {}", root.tag)
    grids = root.findall("./Domain/Grid")
    require(len(grids) == 1, "{} grids", len(grids))
    topo = grids[0].find("Topology")
    require(topo.get("TopologyType") == "%dDRectMesh" % dim, "topology {}", topo.attrib)
    dims = [int(a) for a in topo.get("NumberOfElements").split()]
    require(dims == list(n[::-1]), "{}: dimensions of the grid {} instead of {}", name, dims, n[::-1])
    geo = grids[0].find("Geometry")
    require(geo.get("GeometryType") == {2: "VXVY", 3: "VXVYVZ"}[dim], "geometry {}", geo.attrib)

    def dataset(item):
        require(item.get("Format") == "HDF", "format {}", item.get("Format"))
        fil, path = item.text.strip().split(":", 1)
        require(fil == os.path.basename(fh.filename), "{}: the file {} is named", name, fil)
        require(path in fh, "{}: there is no dataset {}", name, path)
        shape = [int(a) for a in item.get("Dimensions").split()]
        require(shape == list(fh[path].shape), "{}: dimensions {} of {} instead of {}", name, shape, path, fh[path].shape)
        return path
    items = geo.findall("DataItem")
    require([dataset(i).strip("/") for i in items] == ["x_%d" % d for d in range(dim)], "coordinates")
    att = grids[0].findall("Attribute")
    require(sorted(a.get("Name") for a in att) == sorted(i["name"] for i in case["items"]), "{}: attributes {}", name,
            [a.get("Name") for a in att])
    kinds = {i["name"]: i["kind"] for i in case["items"]}
    for a in att:
        require(a.get("AttributeType") == kinds[a.get("Name")].capitalize(), "{}: type {}", name, a.attrib)
        require(dataset(a.find("DataItem")).strip("/") == a.get("Name"), "{}: dataset of {}", name, a.get("Name"))


def cast(a, dtype):
    return layout(a, "C", dtype).astype(float)


def check(case):
    root = tempfile.mkdtemp(prefix="h5-")
    here = os.getcwd()
    case = dict(case, root=root)
    try:
        if case["np"] == 1:
            write(case)
        else:
            parts = mpi.run(case["np"], "checks.P15:write", case)
            require(len(parts) == case["np"], "parts")
        os.chdir(here)
        verify(case, root, lambda s, k, c: cast(field(case["seed"] + s, k, c, case["n"]), case["items"][k]["dtype"]),
               [coords(case, d) for d in range(len(case["n"]))])
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)
    return info(case["items"] and len(set(case["n"])) > 1, "dim%d" % len(case["n"]), "np%d" % case["np"],
                *{i["kind"] + " " + i["dtype"] for i in case["items"]}, *{i["layout"] for i in case["items"]},
                *{i["call"] for i in case["items"]}, "path %s" % (case["path"],), "files %d" % len(case["steps"]))


# --- fields of a simulation --------------------------------------------------------------

def write_sim(case):
    sys.argv = ["x"]
    if case["split"]:
        for name, s in zip("xyz", case["split"]):
            sys.argv += ["-np" + name, str(s)]
    os.chdir(case["root"])
    d = bc.sim_dict(case)
    sim = pylbm.Simulation(d, sorder=list(case["sorder"])) if case["sorder"] else pylbm.Simulation(d)
    out = {"region": np.array(sim.domain.mpi_topo.get_region(*[int(n) for n in sim.domain.global_size]))}
    for _ in range(case["nt"]):
        sim.one_time_step()
    cons = [lbm.sym(u) for u in case["init"]]
    label = case["steps"][0]
    f = pylbm.H5File(sim.domain.mpi_topo, case["filename"], case["path"] or "", label)
    f.set_grid(*sim.domain.coords)
    f.add_scalar("first", sim.m[cons[0]])
    f.add_scalar("f0", lambda k: sim.F[k], 0)
    f.add_vector("vec", [sim.m[cons[0]], 2 * sim.m[cons[-1]]])
    f.save()
    for name, a in (("first", sim.m[cons[0]]), ("f0", sim.F[0]), ("vec0", sim.m[cons[0]]), ("vec1", 2 * sim.m[cons[-1]])):
        out[name] = np.array(a)
    for e, x in enumerate(sim.domain.coords):
        out["x%d" % e] = np.array(x)
    return out


def check_sim(case):
    root = tempfile.mkdtemp(prefix="h5-")
    here = os.getcwd()
    case = dict(case, root=root, n=case["dom"]["box"]["n"], items=[
        {"name": "first", "kind": "scalar", "dtype": "float", "layout": "sim"},
        {"name": "f0", "kind": "scalar", "dtype": "float", "layout": "sim"},
        {"name": "vec", "kind": "vector", "nc": 2, "dtype": "float", "layout": "sim"}])
    dim = len(case["n"])
    try:
        if case["np"] > 1:
            # alone first: the symbolic computations of some schemes do not end
            signal.setitimer(signal.ITIMER_REAL, 15, 1.0)
            t0 = time.time()
            sys.argv = ["x"]
            pylbm.Simulation(bc.sim_dict(case), initialize=False)
            if time.time() - t0 > 8:
                return info(False, "slow")
            signal.setitimer(signal.ITIMER_REAL, 290, 1.0)
        parts = [write_sim(case)] if case["np"] == 1 else mpi.run(case["np"], "checks.P15:write_sim", case)
        os.chdir(here)
        whole = {}
        for name in ("first", "f0", "vec0", "vec1"):
            whole[name] = np.full(case["n"], np.nan)
            for p in parts:
                whole[name][tuple(slice(*r) for r in p["region"])] = p[name]
        if not all(np.isfinite(a).all() for a in whole.values()):
            return info(False, "unstable")
        bx = case["dom"]["box"]
        x = []
        for e in range(dim):
            g = np.full(case["n"][e], np.nan)
            for p in parts:
                g[slice(*p["region"][e])] = p["x%d" % e]
            x.append(g)
            require(np.allclose(g, bx["org"][e] + (np.arange(bx["n"][e]) + .5) * bx["dx"], rtol=1e-12, atol=1e-12), "coordinates")
        verify(case, root, lambda s, k, c: whole[["first", "f0", "vec%d" % c][k]], x)
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)
    return info(len(set(case["n"])) > 1, "dim%d" % dim, "np%d" % case["np"], "simulation")


NAMES = ["rho", "qx", "u v", "mass(1)", "group/field", "T^2", "x-y", "f_0", "RHO", "pression totale"]


def split_of(draw, np_, dim):
    from checks.P14 import AUTO, splits
    s = draw(st.sampled_from(splits(np_, dim)))
    if draw(st.integers(0, 3)) == 0 or np_ == 1 or all(a == 1 for a in s):
        return None, (AUTO[dim][np_] if np_ > 1 else [1] * dim)
    return s, s


@st.composite
def cases(draw, np_):
    dim = draw(st.sampled_from([2, 2, 3]))
    given_, split = split_of(draw, np_, dim)
    n = [draw(st.integers(s, {2: 12, 3: 7}[dim])) for s in split]
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    items = []
    for name in names:
        items.append({"name": name, "kind": draw(st.sampled_from(["scalar", "vector"])), "nc": draw(st.integers(1, 3)),
                      "dtype": draw(st.sampled_from(["float", "float", "int", "float32", "bool"])),
                      "layout": draw(st.sampled_from(["C", "F", "strided", "halo"])),
                      "call": draw(st.sampled_from(["array", "function", "args"]))})
    return {"np": np_, "split": given_, "n": n, "items": items, "seed": draw(st.integers(0, 10 ** 6)),
            "uniform": draw(st.booleans()), "org": [draw(st.integers(-3, 3)) for _ in range(dim)],
            "dx": draw(st.sampled_from([1.0, 0.1, 0.25, 1 / 3])),
            "path": draw(st.sampled_from([None, "", ".", "out", "out/a/b", "./res dir", "../%s" % "h5up" if False else "a_b"])),
            "filename": draw(st.sampled_from(["file", "test.h5", "a_1", "res 2"])),
            "steps": draw(st.sampled_from([[None], [0], [3, 14], [None, 1], [1000000], ["end"], [0.5, 0.25], [-1, 1]]))}


@st.composite
def sim_cases(draw, np_):
    dim = draw(st.sampled_from([2, 2, 3]))
    case = draw(bc.problems(dim, max_q={2: 9, 3: 7}[dim], n={2: (4, 9), 3: (3, 5)}[dim], max_elems=0, coords=False, steps=1,
                            nonlinear=False))
    given_, split = split_of(draw, np_, dim)
    vmax = lbm.vmax_of(case["spec"])
    bx = case["dom"]["box"]
    bx["n"] = [max(m, s * max(1, v)) for m, s, v in zip(bx["n"], split, vmax)]
    case.update(np=np_, split=given_, nt=draw(st.integers(0, 2)), steps=[draw(st.sampled_from([None, 0, 12]))],
                path=draw(st.sampled_from([None, "out", "o/p"])), filename="sim",
                sorder=draw(st.one_of(st.none(), st.permutations(range(dim + 1)))))
    return case


FAMILIES = [
    Family("1 process", check, cases(1), quick=200, thorough=8000),
    Family("2 processes", check, cases(2), quick=60, thorough=3000, timeout=300),
    Family("3 processes", check, cases(3), quick=60, thorough=3000, timeout=300),
    Family("4 processes", check, cases(4), quick=60, thorough=3000, timeout=300),
    Family("6 processes", check, cases(6), quick=40, thorough=2000, timeout=300),
    Family("simulation", check_sim, sim_cases(1), quick=40, thorough=1500, timeout=60),
    Family("simulation, 4 processes", check_sim, sim_cases(4), quick=24, thorough=800, timeout=300),
]
