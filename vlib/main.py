"""main.py PROP [quick|thorough] | PROP --replay FILE"""
import ast
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ARGS = sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, paths  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))


def tail(fn, n=3000):
    try:
        with open(fn, errors="replace") as fh:
            return fh.read()[-n:]
    except OSError:
        return ""


def replay(prop, fn):
    paths.setup()
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    with open(fn) as fh:
        data = json.load(fh)
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.chdir(scratch)
    core.signal.signal(core.signal.SIGALRM, core._alarm)
    try:
        mod = importlib.import_module("checks." + prop)
        fam = [f for f in mod.FAMILIES if f.name == data["family"]][0]
        res, msg = core.evaluate(prop, fam, data["case"], core.known_findings().get(prop, {}))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is not None:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        sys.stdout.flush()
        os._exit(1)
    print("held", res)
    sys.stdout.flush()
    os._exit(0)


def rules(prop):
    """RULE (what a non-trivial case is) and ASSUMPTIONS of the check, without importing it"""
    out = {"rule": "every case", "assumptions": []}
    with open(os.path.join(paths.VERIF, "checks", prop + ".py")) as fh:
        tree = ast.parse(fh.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            out[{"RULE": "rule", "ASSUMPTIONS": "assumptions"}[node.targets[0].id]] = ast.literal_eval(node.value)
    return out


def save_replay(prop, failure):
    folder = os.path.join(paths.VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha1(
        json.dumps(failure["case"], sort_keys=True).encode()).hexdigest()[:10])
    fn = os.path.join(folder, name)
    with open(fn, "w") as fh:
        json.dump(failure, fh, indent=1)
    return fn


def main():
    prop = ARGS[0]
    if len(ARGS) > 2 and ARGS[1] == "--replay":
        replay(prop, os.path.abspath(ARGS[2]))
    tier = ARGS[1] if len(ARGS) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nw = int(os.environ.get("VERIF_WORKERS", "8"))
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "3000"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    errors, failures, fams, known = [], [], {}, {}
    try:
        for i in range(nw):
            cwd = os.path.join(scratch, "w%d" % i)
            os.makedirs(os.path.join(cwd, "tmp"))
            env = dict(os.environ, TMPDIR=os.path.join(cwd, "tmp"))
            out, cur = os.path.join(scratch, "out%d" % i), os.path.join(scratch, "cur%d" % i)
            log = open(os.path.join(scratch, "log%d" % i), "w")
            procs.append((i, out, cur, subprocess.Popen(
                [sys.executable, os.path.join(HERE, "worker.py"), prop, tier, str(seed), str(i),
                 str(nw), out, cur, str(budget)],
                cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT)))
        hard = t0 + budget + (300 if tier == "quick" else 900)
        for i, out, cur, pr in procs:
            try:
                rc = pr.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                errors.append("worker %d: out of time, on %s" % (i, tail(cur, 2000)))
                continue
            if os.path.exists(out):
                with open(out) as fh:
                    res = json.load(fh)
                if res["error"]:
                    errors.append("worker %d: %s" % (i, res["error"]))
                if res["failure"]:
                    failures.append(res["failure"])
                for name, d in res["families"].items():
                    f = fams.setdefault(name, dict(evaluations=0, skipped=0, keys=set(), labels={},
                                                   samples=[], wall=0.0, slow=[0.0, None]))
                    f["evaluations"] += d["evaluations"]
                    f["skipped"] += d["skipped"]
                    f["wall"] = max(f["wall"], d["wall"])
                    f["keys"].update(d["keys"])
                    for k, v in d["labels"].items():
                        f["labels"][k] = f["labels"].get(k, 0) + v
                    if len(f["samples"]) < 2:
                        f["samples"] += d["samples"][: 2 - len(f["samples"])]
                    f["slow"] = max(f["slow"], d["slow"], key=lambda x: x[0])
                    known.update(d["known"])
            elif rc in (-11, -6, -8, -7, -4) and os.path.exists(cur):
                # the code under test crashed the process on this case
                with open(cur) as fh:
                    c = json.load(fh)
                c["message"] = "the process died (signal %d)\n%s" % (-rc, tail(
                    os.path.join(scratch, "log%d" % i), 1500))
                failures.append(c)
            else:
                errors.append("worker %d: exit code %s\n%s" % (
                    i, rc, tail(os.path.join(scratch, "log%d" % i))))
    finally:
        for _, _, _, pr in procs:
            if pr.poll() is None:
                pr.kill()
                pr.wait()
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.time() - t0
    paths.setup()
    mod_rule = rules(prop)
    evals = sum(f["evaluations"] for f in fams.values())
    distinct = sum(len(f["keys"]) for f in fams.values())
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": mod_rule["rule"],
        "samples": [s for f in fams.values() for s in f["samples"]],
        "families": {k: {"evaluations": f["evaluations"], "distinct_nontrivial": len(f["keys"]),
                         "skipped_out_of_time": f["skipped"], "wall_s": round(f["wall"], 2),
                         "classes": dict(sorted(f["labels"].items()))} for k, f in fams.items()},
    }
    if tier == "quick":
        coverage["samples"] = coverage["samples"][:12]
    evidence = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "exploration", "coverage": coverage, "wall_s": round(wall, 2),
        "violations": len(failures), "assumptions": mod_rule.get("assumptions", []),
    }
    os.makedirs(os.path.join(paths.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(paths.VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)

    listed = core.known_findings().get(prop, {})
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, listed.get(k, k)))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, evals, distinct, wall))
    for name, f in fams.items():
        print("   %-28s %6d cases %6d non-trivial %s %.1f s" % (
            name, f["evaluations"], len(f["keys"]),
            "(%d skipped)" % f["skipped"] if f["skipped"] else "", f["wall"]))
        if os.environ.get("VERIF_SLOW"):
            print("      slowest: %.1f s %s" % (f["slow"][0], json.dumps(f["slow"][1])))
    if errors:
        print("%d errors of the harness, the first one:\n%s" % (len(errors), errors[0][:400] + " ... " + errors[0][-1500:] if len(errors[0]) > 2000 else errors[0]))
    if failures:
        best = {}
        for f in failures:
            size = len(json.dumps(f["case"]))
            if f["family"] not in best or size < best[f["family"]][0]:
                best[f["family"]] = (size, f)
        for _, f in best.values():
            fn = save_replay(prop, f)
            print("family %s: %s" % (f["family"], f["message"]))
            print("case: %s" % json.dumps(f["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, fn))
        sys.exit(1)
    if errors:
        sys.exit(2)
    if evals == 0:
        print("nothing was explored")
        sys.exit(2)
    sys.exit(0)


main()
