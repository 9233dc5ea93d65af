"""Runs one shard of a check in its own process: worker.py PROP TIER SEED SHARD NSHARDS OUT CURRENT BUDGET"""
import importlib
import json
import logging
import os
import sys
import time
import traceback

ARGS = sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import paths  # noqa: E402

paths.setup()
from vlib import core  # noqa: E402


def main():
    prop, tier, seed, shard, nshards, out, current, budget = ARGS[:8]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    deadline = time.time() + float(budget)
    if shard:
        # the generated code is compiled without optimisation (three times faster),
        # except in the first worker
        os.environ["CC"] = os.path.join(paths.VERIF, "tools", "fastcc")
    result = {"families": {}, "failure": None, "error": None}
    known = core.known_findings().get(prop, {})
    try:
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter("ignore")
        mod = importlib.import_module("checks." + prop)
        import pylbm
        root = os.path.realpath(os.path.join(paths.REPO, "pylbm"))
        if os.path.dirname(os.path.realpath(pylbm.__file__)) != root:
            raise RuntimeError("pylbm imported from " + pylbm.__file__)
        offset = turn = 0
        for fam in mod.FAMILIES:
            t0 = time.time()
            part = (shard, nshards, offset)
            if fam.workers and tier == "quick" and fam.workers < nshards:
                part = ((shard - turn) % nshards, fam.workers, 0)
                turn += fam.workers
                if part[0] >= fam.workers:
                    continue
            stats, failure = core.run_family(prop, fam, tier, seed, part[0], part[1], deadline,
                                             current, known, part[2])
            if fam.cases is None and part[1] == nshards:
                offset += fam.n[tier]
            d = stats.as_dict()
            d["wall"] = time.time() - t0
            result["families"][fam.name] = d
            if failure:
                result["failure"] = failure
                break
    except BaseException:
        result["error"] = traceback.format_exc()
    with open(out + ".tmp", "w") as fh:
        json.dump(result, fh)
    os.replace(out + ".tmp", out)


main()
sys.stdout.flush()
sys.stderr.flush()
os._exit(0)
