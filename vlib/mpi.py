"""Cases run by several processes.

`run(np, function, case)` makes the N ranks of a persistent mpirun call
`function(case)` (the name of a function "checks.P14:remote") and returns the list of
their results (dictionaries of arrays). The ranks poll a directory of the scratch space
of the worker; a rank which raises aborts the whole run, which is started again for the
next case. No answer at all is a violation: nothing in a step of a simulation may wait
for ever.
"""
import atexit
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

from . import paths
from .core import Violation

HANG = 150.0
SERVERS = {}


class Server:
    def __init__(self, n):
        self.n = n
        self.dir = tempfile.mkdtemp(prefix="mpi%d-" % n)
        self.count = 0
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([paths.REPO, paths.VERIF]), OMP_NUM_THREADS="1",
                   VERIF_MPI_PARENT=str(os.getpid()),
                   OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_btl="self,vader",
                   OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="",
                   OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_rmaps_base_oversubscribe="1")
        # (the variables of the singleton initialisation of this process)
        for k in list(env):
            if k.startswith(("PMIX_", "OMPI_COMM", "OMPI_UNIVERSE", "OMPI_APP", "OMPI_MCA_ess", "OMPI_MCA_orte")):
                del env[k]
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen(
            ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(n), sys.executable, "-c",
             "import sys; from vlib import mpi; mpi.serve(sys.argv[1])", self.dir],
            env=env, cwd=self.dir, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
            start_new_session=True)

    def stop(self):
        if self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGTERM)
                self.proc.wait(timeout=3)
            except (OSError, subprocess.TimeoutExpired):
                pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def call(self, function, case):
        k = self.count
        self.count += 1
        fn = os.path.join(self.dir, "job%d" % k)
        with open(fn + ".tmp", "w") as fh:
            json.dump([function, case], fh)
        os.replace(fn + ".tmp", fn)
        outs = [os.path.join(self.dir, "out%d.%d.npz" % (k, r)) for r in range(self.n)]
        errs = [os.path.join(self.dir, "err%d.%d" % (k, r)) for r in range(self.n)]
        t0 = time.time()
        pause = 0.001
        while True:
            if all(os.path.exists(o) for o in outs):
                res = []
                for o in outs:
                    with np.load(o) as z:
                        res.append({a: z[a] for a in z.files})
                    os.unlink(o)
                os.unlink(fn)
                return res
            bad = [e for e in errs if os.path.exists(e)]
            if bad:
                time.sleep(0.2)
                for e in bad:
                    with open(e) as fh:
                        text = fh.read()
                    if "REPO" in text[:5] or "VIOL" in text[:5]:
                        raise Violation("on %d processes, %s: %s" % (self.n, os.path.basename(e), text[-2500:]))
                raise RuntimeError(text)
            if self.proc.poll() is not None:
                with open(os.path.join(self.dir, "log"), "rb") as fh:
                    text = fh.read()[-2500:].decode(errors="replace")
                if k == 0 and time.time() - t0 < 5:
                    raise RuntimeError("mpirun: " + text)
                raise Violation("the run on %d processes died: %s" % (self.n, text))
            if time.time() - t0 > HANG:
                raise Violation("no answer from %d processes (one of them waits for ever?)" % self.n)
            time.sleep(pause)
            pause = min(0.02, pause * 1.3)


def run(n, function, case):
    if n not in SERVERS:
        for other in list(SERVERS):              # (one at a time: the ranks poll)
            SERVERS.pop(other).stop()
        SERVERS[n] = Server(n)
    try:
        return SERVERS[n].call(function, case)
    except BaseException:
        SERVERS.pop(n).stop()
        raise


@atexit.register
def stop_all():
    for n in list(SERVERS):
        SERVERS.pop(n).stop()


# --- the ranks -------------------------------------------------------------------------

def serve(folder):
    from mpi4py import MPI
    from vlib.core import classify
    sys.argv = ["x"]
    paths.setup()
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    parent = int(os.environ.get("VERIF_MPI_PARENT", "0"))
    k = 0
    while True:
        fn = os.path.join(folder, "job%d" % k)
        idle = time.time()
        while not os.path.exists(fn):
            time.sleep(0.004 if time.time() - idle < 1 else 0.02)
            if not os.path.isdir(folder) or (parent and not os.path.exists("/proc/%d" % parent)):
                os._exit(0)
        try:
            with open(fn) as fh:
                function, case = json.load(fh)
            mod, name = function.split(":")
            res = getattr(importlib.import_module(mod), name)(case)
            out = os.path.join(folder, "out%d.%d.npz" % (k, rank))
            with open(out + ".tmp", "wb") as fh:
                np.savez(fh, **res)
        except BaseException as exc:  # pylint: disable=broad-except
            kind = "REPO " if classify(exc) == "violation" or isinstance(exc, SystemExit) else "HARN "
            err = os.path.join(folder, "err%d.%d" % (k, rank))
            with open(err + ".tmp", "w") as fh:
                fh.write(kind + traceback.format_exc())
            os.replace(err + ".tmp", err)
            time.sleep(1)
            comm.Abort(1)
        # the parent removes the job once it has all the results
        os.replace(out + ".tmp", out)
        k += 1

