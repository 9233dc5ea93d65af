"""What a check is made of.

A check module (checks/Pxx.py) gives FAMILIES, a list of `Family`. A family has a
strategy (hypothesis) producing plain data (JSON), or an explicit list of cases, and a
function which builds the real objects from the data, and compares them with the
oracle. The function raises `Violation` if the property is broken, `Known` if the
failure is exactly the one of a recorded finding, and returns a dictionary:
  nontrivial: bool, labels: list of str.
"""
import hashlib
import json
import os
import signal
import time
import traceback

from . import paths


class Violation(Exception):
    """The property does not hold on this case."""


class OutOfTime(BaseException):
    """The case takes too long (symbolic computations of sympy): it is skipped."""


def _alarm(*_):
    raise OutOfTime()


class Known(Exception):
    """The case fails in the way described by the finding `key`."""

    def __init__(self, key, msg=""):
        super().__init__(msg)
        self.key = key


class Family:
    def __init__(self, name, check, strategy=None, cases=None, quick=100, thorough=1000,
                 shrink=True, timeout=30, workers=None):
        # quick: only this number of workers (for the families whose start is long)
        self.workers = workers
        self.timeout = timeout
        self.name = name
        self.check = check
        self.strategy = strategy
        self.cases = cases
        self.n = {"quick": quick, "thorough": thorough}
        self.shrink = shrink


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def info(nontrivial=True, *labels):
    return {"nontrivial": bool(nontrivial), "labels": [str(l) for l in labels]}


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def seed_of(seed, *what):
    h = hashlib.sha1(("%s|" % seed + "|".join(map(str, what))).encode()).hexdigest()
    return int(h[:12], 16)


def known_findings():
    """{key: description}, for each property, from /verif/known_findings.txt"""
    out = {}
    with open(os.path.join(paths.VERIF, "known_findings.txt")) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith("finding:"):
                words = line.split()
                prop = words[1].split("=", 1)[1]
                key = words[2].split("=", 1)[1]
                out.setdefault(prop, {})[key] = " ".join(words[3:])
    return out


REPO_MARK = os.sep + "pylbm" + os.sep


class Harness(Exception):
    pass


def classify(exc):
    """'violation', or 'harness' if the exception does not come from the code under
    test. The cases are valid: an exception raised by pylbm, or by a check which looks
    at what pylbm made (an attribute or an entry which is missing...), breaks the property."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, (MemoryError, KeyboardInterrupt, Harness)):
        return "harness"
    if isinstance(exc, OSError) and exc.errno in (12, 28, 11):
        return "harness"
    import subprocess
    if isinstance(exc, subprocess.SubprocessError):
        return "harness"
    return "violation"


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.slow = (0.0, None)

    def as_dict(self):
        return dict(evaluations=self.evaluations, skipped=self.skipped,
                    keys=sorted(self.keys), labels=self.labels, samples=self.samples,
                    known=self.known, slow=self.slow)


def evaluate(prop, family, case, known):
    """Returns (info, None) or (None, message of the violation)."""
    try:
        res = family.check(case)
        if res is None:
            res = info(True)
        return res, None
    except Known as e:
        if e.key in known:
            return {"nontrivial": True, "labels": ["known:" + e.key], "known": (e.key, str(e))}, None
        return None, "%s (%s)" % (e, e.key)
    except Violation as e:
        return None, str(e)
    except (Exception, SystemExit) as e:
        if classify(e) == "violation":
            return None, "unexpected %s: %s\n%s" % (
                type(e).__name__, str(e)[:2000], "".join(traceback.format_exception(e))[-3000:])
        raise


def run_family(prop, family, tier, seed, shard, nshards, deadline, current, known, offset=0):
    """Run the part `shard` of the family. Returns (stats, failure)."""
    stats = Stats()
    failing = {}  # key -> (size, case, message)
    state = {"t_fail": None, "first": shard > 0 and family.cases is None}
    signal.signal(signal.SIGALRM, _alarm)
    limit = 45 if tier == "quick" else 240

    def one(case):
        if state["first"]:
            # the first example of hypothesis is the simplest one: one shard is enough
            state["first"] = False
            return
        k = key_of(case)
        if k in failing:
            raise AssertionError("violation")
        if time.time() > deadline:
            stats.skipped += 1
            return
        if state["t_fail"] is not None and time.time() - state["t_fail"] > limit:
            return
        with open(current, "w") as fh:
            json.dump({"family": family.name, "case": case}, fh)
        t0 = time.time()
        # (again and again: an exception is lost when it comes in a callback)
        signal.setitimer(signal.ITIMER_REAL, family.timeout * (1 if tier == "quick" else 4), 1.0)
        try:
            res, msg = evaluate(prop, family, case, known)
        except OutOfTime:
            stats.skipped += 1
            stats.slow = (time.time() - t0, case)
            return
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if time.time() - t0 > stats.slow[0]:
            stats.slow = (time.time() - t0, case)
        stats.evaluations += 1
        if msg is not None:
            failing[k] = (len(json.dumps(case)), case, msg)
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            raise AssertionError("violation")
        if "known" in res:
            stats.known[res["known"][0]] = res["known"][1]
        for l in res["labels"]:
            stats.labels[l] = stats.labels.get(l, 0) + 1
        if res["nontrivial"]:
            if k not in stats.keys and len(stats.samples) < 2:
                stats.samples.append({"family": family.name, "case": case, "labels": res["labels"]})
            stats.keys.add(k)

    try:
        if family.cases is not None:
            cases = family.cases(tier, seed) if callable(family.cases) else family.cases
            for case in cases[shard::nshards]:
                one(case)
        else:
            from hypothesis import HealthCheck, Phase, given, settings
            from hypothesis import seed as hseed
            n = family.n[tier]
            n = n // nshards + (1 if (shard - offset) % nshards < n % nshards else 0)
            if n == 0:
                return stats, None
            phases = [Phase.generate] + ([Phase.shrink] if family.shrink and not os.environ.get("VERIF_NOSHRINK") else [])

            @hseed(seed_of(seed, prop, family.name, shard))
            @settings(max_examples=n + (shard > 0), deadline=None, database=None, phases=phases,
                      report_multiple_bugs=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(family.strategy)
            def test(case):
                one(case)

            test()
    except BaseException:
        if not failing:
            raise
    if failing:
        size, case, msg = min(failing.values(), key=lambda x: x[0])
        return stats, {"family": family.name, "case": case, "message": msg}
    return stats, None
