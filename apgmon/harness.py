"""Workers, verdicts, evidence, replay files, known findings."""
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import runner

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
SCALE = float(os.environ.get("APGMON_SCALE", "1"))  # shorter runs during development
if SCALE != 1:
    EVIDENCE = os.path.join(VERIF, "evidence", "scaled")


class Violation(Exception):
    def __init__(self, msg, **artifacts):
        super().__init__(msg)
        self.msg = msg
        self.artifacts = artifacts


class Check:
    """One property.  Subclasses define the class attributes and case()."""

    id = ""
    level = "exploration"
    rule = ""
    assumptions = []
    quick = 300  # number of cases
    thorough = 3000
    soft = {"quick": 500, "thorough": 3000}  # seconds after which no new case starts
    required = {}  # stat -> minimum, else inconclusive
    workers = 8

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed

    def total(self):
        n = self.quick if self.tier == "quick" else self.thorough
        return max(1, int(n * SCALE))

    def rng(self, idx):
        return random.Random("%s/%d/%d" % (self.id, self.seed, idx))

    def setup(self):
        """once, before the workers start"""

    def case(self, idx, rng, box, stats):
        """Runs one case; raises Violation; returns (key or None, sample or None)."""
        raise NotImplementedError


def load(pid, tier, seed):
    mod = importlib.import_module("apgmon.checks." + pid.lower())
    return mod.CHECK(tier, seed)


def _one(check, idx, box, stats, mode):
    box.mode = mode
    box.reset()
    return check.case(idx, check.rng(idx), box, stats)


def _worker(check, counter, stop, q, root, deadline, wid):
    os.environ["TMPDIR"] = root
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        runner.warm()
    except BaseException:
        q.put(("error", traceback.format_exc()))
        q.put(("done", wid, Counter(), [], [], 0))
        return
    box = runner.Box(os.path.join(root, "w%d" % wid))
    stats = Counter()
    keys = set()
    samples = []
    n = 0
    total = check.total()
    while not stop.is_set():
        if time.monotonic() > deadline:
            stats["stopped_by_deadline"] += 1
            break
        with counter.get_lock():
            idx = counter.value
            if idx >= total:
                break
            counter.value += 1
        try:
            try:
                key, sample = _one(check, idx, box, stats, "fork")
            except Violation as v:
                stats["suspicions"] += 1
                scratch = Counter()
                try:
                    _one(check, idx, box, scratch, "spawn")
                    confirmed = None
                except Violation as v2:
                    confirmed = v2
                if confirmed is None and v.artifacts.get("fork_only"):
                    try:
                        _one(check, idx, box, scratch, "fork")
                    except Violation as v2:
                        confirmed = v2
                if confirmed is not None:
                    q.put(("violation", idx, confirmed.msg, confirmed.artifacts))
                    stop.set()
                    break
                stats["unconfirmed"] += 1
                q.put(("unconfirmed", idx, v.msg))
                key, sample = None, None
            n += 1
            stats["cli_runs"] += box.runs
            box.runs = 0
            if key is not None:
                keys.add(key)
            if sample is not None and len(samples) < 2:
                samples.append({"case": idx, "sample": sample})
        except runner.Inconclusive as ex:
            stats["inconclusive_cases"] += 1
            q.put(("inconclusive", idx, str(ex)))
        except BaseException:
            q.put(("error", "case %d\n%s" % (idx, traceback.format_exc())))
            stop.set()
            break
    shutil.rmtree(box.root, ignore_errors=True)
    q.put(("done", wid, stats, list(keys), samples, n))


def scratch_root():
    for base in ("/dev/shm", "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return tempfile.mkdtemp(prefix="apgmon.", dir=base)
    return tempfile.mkdtemp(prefix="apgmon.")


def _jsonable(x):
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(_jsonable(obj), f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def main(pid, tier, seed, replay=None):
    t0 = time.monotonic()
    root = scratch_root()

    def bye(sig, frame):
        shutil.rmtree(root, ignore_errors=True)
        os._exit(128 + sig)

    signal.signal(signal.SIGTERM, bye)
    # keep byte code out of /repo and never read stale byte code from there
    pyc = os.path.join(root, "pyc")
    os.makedirs(pyc)
    os.environ["PYTHONPYCACHEPREFIX"] = pyc
    sys.pycache_prefix = pyc
    try:
        if replay:
            return _replay(pid, replay, root)
        return _main(pid, tier, seed, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _replay(pid, path, root):
    with open(path) as f:
        rep = json.load(f)
    check = load(pid, rep["tier"], rep["seed"])
    check.setup()
    runner.warm()
    box = runner.Box(os.path.join(root, "w"))
    for mode in ("spawn", "fork"):
        try:
            _one(check, rep["case"], box, Counter(), mode)
        except Violation as v:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  " + v.msg.replace("\n", "\n  "))
            return 1
    print("case %d does not violate %s" % (rep["case"], pid))
    return 0


def _main(pid, tier, seed, root, t0):
    check = load(pid, tier, seed)
    check.setup()
    from . import findings

    known = findings.report(pid, root)
    for line in known["lines"]:
        print(line)
    counter = mp.Value("l", 0)
    stop = mp.Event()
    q = mp.Queue()
    deadline = t0 + check.soft[tier]
    nw = min(check.workers, max(1, os.cpu_count() or 1))
    procs = [mp.Process(target=_worker, args=(check, counter, stop, q, root, deadline, i)) for i in range(nw)]
    for p in procs:
        p.start()
    stats = Counter()
    keys = set()
    samples = []
    evals = 0
    done = 0
    violations = []
    errors = []
    unconfirmed = []
    inconclusive = []
    while done < nw:
        try:
            msg = q.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs) and q.empty():
                errors.append("a worker died")
                break
            continue
        if msg[0] == "done":
            done += 1
            stats.update(msg[2])
            keys.update(msg[3])
            samples += msg[4]
            evals += msg[5]
        elif msg[0] == "violation":
            violations.append(msg[1:])
        elif msg[0] == "unconfirmed":
            unconfirmed.append(msg[1:])
        elif msg[0] == "inconclusive":
            inconclusive.append(msg[1:])
        else:
            errors.append(msg[1])
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    missing = [] if violations else ["%s=%d, needed %d" % (k, stats[k], v) for k, v in check.required.items() if stats[k] < int(v * min(1, SCALE) / (2 if SCALE < 1 else 1))]
    wall = time.monotonic() - t0
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": check.rule,
            "samples": sorted(samples, key=lambda s: s["case"])[:3],
            "observed": dict(sorted(stats.items())),
            "known_findings_reproduced": known["reproduced"],
            "unconfirmed": unconfirmed[:5],
            "inconclusive": inconclusive[:5],
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    write_json(os.path.join(EVIDENCE, pid + ".json"), evidence)
    if violations:
        for idx, text, art in sorted(violations)[:3]:
            path = os.path.join(EVIDENCE, "replay", "%s-%d-%d.json" % (pid, seed, idx))
            write_json(path, {"property": pid, "tier": tier, "seed": seed, "case": idx, "what": text, "artifacts": art,
                              "command": "%s check.py %s --replay %s" % (sys.executable, pid, path)})
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  " + text.replace("\n", "\n  ")[:3000])
        return 1
    if errors:
        print("ERROR in the machinery of %s:\n%s" % (pid, errors[0]))
        return 3
    if missing or evals == 0 or len(keys) < 2 or unconfirmed and not keys:
        print("INCONCLUSIVE %s: %s" % (pid, "; ".join(missing) or "nothing observed"))
        return 2
    print("held: %s on %d executions (%d distinct), %d runs of the tool, %.1f s" % (pid, evals, len(keys), stats["cli_runs"], wall))
    for u in unconfirmed[:3]:
        print("note: not reproduced outside of fork mode: case %d %s" % (u[0], u[1][:300]))
    return 0
