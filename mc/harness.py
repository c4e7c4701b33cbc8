"""
Shared machinery of all checks.

A check module defines

    PROPERTY   id
    SUITES     {suite name: (generator(tier) -> iterable of cases,
                             run(case, stats) -> None or message)}
    RULE       what a case is
    LEVEL      evidence level

Every case is a JSON value.  All cases of all suites are enumerated by every
worker, and case number i is executed by worker i mod N, so that the explored
space does not depend on the number of workers.  A case is executed on the real
code of /repo and its outcome compared with the model.  A violation is
reproduced by

    mc/run.sh <check> --replay <file>
"""
import array
import hashlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
CASE_SECONDS = 60.0


class CaseTimeout(BaseException):
    pass


class Stats(object):
    """Coverage counters of one worker."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.validated = 0
        self.states = set()
        self.extra = {}

    def state(self, obj):
        h = hashlib.blake2b(repr(obj).encode("utf-8", "replace"), digest_size=8).digest()
        self.states.add(int.from_bytes(h, "big"))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def reexec():
    """Restart under the project's interpreter with a fixed hash seed and without bytecode reuse."""
    if os.environ.get("MC_CHILD") == "1":
        return
    env = dict(os.environ)
    env["MC_CHILD"] = "1"
    env.setdefault("MC_HASHSEED", "0")
    env["PYTHONHASHSEED"] = env["MC_HASHSEED"]
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = os.path.join(tempfile.gettempdir(), "mc-no-pycache-%d" % os.getpid())
    env["PYTHONPATH"] = os.pathsep.join([REPO, os.path.join(ROOT, "mc")])
    exe = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(exe, [exe, "-X", "utf8"] + sys.argv, env)


def setup_import():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import logging
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    import agentspeak
    where = os.path.dirname(os.path.dirname(os.path.abspath(agentspeak.__file__)))
    assert os.path.realpath(where) == os.path.realpath(REPO), where


_SCRATCH = [None]


def scratch():
    """A new directory that is removed when the check ends."""
    if _SCRATCH[0] is None:
        import atexit
        d = tempfile.mkdtemp(prefix="mc-replay-")
        atexit.register(shutil.rmtree, d, True)
        return d
    return tempfile.mkdtemp(dir=_SCRATCH[0])


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(run, case, stats):
    """Runs a case; returns None or a message."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    try:
        return run(case, stats)
    except CaseTimeout:
        return "did not terminate within %g s of CPU time" % CASE_SECONDS
    except MemoryError:
        return "exhausted the memory limit"
    except RecursionError:
        return "unbounded recursion: " + traceback.format_exc(limit=-3)
    except Exception:
        return "unexpected exception: " + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(mod, tier, only, w, n, out_dir, deadline):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = open(os.devnull, "w")
    sys.stdout.flush()
    os.dup2(devnull.fileno(), 1)
    sys.stderr.flush()
    err = open(os.path.join(out_dir, "stderr.%d" % w), "wb")
    os.dup2(err.fileno(), 2)
    stats = Stats()
    violations = []
    findings = [f for f in known_findings() if f.get("property") == mod.PROPERTY]
    fresh = 0
    samples = {}
    sizes = {}
    complete = True
    _SCRATCH[0] = out_dir
    current = open(os.path.join(out_dir, "current.%d" % w), "w")
    stop_file = os.path.join(out_dir, "stop")
    stride = int(os.environ.get("MC_STRIDE", "1"))     # only for trying out changes: part of the cases
    for suite, (gen, run) in mod.SUITES.items():
        if only and suite != only:
            continue
        i = -1
        for i, case in enumerate(gen(tier)):
            if i % n != w:
                continue
            if stride > 1 and (i // n) % stride:
                complete = False
                continue
            if (i // n) % 64 == 0:
                if time.time() > deadline:
                    complete = False
                    break
                if os.path.exists(stop_file):
                    complete = False
                    break
            current.seek(0)
            current.truncate()
            current.write(json.dumps([suite, i]))
            current.flush()
            stats.evaluations += 1
            message = run_one(run, case, stats)
            if i < 3 * n and len(samples.get(suite, ())) < 2:
                samples.setdefault(suite, []).append(case)
            if message is not None:
                violations.append({"suite": suite, "case": case, "message": message})
                if known(findings, json.loads(json.dumps(violations[-1], default=str))) is None:
                    fresh += 1
                if fresh >= 2:
                    open(stop_file, "w").close()
                    complete = False
                    break
        sizes[suite] = i + 1
        if fresh:
            complete = False
            if fresh >= 2:
                break
    with open(os.path.join(out_dir, "states.%d" % w), "wb") as f:
        array.array("Q", stats.states).tofile(f)
    result = {
        "evaluations": stats.evaluations, "transitions": stats.transitions,
        "validated": stats.validated, "extra": stats.extra,
        "violations": violations, "samples": samples, "sizes": sizes, "complete": complete,
    }
    tmp = os.path.join(out_dir, "result.%d.tmp" % w)
    with open(tmp, "w") as f:
        json.dump(result, f)
    os.rename(tmp, os.path.join(out_dir, "result.%d" % w))


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known(findings, violation):
    """The index of the known finding that this is, if any: the same input failing in the same way."""
    for k, f in enumerate(findings):
        if f["suite"] == violation["suite"] and f["case"] == violation["case"] and f["what"] == violation["message"]:
            return k
    return None


def write_replay(prop, check, violation):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(violation, property=prop, check=check, hashseed=os.environ.get("PYTHONHASHSEED"))
    text = json.dumps(body, indent=1, ensure_ascii=True, default=str)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.md5(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text)
    return path


def main(mod):
    reexec()
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--suite")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "0")) or (os.cpu_count() or 1))
    ap.add_argument("--count", action="store_true", help="only count cases")
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = mod.PROPERTY
    check = os.path.splitext(os.path.basename(sys.argv[0]))[0]
    started = time.time()
    sys.setrecursionlimit(3000)

    if args.count:
        for suite, (gen, run) in mod.SUITES.items():
            print(suite, sum(1 for _ in gen(tier)))
        return 0

    setup_error = None
    try:
        setup_import()
        if hasattr(mod, "setup"):
            mod.setup()
    except Exception:
        setup_error = traceback.format_exc()

    if args.replay:
        with open(args.replay) as f:
            v = json.load(f)
        if setup_error:
            print(setup_error)
            return 1
        if v.get("suite") == "<import>":
            print("import works")
            return 0
        message = run_one(mod.SUITES[v["suite"]][1], v["case"], Stats())
        print(json.dumps(v["case"], indent=1))
        print("violates:" if message else "holds", message or "")
        return 1 if message else 0

    violations = []
    out_dir = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    try:
        results = []
        if setup_error:
            violations.append({"suite": "<import>", "case": None,
                               "message": "the package can not be used at all: " + setup_error})
        else:
            budget = 840 if tier == "thorough" else 600
            deadline = started + budget
            n = max(1, args.jobs)
            sys.stdout.flush()
            pids = {}
            for w in range(n):
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        worker(mod, tier, args.suite, w, n, out_dir, deadline)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                        sys.stderr.flush()
                    finally:
                        os._exit(code)
                pids[pid] = w
            hard = deadline + 40
            while pids:
                pid, status = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    if time.time() > hard:
                        for p in pids:
                            os.kill(p, signal.SIGKILL)
                    time.sleep(0.02)
                    continue
                w = pids.pop(pid)
                path = os.path.join(out_dir, "result.%d" % w)
                if os.path.exists(path):
                    with open(path) as f:
                        results.append(json.load(f))
                    continue
                # The worker died: attribute this to the case it was executing.
                try:
                    with open(os.path.join(out_dir, "current.%d" % w)) as f:
                        suite, index = json.load(f)
                    for i, case in enumerate(mod.SUITES[suite][0](tier)):
                        if i == index:
                            break
                except Exception:
                    suite, case = "<worker>", None
                with open(os.path.join(out_dir, "stderr.%d" % w), errors="replace") as f:
                    tail = f.read()[-1500:]
                violations.append({"suite": suite, "case": case,
                                   "message": "the interpreter process died (status %d) %s" % (status, tail)})
        states = set()
        for w in range(max(1, args.jobs)):
            path = os.path.join(out_dir, "states.%d" % w)
            if os.path.exists(path):
                a = array.array("Q")
                with open(path, "rb") as f:
                    a.frombytes(f.read())
                states.update(a)
    finally:
        shutil.rmtree(out_dir, ignore_errors=True)

    samples, sizes, extra = {}, {}, {}
    for r in results:
        violations += r["violations"]
        for k, v in r["samples"].items():
            samples.setdefault(k, [])
            samples[k] = (samples[k] + v)[:2]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        for k, v in r["sizes"].items():
            sizes[k] = max(sizes.get(k, 0), v)

    findings = [f for f in known_findings() if f.get("property") == prop]
    reported = []
    matched = set()
    for v in violations:
        k = known(findings, v)
        if k is None:
            reported.append(v)
        else:
            matched.add(k)
    if hasattr(mod, "check_known"):
        for k, f in enumerate(findings):
            if mod.check_known(f):
                matched.add(k)
    for k in sorted(matched):
        print("KNOWN-FINDING: property=%s %s" % (prop, findings[k]["what"]))

    exhaustive = bool(results) and all(r["complete"] for r in results) and not reported
    coverage = {
        "states": len(states),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "evaluations": sum(r["evaluations"] for r in results),
        "cases_per_suite": sizes,
        "rule": mod.RULE,
        "samples": [{"suite": k, "case": c} for k, v in samples.items() for c in v],
        "exhaustive": exhaustive,
        "counters": extra,
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - started, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for v in reported[:3]:
        path = write_replay(prop, check, v)
        print("suite %s: %s" % (v["suite"], str(v["message"])[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if reported:
        return 1
    print("%s: %d cases, %d states, %d transitions, %s, %.1f s" % (
        prop, coverage["evaluations"], coverage["states"], coverage["transitions"],
        "exhaustive within bounds" if exhaustive else "NOT exhaustive (time budget)", time.time() - started))
    return 0
