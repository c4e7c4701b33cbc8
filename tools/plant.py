"""
Makes and judges planted bugs.

  plant.py make [ID...]    (re)writes seeded/ID from tools/plants.py and confirms it in a scratch copy
  plant.py check [ID...]   runs the property's check on a scratch copy with the patch applied

A definition is a call plant(id, property, needs, breaks, [(file, old, new)...], demo) in plants.py.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
PLANTS = {}
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 120 /opt/venv/bin/python "$D/demo.py"
'''


def plant(pid, prop, needs, breaks, edits, demo):
    PLANTS[pid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    shutil.rmtree(d)
    sh(["git", "clone", "-q", REPO, d])
    return d


def scripts(wt):
    out = []
    for n in ("build.sh", "test.sh"):
        with open("/opt/vp/" + n) as f:
            text = f.read().replace("/repo", wt)
        path = os.path.join(wt, ".vp-" + n)
        with open(path, "w") as f:
            f.write(text)
        out.append(path)
    return out


def tests_pass(wt):
    build, test = scripts(wt)
    env = dict(os.environ, PYTHONPATH=wt)
    r = sh(["bash", build], env=env)
    if r.returncode:
        return "build: " + r.stdout[-800:]
    out = os.path.join(wt, ".vp-out.json")
    r = sh(["bash", test, out], env=env)
    with open("/opt/vp/BASELINE.json") as f:
        base = json.load(f)
    with open(out) as f:
        res = json.load(f)
    need = base["stable"] if "stable" in base else base["passed"]
    got = set(res["passed"])
    missing = [t for t in need if t not in got]
    return "failing tests: %s" % missing if missing else None


def demo(wt, d):
    scratch = tempfile.mkdtemp(prefix="demo-")
    try:
        for n in os.listdir(d):
            if n not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(d, n), scratch)
        r = sh(["bash", os.path.join(scratch, "demo.sh")], cwd=wt)
        return r.returncode, r.stdout[-400:]
    finally:
        shutil.rmtree(scratch)


def make(pid):
    p = PLANTS[pid]
    d = os.path.join(ROOT, "seeded", pid)
    wt = copy()
    try:
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(p["demo"].lstrip("\n"))
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, f, indent=1)
            f.write("\n")
        code, out = demo(wt, d)
        if code:
            return "%s: demo fails on the unchanged tree: %s" % (pid, out)
        for name, old, new in p["edits"]:
            path = os.path.join(wt, name)
            with open(path) as f:
                text = f.read()
            if text.count(old) != 1:
                return "%s: %d occurrences of %r" % (pid, text.count(old), old)
            with open(path, "w") as f:
                f.write(text.replace(old, new))
        patch = sh(["git", "diff"], cwd=wt).stdout
        # Only original lines may be changed.
        base = sh("git rev-list --max-parents=0 HEAD", cwd=wt).stdout.strip()
        for name in set(e[0] for e in p["edits"]):
            orig = sh(["git", "show", base + ":" + name], cwd=wt).stdout.splitlines()
            removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
            for l in removed:
                if l.strip() and l not in orig:
                    print("%s: removed line is not original: %r" % (pid, l))
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(patch)
        code, out = demo(wt, d)
        if code == 0:
            return "%s: demo passes with the change" % pid
        bad = tests_pass(wt)
        if bad:
            return "%s: %s" % (pid, bad)
        return "%s: ok (demo: %s)" % (pid, out.strip().splitlines()[-1] if out.strip() else "")
    finally:
        shutil.rmtree(wt)


def check(pid, tier="quick", only=None):
    d = os.path.join(ROOT, "seeded", pid)
    wt = copy()
    try:
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=wt)
        if r.returncode:
            return "%s: patch does not apply: %s" % (pid, r.stdout)
        with open(os.path.join(d, "meta.json")) as f:
            prop = only or json.load(f)["property"]
        env = dict(os.environ, VERIF_REPO=wt)
        r = sh([os.path.join(ROOT, "mc", "run.sh"), prop.lower(), "--tier", tier], env=env)
        hit = any(l.startswith("VIOLATION property=" + prop) for l in r.stdout.splitlines())
        return "%s: %s by %s (exit %d)" % (pid, "CAUGHT" if hit and r.returncode == 1 else "MISSED", prop, r.returncode)
    finally:
        shutil.rmtree(wt)


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["plant"] = sys.modules["__main__"]
    import plants  # noqa
    cmd = sys.argv[1]
    ids = sys.argv[2:]
    if cmd == "make":
        ids = ids or list(PLANTS)
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(make, ids):
                print(r, flush=True)
    elif cmd == "check":
        for i in ids or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
            r = check(i)
            print(r, flush=True)
            path = os.path.join(ROOT, "mc", "caught.json")
            caught = json.load(open(path)) if os.path.exists(path) else {}
            caught[i] = r.split(": ", 1)[1].split(" (")[0] if ": " in r else r
            with open(path, "w") as f:
                json.dump(caught, f, indent=1, sort_keys=True)
                f.write("\n")
    elif cmd == "cross":
        for i in ids:
            for c in range(1, 27):
                if os.path.exists(os.path.join(ROOT, "mc", "c%02d.py" % c)):
                    print(check(i, only="C%02d" % c), flush=True)


main()
