"""Confirm the planted bugs in seeded/ and show which checks see them.

    plant.py [ID ...]           for each seeded/<ID>: the patch applies to a
                                scratch clone of /repo, builds, passes the
                                stable tests, the demonstration tells the two
                                trees apart, and the property's check alarms
    plant.py --all-checks ID    the same, with every check of MANIFEST.json

Works in /tmp/plant.<pid>, which it removes.  Development aid: no check uses
it.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           PYTHONPYCACHEPREFIX="/nonexistent", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MPLCONFIGDIR="/tmp/verif-mpl", VERIF_SEED="1", VERIF_TIER="quick")


def run(cmd, cwd, timeout=900, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), timeout=timeout,
                          capture_output=True, text=True)


def tests_pass(tree):
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA",
             "test/"], tree)
    passed = set()
    for line in r.stdout.splitlines():
        if line.startswith("PASSED "):
            f, t = line[7:].split("::", 1)
            passed.add(f[:-3].replace("/", ".") + "::" + t)
    return STABLE - passed


def main():
    args = sys.argv[1:]
    every = "--all-checks" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(
        os.listdir(os.path.join(VERIF, "seeded")))
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    checks = [c["property"] if "property" in c else c["id"]
              for c in man["checks"]]
    work = "/tmp/plant.%d" % os.getpid()
    os.mkdir(work)
    try:
        for i in ids:
            one(i, os.path.join(VERIF, "seeded", i), work, checks, every)
    finally:
        shutil.rmtree(work)


def one(i, d, work, checks, every):
    meta = json.load(open(os.path.join(d, "meta.json")))
    tree = os.path.join(work, i)
    demo = os.path.join(work, i + ".demo")
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns(
        "*.diff", "*.patch", "meta.json"))
    bad = []
    r = run(["bash", os.path.join(demo, "demo.sh")], tree, 300)
    if r.returncode:
        bad.append("demo fails on the unchanged tree: "
                   + (r.stdout + r.stderr)[-300:])
    a = run(["git", "apply", os.path.join(d, "patch.diff")], tree)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stderr)
        return
    lost = tests_pass(tree)
    if lost:
        bad.append("tests lost: %s" % sorted(lost))
    r = run(["bash", os.path.join(demo, "demo.sh")], tree, 300)
    if not r.returncode:
        bad.append("demo passes with the patch")
    found = []
    for c in (checks if every else [meta["property"]]):
        r = run([PY, "run_check.py", c], VERIF, VERIF_REPO=tree)
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        found.append("%s=%s" % (c, "caught" if r.returncode == 1 and v else
                                "missed" if r.returncode == 0 else
                                "exit %d" % r.returncode))
        if r.returncode not in (0, 1):
            print(r.stdout[-500:], r.stderr[-1500:])
    print(i, "OK" if not bad else "BAD " + "; ".join(bad), *found, flush=True)
    subprocess.run(["rm", "-rf", tree, demo])


if __name__ == "__main__":
    main()
