"""developer tool: confirm a planted bug in a scratch copy and keep it under
/verif/seeded.  usage: seed.py SPEC.py [id...]; the spec defines
SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, shutil, subprocess, sys, importlib.util

VERIF, REPO, SCR = "/verif", "/repo", "/tmp/seedscratch"
PY = "/opt/venv/bin/python"
BASE = "f7f1754"


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)


def tests(cwd):
    r = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 %s -m pytest -q -p no:cacheprovider --disable-warnings "
           "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seed.xml; "
           "%s /opt/vp/results.py /tmp/seed.json junit:/tmp/seed.xml" % (PY, PY), cwd)
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(b - set(json.load(open("/tmp/seed.json"))["passed"]))


def check(prop):
    r = sh("SA_REPO=%s timeout 900 python3 check.py %s" % (SCR, prop), VERIF, 1000)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "rule " in l][:4]


def one(s, run=True):
    d = os.path.join(VERIF, "seeded", s["id"])
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", REPO, SCR], check=True)
    orig = {}
    for f, old, new in s["edits"]:
        p = os.path.join(SCR, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    patch = sh("git diff", SCR).stdout
    for l in patch.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            f0 = sh("git grep -nF -e %s %s -- pycaption" % (__import__("shlex").quote(l[1:]), BASE), REPO).stdout
            if not f0:
                print("   NOTE line not original:", l)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    miss = tests(SCR)
    bad = sh("bash %s/demo.sh" % d, SCR)
    good = sh("bash %s/demo.sh" % d, REPO)
    ok = not miss and bad.returncode != 0 and good.returncode == 0
    print(s["id"], "OK" if ok else "REJECTED", "missing=%s bad=%d good=%d %s" % (
        miss[:3], bad.returncode, good.returncode, (good.stderr if good.returncode else bad.stderr).strip().split("\n")[-1][:150]))
    shutil.rmtree(SCR)
    if not ok:
        shutil.rmtree(d)
        return False
    if run:
        recheck(s["id"])
    return True


def recheck(i):
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if not os.path.exists("%s/sa/checks/%s.py" % (VERIF, prop.lower())):
        return print("   (no check yet)")
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", REPO, SCR], check=True)
    r = subprocess.run(["git", "-C", SCR, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        return print(i, "PATCH DOES NOT APPLY", r.stderr[:200])
    rc, v = check(prop)
    shutil.rmtree(SCR)
    print("  ", i, prop, "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, (v[1][:200] if len(v) > 1 else ""))


if __name__ == "__main__":
    assert not sh("git status --porcelain", REPO).stdout.strip(), "repo dirty"
    if sys.argv[1] == "recheck":
        for i in sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded")):
            recheck(i)
    else:
        sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
                one(s)
