#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE <<< JSON {"edits":[[old,new],...],"needs":..,"breaks":..,"demo": python source}
Creates /verif/seeded/ID from an edit of /repo's HEAD, after confirming it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def worktree():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + d, shell=True)
    sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", d)
    return d


def tests(d):
    """the stable tests, in the copy"""
    r = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --timeout=300 "
           "--continue-on-collection-errors --doctest-modules --ignore=coral/recipes.py tests coral 2>&1 | tail -3", d)
    return r.stdout


def demo(sid, d):
    t = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
    src = os.path.join(V, "seeded", sid)
    for f in os.listdir(src):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(src, f), t)
    r = sh("bash %s/demo.sh" % t, d, timeout=300)
    shutil.rmtree(t)
    return r


def confirm(sid, verbose=True):
    d = worktree()
    try:
        r0 = demo(sid, d)
        a = sh("git apply %s" % os.path.join(V, "seeded", sid, "patch.diff"), d)
        if a.returncode:
            return "patch does not apply: " + a.stdout
        r1 = demo(sid, d)
        if r0.returncode != 0:
            return "demo fails on the unchanged tree: " + r0.stdout[-600:]
        if r1.returncode == 0:
            return "demo passes with the patch"
        return None
    finally:
        shutil.rmtree(d)


def check(sid, seed=1, tier="quick"):
    """run the property's check on a patched copy"""
    meta = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
    d = worktree()
    try:
        sh("git apply %s" % os.path.join(V, "seeded", sid, "patch.diff"), d)
        r = sh("VERIF_REPO=%s VERIF_SEED=%d VERIF_TIER=%s python3 run_check.py %s" % (d, seed, tier, meta["property"]), V)
        return r.returncode, r.stdout[-1500:]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "check":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            c = confirm(i)
            rc, out = check(i) if c is None else (None, "")
            print("%-28s %s" % (i, c or ("caught" if rc == 1 else "MISSED rc=%s %s" % (rc, out[-300:]))), flush=True)
    else:
        sid, prop, path = sys.argv[1:4]
        spec = eval(sys.stdin.read())
        dst = os.path.join(V, "seeded", sid)
        os.makedirs(dst, exist_ok=True)
        d = worktree()
        for old, new in spec["edits"]:
            f = path
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", d).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        open(os.path.join(dst, "demo.py"), "w").write(
            "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + spec["demo"].strip() + "\n")
        open(os.path.join(dst, "demo.sh"), "w").write(
            '#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        t = tests(d)
        shutil.rmtree(d)
        c = "tests: " + t if "passed" not in t or "failed" in t.lower() else confirm(sid)
        if c:
            print(sid, "REJECTED:", c)
        else:
            rc, out = check(sid)
            print(sid, "caught" if rc == 1 else "MISSED rc=%s %s" % (rc, out[-800:]))
