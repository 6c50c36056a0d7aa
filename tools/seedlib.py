"""Helpers to (re)create seeded/<id>/ and to try a seed against /repo."""
import json, os, shutil, subprocess, sys, time
V = "/verif"
R = "/repo"
PS = "programs/asset/program/src/"
TS = "programs/asset/types/src/"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def make(id, prop, edits, main, needs, breaks):
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
    finally:
        clean()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f in ("demo.sh", "kit.rs"):
        shutil.copy(os.path.join(V, "tools/demo", f), d)
    open(os.path.join(d, "main.rs"), "w").write("mod kit;\nuse kit::*;\n" + main.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)


def attempt(id, tests=True, check=True, demo=True):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    res = dict(id=id, prop=prop)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    if demo:
        res["demo_clean"] = sh("bash %s/demo.sh" % d, cwd=R).returncode
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            res["apply"] = r.stdout
            return res
        if tests:
            r = sh("bash /opt/vp/build.sh")
            res["build"] = r.returncode
            if r.returncode:
                res["log"] = r.stdout[-1500:]
                return res
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            j = json.load(open("/tmp/seedtest.json"))
            res["tests"] = "%d/%d" % (len(j["passed"]), len(j["failed"]))
        if demo:
            r = sh("bash %s/demo.sh" % d, cwd=R)
            res["demo_bug"] = r.returncode
            res["demo_out"] = r.stdout[-300:]
        if check:
            t = time.time()
            r = sh("python3 bin/check.py %s" % prop, cwd=V)
            res["check"] = r.returncode
            res["wall"] = round(time.time() - t)
            res["check_out"] = [l for l in r.stdout.splitlines() if "viol" in l.lower() or "INCONC" in l or "UNCONF" in l][-6:]
    finally:
        clean()
    return res
