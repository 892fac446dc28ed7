#!/usr/bin/env python3
"""seed.py ID... : verifies planted bugs in scratch copies of /repo.

For each: the patch applies, the copy builds, the stable tests pass, demo.sh
exits 0 without and nonzero with the patch, and the check of the property
reports a violation (which is recorded as 'caught', not required)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=900, **env):
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", timeout=t)
    return p.returncode, p.stdout


def one(sid):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    top = tempfile.mkdtemp(prefix="seed-" + sid + "-", dir="/tmp")
    try:
        repo = top + "/repo"
        sh("git clone -q /repo %s" % repo, "/tmp")
        demo = top + "/demo"
        shutil.copytree(d, demo)
        for n in ("build", "test"):
            s = open("/opt/vp/%s.sh" % n).read().replace("REPO=/repo", "REPO=" + repo)
            open(top + "/%s.sh" % n, "w").write(s)
        res = []
        rc, out = sh("bash %s/build.sh" % top, repo)
        if rc:
            return sid, "base build fails", out[-2000:]
        rc, out = sh("bash %s/demo.sh" % demo, repo, 300)
        if rc:
            return sid, "demo fails on the unchanged tree", out[-3000:]
        # The changed lines are lines of the original repository.
        cur = None
        for l in open(d + "/patch.diff", newline="", errors="replace").read().split("\n"):
            if l.startswith("--- "):
                base = sh("git show 90520d5:%s" % l[6:].strip(), repo)[1].replace("\r", "").split("\n")
            elif l.startswith("-") and l[1:].strip() and l[1:].rstrip("\r") not in base:
                return sid, "changes a line which is not original", l
        rc, out = sh("git apply %s/patch.diff" % d, repo)
        if rc:
            return sid, "patch does not apply", out
        rc, out = sh("bash %s/build.sh" % top, repo)
        if rc:
            return sid, "does not build", out[-3000:]
        rc, out = sh("bash %s/test.sh %s/o.json" % (top, top), repo)
        o = json.load(open(top + "/o.json"))
        if len(o["passed"]) != 5:
            return sid, "stable tests fail", out[-2000:]
        rc, out = sh("bash %s/demo.sh" % demo, repo, 300)
        if rc == 0:
            return sid, "demo passes with the patch", out[-2000:]
        res.append(out.strip().split("\n")[-1][:160])
        if "--nocheck" in sys.argv:
            return sid, "valid", "; ".join(res)
        caught = []
        rc, out = sh("python3 %s/check.py %s quick" % (V, meta["property"]), V, 1200, BCL_REPO=repo)
        ok = rc == 1 and "VIOLATION property=" + meta["property"] in out
        fail = [l for l in out.split("\n") if "VIOLATION" in l or "fail" in l.lower()]
        return sid, "caught" if ok else "MISSED rc=%d" % rc, "demo: " + res[0] + " | check: " + "\n".join(fail)[:300]
    finally:
        shutil.rmtree(top, ignore_errors=True)


ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(2) as ex:
    for sid, what, info in ex.map(one, ids):
        print("%s: %s: %s" % (sid, what, info), flush=True)
