#!/usr/bin/env python3
"""Development tool: tries planted bugs in a scratch copy of /repo.

  seedtest.py ID [--tests] [--checks P1,P2 | --no-checks]
builds the copy with the patch, runs demo.sh on both trees, the stable tests (--tests) and
the registered check of the bug's property (or --checks) against the copy."""
import argparse, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--tests", action="store_true")
ap.add_argument("--checks")
ap.add_argument("--no-checks", action="store_true")
ap.add_argument("--no-demo", action="store_true")
a = ap.parse_args()
SR = os.environ.get("SEED_SR", "/tmp/sr")
SB = SR + "-opt"


def sh(cmd, cwd=None, timeout=1500, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                       stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("utf-8", "replace")


if not os.path.isdir(SR):
    sh("cp -a /repo %s" % SR)
    os.makedirs(SB, exist_ok=True)
head = sh("git -C /repo rev-parse HEAD")[1].strip()
if sh("git -C %s rev-parse HEAD" % SR)[1].strip() != head:
    sh("rm -rf %s && cp -a /repo %s" % (SR, SR))
os.makedirs(SB, exist_ok=True)
for f in os.listdir("/opt/vp"):
    if os.path.isfile("/opt/vp/" + f):
        t = open("/opt/vp/" + f, "rb").read().replace(b"/opt/vp", SB.encode()).replace(b"/repo", SR.encode())
        open(SB + "/" + f, "wb").write(t)


def build():
    rc, o = sh("bash %s/build.sh" % SB)
    return rc, o


ok = True
for sid in a.ids:
    d = V + "/seeded/" + sid
    sh("git -C %s checkout -- ." % SR)
    rc, o = sh("git apply --check %s/patch.diff" % d, cwd=SR)
    if rc:
        print(sid, "PATCH DOES NOT APPLY", o[-300:]); ok = False; continue
    meta = json.load(open(d + "/meta.json"))
    res = {}
    if not a.no_demo:
        # unchanged tree: /repo itself is built from HEAD
        rc, o = build()
        if rc:
            print("unpatched build failed", o[-500:]); sys.exit(1)
        shutil.rmtree("/tmp/demo-x", ignore_errors=True)
        shutil.copytree(d, "/tmp/demo-x")
        t = time.time()
        rc, o = sh("bash /tmp/demo-x/demo.sh", cwd=SR, timeout=300)
        res["demo_clean"] = rc
        if rc:
            print("   demo on clean:", o[-400:])
    sh("git apply %s/patch.diff" % d, cwd=SR)
    rc, o = build()
    res["build"] = rc
    if rc:
        print(sid, "BUILD FAILS", o[-800:]); ok = False
        sh("git -C %s checkout -- ." % SR); continue
    if not a.no_demo:
        rc, o = sh("bash /tmp/demo-x/demo.sh", cwd=SR, timeout=300)
        res["demo_bug"] = rc
        shutil.rmtree("/tmp/demo-x", ignore_errors=True)
    if a.tests:
        lines = SB + "/results.txt"
        if os.path.exists(lines):
            os.unlink(lines)
        sh("python3 %s/run_tests.py %s" % (SB, lines), env={"PATH": SR + "/bin:" + os.environ["PATH"], "HOME": "/root", "LANG": "C.UTF-8", "USER": "root", "LOGNAME": "root"})
        got = {l.split()[1]: l.split()[0] for l in open(lines) if l.strip()}
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [t for t in stable if got.get(t) != "PASS"]
        res["tests_failed"] = bad
    if not a.no_checks:
        for p in (a.checks.split(",") if a.checks else [meta["property"]]):
            t = time.time()
            rc, o = sh("./check %s" % p, cwd=V, env={"VK_REPO": SR, "VK_BUILD": SR + "-b", "VK_NOEV": "1"})
            v = [l for l in o.split("\n") if l.startswith("VIOLATION property=%s " % p)]
            res["check " + p] = "CAUGHT" if rc == 1 and v else "missed rc=%s %s" % (rc, o[-200:] if rc not in (0, 1) else "")
            res["wall " + p] = round(time.time() - t, 1)
    print(sid, json.dumps(res), flush=True)
    sh("git -C %s checkout -- ." % SR)
