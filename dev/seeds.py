"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from the table in dev/seed_table.py.
usage: python3 dev/seeds.py [ID...]   with --check: builds, tests, demo and property check in a scratch copy"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("t", os.path.join(HERE, "seed_table.py"))
T = importlib.util.module_from_spec(spec)
spec.loader.exec_module(T)

SH = """#!/bin/bash
# run in /repo after the build; exit 0: the property holds on the inputs tried
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 -DTBB_SUPPRESS_DEPRECATED_MESSAGES -I src -I /usr/include/eigen3 %s "$here/demo.cpp" %s -o "$t/demo" %s || exit 2
cd "$t"
timeout 200 ./demo
"""


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="fgseed_")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/w"], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, "w", f)
            x = open(p).read()
            assert x.count(old) >= 1, (s["id"], f, old)
            x = x.replace(old, new, 1)
            open(p, "w").write(x)
        diff = subprocess.run(["git", "-C", w + "/w", "diff"], capture_output=True, text=True, check=True).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/w"])
        shutil.rmtree(w, ignore_errors=True)
    if "sh" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
    else:
        inc = "-I \"$here/scalfmm\"" if s.get("fmm") else ""
        open(os.path.join(d, "demo.sh"), "w").write(SH % (inc, " ".join("src/" + x for x in s.get("src", [])), s.get("libs", "-ltbb")))
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
    for name, txt in s.get("files", {}).items():
        open(os.path.join(d, name), "w").write(txt)
    if s.get("fmm"):
        shutil.copytree(os.path.join(V, "stubs/scalfmm"), os.path.join(d, "scalfmm"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def check(s):
    """in /repo itself: apply, demo, check, undo"""
    d = os.path.join(V, "seeded", s["id"])

    def sh(cmd, **k):
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd="/repo", **k)
    r0 = sh("bash %s/demo.sh" % d)
    assert sh("git apply %s/patch.diff" % d).returncode == 0
    try:
        r1 = sh("bash %s/demo.sh" % d)
        r2 = subprocess.run([sys.executable, "-m", "sa.run", s["property"]], capture_output=True, text=True, cwd=V, env=dict(os.environ, FG_EVDIR="/tmp"))
        rb = sh("bash /opt/vp/build.sh") if "--build" in sys.argv else None
        tests = ""
        if rb is not None:
            if rb.returncode:
                tests = "BUILD FAILS " + rb.stdout[-400:]
            else:
                sh("bash /opt/vp/test.sh /tmp/fgt.json")
                got = json.load(open("/tmp/fgt.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                names = base.get("passed") or base.get("stable") or base
                lost = [n for n in names if n not in got["passed"]]
                tests = "tests lost: %s" % lost
    finally:
        sh("git checkout -- .")
        if rb is not None if "rb" in dir() else False:
            pass
    print(s["id"], "demo clean", r0.returncode, "bug", r1.returncode, "check", r2.returncode, tests, (r2.stdout.strip().splitlines() or [r2.stderr[-300:]])[0][:160])
    if r0.returncode or not r1.returncode:
        print("  ", r0.stdout[-300:], r0.stderr[-600:], r1.stdout[-300:])


ids = [a for a in sys.argv[1:] if not a.startswith("-")]
for s in T.SEEDS:
    if not ids or s["id"] in ids:
        make(s)
        if "--check" in sys.argv:
            check(s)
