"""Development self-test: applies small edits to a scratch copy of /repo/src and tells whether the check fires / stays silent.
usage: python3 selftest/run.py [ID ...]      edits are in selftest/<id>.py: MUT = [(file, old, new)...], OK = [...]"""
import concurrent.futures as cf
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"


def one(job):
    pid, kind, i, edits = job
    d = tempfile.mkdtemp(prefix="fgst_")
    try:
        for sub in ("src", "tools", "python-modules", "examples", "README.md", "ci-tests"):
            s = os.path.join(REPO, sub)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, sub), ignore=shutil.ignore_patterns("CMakeFiles", "*.o", "*.msh"))
            elif os.path.exists(s):
                shutil.copy(s, d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p, encoding="utf-8").read()
            if old is None:
                t = t + new
            else:
                if t.count(old) < 1:
                    return (pid, kind, i, "EDIT-FAILED", "%s: %r not found" % (f, old))
                t = t.replace(old, new, 1)
            open(p, "w", encoding="utf-8").write(t)
        r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, FG_REPO=d, FG_EVDIR=d), timeout=300)
        want = 1 if kind == "MUT" else 0
        tail = (r.stdout + r.stderr).strip().splitlines()
        msg = (tail[0] if r.returncode == 1 else tail[-1] if tail else "")[:230]
        if r.returncode not in (0, 1):
            msg = " / ".join(tail[-6:])[:700]
        return (pid, kind, i, "good" if r.returncode == want else "BAD rc=%d" % r.returncode, msg)
    except subprocess.TimeoutExpired:
        return (pid, kind, i, "BAD timeout", "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ids = [a.lower() for a in sys.argv[1:] if not a.startswith("-")] or sorted(f[:-3] for f in os.listdir(HERE) if f != "run.py" and f.endswith(".py"))
    jobs = []
    for pid in ids:
        spec = importlib.util.spec_from_file_location(pid, os.path.join(HERE, pid + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for kind in ("MUT", "OK"):
            for i, e in enumerate(getattr(m, kind)):
                if os.environ.get("ONLY") and kind + str(i) not in os.environ["ONLY"].split(","):
                    continue
                jobs.append((pid.upper(), kind, i, [e] if isinstance(e, tuple) else e))
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for r in ex.map(one, jobs):
            if "-v" in sys.argv or r[3] != "good":
                print(*r)
            sys.stdout.flush()
    print("%d edits" % len(jobs))


if __name__ == "__main__":
    main()
