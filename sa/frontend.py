"""Runs the clang frontend over every translation unit of /repo/src and loads the resolved program."""
import concurrent.futures as cf
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FG_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """the machinery cannot decide: an anchor vanished, a unit does not parse, ..."""


def gen_config(dst, repo, opts):
    """config.h from config.h.in, as cmake's configure_file would."""
    txt = open(os.path.join(repo, "src", "config.h.in"), encoding="utf-8").read()
    txt = txt.replace("@FEELLGOOD_VERSION@", "analysed")
    txt = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m.group(1), 1 if opts.get(m.group(1)) else 0), txt)
    with open(dst, "w", encoding="utf-8") as f:
        f.write(txt)


def flags(repo):
    return ["-std=c++17", "-DNDEBUG", "-DTBB_SUPPRESS_DEPRECATED_MESSAGES", "-I" + repo, "-I" + os.path.join(repo, "src"),
            "-I" + os.path.join(VERIF, "stubs/scalfmm"), "-I" + os.path.join(VERIF, "stubs/omp"),
            "-resource-dir", LLVM + "/lib/clang/18", "-w", "-ferror-limit=20"]


def build_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "frontend/build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("the frontend does not build: " + r.stderr[-2000:])
    return os.path.join(VERIF, ".build/fgfront")


def run_frontend(repo=REPO, opts=None, tus=None):
    tool = build_tool()
    tmp = tempfile.mkdtemp(prefix="fgsa_")
    try:
        cfg = os.path.join(tmp, "config.h")
        gen_config(cfg, repo, opts or {})
        src = os.path.join(repo, "src")
        all_tus = sorted(f for f in os.listdir(src) if f.endswith(".cpp"))
        if tus is not None:
            all_tus = [f for f in all_tus if f in tus]

        inst = os.path.join(VERIF, "stubs/inst")
        extra = sorted(os.listdir(inst)) if tus is None else []

        def one(f):
            out = os.path.join(tmp, f + ".json")
            cmd = [tool, os.path.join(inst if f in extra else src, f), "--root=" + src, "-o", out, "--map=" + os.path.join(src, "config.h") + "=" + cfg]
            cmd += ["--flag=" + x for x in flags(repo)]
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=src)
            if r.returncode or not os.path.exists(out):
                if f in extra:
                    return None  # an unused template was removed or renamed
                raise AnalysisBroken("%s does not parse:\n%s" % (f, r.stderr[-3000:]))
            with open(out, encoding="utf-8") as h:
                return f, json.load(h)

        with cf.ThreadPoolExecutor(8) as ex:
            res = [x for x in ex.map(one, all_tus + extra) if x]
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Type:
    __slots__ = ("s", "c", "ref", "ptr", "const", "pconst", "b", "rec", "recid", "targs", "enum", "arr", "w", "u")

    def __init__(self, d):
        self.s = d["s"]
        self.c = d.get("c", d["s"])
        for k in ("ref", "ptr", "const", "pconst", "b", "rec", "recid", "targs", "enum", "arr", "w", "u"):
            setattr(self, k, d.get(k))

    def __repr__(self):
        return self.s


class Fn:
    def __init__(self, d):
        self.id = d["id"]
        self.name = d["n"]
        self.sname = d["sn"]
        self.repo = d["repo"]
        self.implicit = d.get("implicit", False)
        self.loc = d.get("l")
        self.ret = d["ret"]
        self.noreturn = d["noreturn"]
        self.method = d.get("method", False)
        self.cls = d.get("cls")
        self.clsn = d.get("clsn")
        self.const = d.get("const", False)
        self.static = d.get("static", False)
        self.is_lambda = d.get("lambda", False)
        self.ctor = d.get("ctor", False)
        self.dtor = d.get("dtor", False)
        self.virtual = d.get("virtual", False)
        self.overrides = d.get("overrides", [])
        self.defaulted = d.get("defaulted", False)
        self.targs = d.get("targs")
        self.params = d["params"]
        self.inits = d.get("inits", [])
        self.body = d.get("body")

    def __repr__(self):
        return "<Fn %s>" % self.name


class Program:
    def __init__(self):
        self.fns = {}
        self.by_name = {}
        self.globals = {}
        self.records = {}
        self.enums = {}
        self.tus = []
        self.types = []

    # -- lookup helpers -------------------------------------------------
    def find(self, name, with_body=True):
        return [f for f in self.by_name.get(name, []) if f.body is not None or not with_body]

    def one(self, name):
        r = self.find(name)
        if len(r) != 1:
            raise AnalysisBroken("anchor function %s: %d definitions found" % (name, len(r)))
        return r[0]

    def where(self, node):
        l = node.get("l") if isinstance(node, dict) else node
        if not l:
            return "?"
        return "%s:%d" % (l[0], l[1])


def src_digest(repo, opts, tus):
    h = hashlib.sha256()
    h.update(json.dumps([repo, opts or {}, sorted(tus) if tus else None]).encode())
    for base in (os.path.join(repo, "src"), os.path.join(VERIF, "stubs"), os.path.join(VERIF, "frontend")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            if "CMakeFiles" in d:
                continue
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".in", ".sh", ".yml")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()


def load(repo=REPO, opts=None, tus=None):
    """the program of the current working tree; a parse is reused only for byte-identical sources"""
    key = src_digest(repo, opts, tus)
    cdir = os.path.join(VERIF, ".build", "cache")
    cpath = os.path.join(cdir, key[:32] + ".pickle")
    if os.path.exists(cpath):
        try:
            with open(cpath, "rb") as h:
                return pickle.load(h)
        except Exception:
            pass
    prog = load_fresh(repo, opts, tus)
    try:
        os.makedirs(cdir, exist_ok=True)
        old = sorted((os.path.join(cdir, f) for f in os.listdir(cdir)), key=os.path.getmtime)
        for f in old[:-6]:
            os.remove(f)
        tmp = cpath + ".%d" % os.getpid()
        with open(tmp, "wb") as h:
            pickle.dump(prog, h, protocol=4)
        os.replace(tmp, cpath)
    except OSError:
        pass
    return prog


def load_fresh(repo=REPO, opts=None, tus=None):
    prog = Program()
    prog.repo = repo
    typemap = {}
    for tu, d in run_frontend(repo, opts, tus):
        prog.tus.append(tu)
        tt = []
        for t in d["types"]:
            key = (t["s"], t.get("c"))
            if key not in typemap:
                typemap[key] = Type(t)
            tt.append(typemap[key])
        files = [os.path.relpath(f, repo) if f.startswith(repo + "/") else f for f in d["files"]]
        pre = tu + "/"

        def fix(x):
            # iterative rewrite: types, locations, local ids
            stack = [x]
            while stack:
                n = stack.pop()
                if isinstance(n, dict):
                    if "t" in n and isinstance(n["t"], int):
                        n["t"] = tt[n["t"]]
                    if "ret" in n and isinstance(n["ret"], int):
                        n["ret"] = tt[n["ret"]]
                    l = n.get("l")
                    if l is not None and isinstance(l[0], int):
                        n["l"] = (files[l[0]], l[1], l[2])
                    dd = n.get("d")
                    if isinstance(dd, str):
                        if not dd:
                            n["d"] = "?"
                        elif dd[0] == "v" and ":" in dd and dd[1].isdigit():
                            n["d"] = pre + dd
                        elif dd.startswith("lambda#"):
                            n["d"] = pre + dd
                    fnid = n.get("fn")
                    if isinstance(fnid, str) and fnid.startswith("lambda#"):
                        n["fn"] = pre + fnid
                    if "bind" in n:
                        n["bind"] = [pre + b for b in n["bind"]]
                    i = n.get("id")
                    if isinstance(i, str) and i.startswith("lambda#"):
                        n["id"] = pre + i
                    for v in n.values():
                        if isinstance(v, (dict, list)):
                            stack.append(v)
                elif isinstance(n, list):
                    for v in n:
                        if isinstance(v, (dict, list)):
                            stack.append(v)

        for sec in ("functions", "globals", "records"):
            fix(d[sec])
        for fd in d["functions"]:
            f = Fn(fd)
            f.tu = tu
            old = prog.fns.get(f.id)
            if old is None or (old.body is None and f.body is not None):
                if old is not None:
                    prog.by_name[old.name].remove(old)
                prog.fns[f.id] = f
                prog.by_name.setdefault(f.name, []).append(f)
        for g in d["globals"]:
            old = prog.globals.get(g["d"])
            if old is None or ("init" not in old and "init" in g):
                prog.globals[g["d"]] = g
        for r in d["records"]:
            old = prog.records.get(r["id"])
            if old is None or ("fields" not in old and "fields" in r):
                prog.records[r["id"]] = r
        for e in d["enums"]:
            prog.enums[e["n"]] = e
    # header functions are kept once; drop the copies of their lambdas that no kept function refers to
    used = set()
    roots = [f for f in prog.fns.values() if not f.is_lambda]
    stack = [x for f in roots for x in (f.body, f.inits)]
    stack += [g.get("init") for g in prog.globals.values()] + [r.get("fields") for r in prog.records.values()]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            i = n.get("fn")
            if isinstance(i, str) and "lambda#" in i and i not in used and i in prog.fns:
                used.add(i)
                stack.append(prog.fns[i].body)
            stack.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            stack.extend(v for v in n if isinstance(v, (dict, list)))
    for i in [i for i, f in prog.fns.items() if f.is_lambda and i not in used]:
        f = prog.fns.pop(i)
        prog.by_name[f.name].remove(f)
    # resolve overriders
    prog.overriders = {}
    for f in prog.fns.values():
        for o in f.overrides:
            prog.overriders.setdefault(o, []).append(f.id)
    return prog


if __name__ == "__main__":
    from sa.frontend import load
    import time
    t = time.time()
    p = load()
    print(time.time() - t, len(p.tus), len(p.fns), len([f for f in p.fns.values() if f.body is not None]), len(p.records), len(p.globals))
    for f in sorted((f for f in p.fns.values() if f.body is not None), key=lambda f: f.loc):
        print(f.loc, f.name, f.targs or "", len(json.dumps(f.body, default=str)))
