"""M01: only valid meshes are accepted.

The mesh constructor is interpreted with an interval domain over a few labelled quantities (number of surface triangles and of tetrahedron faces that
share the same three vertices, whether their regions agree, number of tetrahedrons, element types and dimension given by gmsh).  Every path on which
the constructor goes on must have established the bounds that define a valid mesh; every rejected mesh must reach a failing exit."""
import os
import re
from sa.interp import Engine, V, NOC, Domain, State, gen, strip, idx_key
from sa.lib import loc, fieldname, fn_nodes

INF = float("inf")
CMP = ("==", "!=", "<", "<=", ">", ">=")
FLIP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
NEG = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}


class G(Domain):
    name = "g"

    def __init__(self):
        self.eng = None

    def default(self, eng, path, t):
        return None

    def lit(self, eng, node, c):
        return ("k", c) if isinstance(c, int) and not isinstance(c, bool) else None

    def val(self, v):
        g = v.f.get("g")
        if g and g[0] == "cnt":
            return g
        if v.c is not NOC and isinstance(v.c, (int, bool)):
            return ("k", int(v.c))
        return g if g and g[0] != "k" else None

    def bin(self, eng, op, a, b, node, S):
        x, y = self.val(a), self.val(b)
        if op in CMP and x and y and (x[0] != "k" or y[0] != "k"):
            return ("cmp", op, x, y)
        if op in ("+", "+=", "++", "post++"):
            one = y == ("k", 1) or x == ("k", 1)
            base = x if y == ("k", 1) else y
            if one and base and "isSurf" in S.facts and (base[0] == "k" or base[0] == "cnt"):
                w = "surf" if S.facts["isSurf"] else "tet"
                if S.facts.pop("done", None) or ("iv", ("cnt", w)) not in S.facts:
                    S.facts[("iv", ("cnt", "surf"))] = S.facts[("iv", ("cnt", "tet"))] = (0, 0)
                    S.facts.pop("same", None)
                    S.facts.pop("app", None)
                    S.facts.pop("closed", None)
                if base[0] == "k" and base[1] != S.facts[("iv", ("cnt", w))][0]:
                    return None
                lo, hi = S.facts[("iv", ("cnt", w))]
                S.facts[("iv", ("cnt", w))] = (lo + 1, hi + 1) if lo < 2 else (3, INF)
                S.facts["counted"] = True
                return ("cnt", w)
            if one and base and base[0] == "cnt":
                return None
        return None

    def un(self, eng, op, a, node, S):
        if op == "!":
            x = self.val(a)
            if x and x[0] == "cmp":
                return ("cmp", NEG[x[1]], x[2], x[3])
        return None

    def cast(self, eng, a, node):
        return a.f.get("g")

    def elem(self, eng, v, key):
        return None

    def join(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x and x[0] == "k" and y and y[0] == "cnt":
                return y
            if y and y[0] == "reg" and (x is None or x[0] == "k"):
                return y
        return None


def roles(prog, ctx):
    """the class of topological triangles: constructed from a surface element, holding three vertex numbers, a region and a flag"""
    for c in prog.fns.values():
        if not (c.ctor and c.body is not None and len(c.params) == 1 and (c.params[0]["t"].rec or "") == "Triangle::Tri" and not c.implicit):
            continue
        rec = prog.records.get(c.cls) or next((r for r in prog.records.values() if r["n"] == c.clsn), None)
        if rec is None or rec["n"].startswith("Triangle::"):
            continue
        got = {}

        class E(Engine):
            def on_store(self, path, v, S, node, fr):
                if path[-1][0] == ".":
                    got[path[-1][1]] = v
        E(prog, []).run(c)
        arr = [f["d"] for f in rec["fields"] if re.search(r"array<int, *3", f["t"].c)]
        flag = [f["d"] for f in rec["fields"] if f["t"].c == "bool" and f["d"] in got and got[f["d"]].c is not NOC and bool(got[f["d"]].c)]
        reg = [f["d"] for f in rec["fields"] if f["t"].c == "int" and f["d"] in got and "idxPrm" in str(got[f["d"]].sym)]
        if arr and flag and reg:
            return c, rec, arr[0], flag[0], reg[0]
    return None


def meet(iv, op, k):
    lo, hi = iv
    if op == "==":
        lo, hi = max(lo, k), min(hi, k)
    elif op == "<":
        hi = min(hi, k - 1)
    elif op == "<=":
        hi = min(hi, k)
    elif op == ">":
        lo = max(lo, k + 1)
    elif op == ">=":
        lo = max(lo, k)
    elif op == "!=":
        if lo == k:
            lo = k + 1
        if hi == k:
            hi = k - 1
    return lo, hi


class Eng(Engine):
    algo_split = True

    def __init__(self, prog, ctx, rl, meshrec, tetf, nodef):
        self.dom = G()
        Engine.__init__(self, prog, [self.dom], nonempty=True)
        self.ctx, self.meshrec, self.tetf, self.nodef = ctx, meshrec, tetf, nodef
        self.ctor, self.rec, self.arr, self.flag, self.reg = rl
        self.faces = []
        self.surfs = []
        self.accepts = []
        self.ups = []
        self.facecont = set()
        self.guard = []
        self.tagpaths = set()
        self.scans = set()
        self.typed = False

    # ---- labels
    def load(self, path, S, t=None, node=None, fr=None):
        v = Engine.load(self, path, S, t, node, fr)
        if path[-1][0] == ".":
            if path[-1][1] == self.flag and v.c is NOC:
                v = v.with_(f=dict(v.f, g=("isSurf",)), sym=("flag", path))
            elif path[-1][1] == self.flag:
                v = V(("flag", path), f=dict(v.f, g=("isSurf",)))
            elif path[-1][1] == self.reg and v.f.get("g") is None:
                v = v.with_(f=dict(v.f, g=("reg", S.facts.get("isSurf"))))
        elif path[-1][0] == "[" and ("ty", path[:-1]) in S.facts:
            v = v.with_(f=dict(v.f, g=("type0", S.facts[("ty", path[:-1])])))
        return v

    def size_of(self, obj, S):
        if obj is None or not obj.p:
            return None
        for p in obj.p:
            if ("ty", p) in S.facts:
                return ("ntypes", S.facts[("ty", p)])
            if p[-1] == (".", self.tetf):
                return ("ntet",)
        return None

    def on_call(self, name, fn, obj, args, node, S, fr):
        sn = name.rsplit("::", 1)[-1]
        if name.startswith("gmsh::"):
            if sn == "getDimension":
                return [(V(self.fresh(node, fr), f={"g": ("dim",)}), S)]
            if sn == "getNodes" and args and args[0].p:
                for a in args:
                    for p in a.p or ():
                        S.drop(p)
                self.tagpaths.update(args[0].p)
                return [(V(("void",)), S)]
            if sn == "getElementTypes" and args and args[0].p:
                d = args[1].v.c if len(args) > 1 else NOC
                for p in args[0].p:
                    S.drop(p)
                    for k in [k for k in S.assumed if str(p) in str(k)]:
                        del S.assumed[k]
                    self.typed = True
                    S.facts[("ty", p)] = d if isinstance(d, int) else "?"
                return [(V(("void",)), S)]
        if sn in ("size", "empty", "length") and obj is not None and not args:
            g = self.size_of(obj, S)
            if g:
                if sn == "empty":
                    return [(V(self.fresh(node, fr, "e"), f={"g": ("cmp", "==", g, ("k", 0))}), S)]
                return [(V(("size", obj.p, S.facts.get(("ty", obj.p[0]))), f={"g": g}), S)]
        if sn in ("any_of", "none_of", "all_of", "find", "count", "find_if") and args:
            its = [a for a in args if a.v.ptr]
            t = its[0].node.get("t") if its and isinstance(its[0].node, dict) else None
            src = strip(its[0].node) if its and its[0].node else None
            ot = (src or {}).get("obj") or {}
            c = str(getattr(strip(ot).get("t") if isinstance(ot, dict) and ot else None, "c", "") or getattr(t, "c", ""))
            if "basic_string" in c and sn in ("any_of", "none_of") and not any(s == (".", self.tetf) for p in its[0].v.ptr for s in p):
                r = ("cmp", "==", ("found",), ("k", 1 if sn == "any_of" else 0))
                return [(V(self.fresh(node, fr), f={"g": r}), S)]
        return None

    def on_append(self, path, v, S, e, fr):
        p = v.obj or (v.ptr and v.ptr[0])
        t = None
        for a in e.get("args", []) if isinstance(e, dict) else []:
            t = strip(a).get("t") or t
        src = v.obj
        if src is not None and t is not None and t.rec == self.rec["n"] or (t is not None and self.rec["n"] in (t.c or "")):
            if src is None:
                return
            self.facecont.add(gen(path[:-1] if path[-1][0] == "[" else path))
            ks = [self.vertex(S.get(src + ((".", self.arr), ("[", i))), S) for i in range(3)]
            fl = S.get(src + ((".", self.flag),))
            if fl is not None and fl.c is not NOC and not fl.c:
                self.faces.append((tuple(ks), loc(e)))
            return
        if "counted" in S.facts and "closed" not in S.facts:
            S.facts["app"] = True

    def vertex(self, v, S):
        for _ in range(6):
            if v is None:
                return None
            p = v.ptr[0] if v.ptr else v.sym[1] if isinstance(v.sym, tuple) and v.sym[:1] == ("ld",) else None
            if not p:
                return None
            if len(p) > 1 and p[-1][0] == "[" and p[-2][0] == "." and p[-2][1].endswith("@ind") and any(x == (".", self.tetf) for x in p):
                return p[-1][1] if isinstance(p[-1][1], int) else None
            v = S.get(p)
        return None

    def on_branch(self, cond, val, taken, S, fr):
        g = val.f.get("g")
        if not g:
            return True
        if g == ("isSurf",):
            S.facts["isSurf"] = taken
            if val.sym and val.sym[0] == "flag":
                self.scan(val.sym[1])
            return True
        if g[0] == "cmp":
            op, x, y = g[1], g[2], g[3]
            if not taken:
                op = NEG[op]
            if x[0] == "k":
                x, y, op = y, x, FLIP[op]
            if x == ("reg", False) and y == ("reg", False) and op in ("==", "!="):
                S.facts["same"] = op == "=="
                return True
            if x[0] == "found" and y[0] == "k":
                f = (y[1] == 1) == (op == "==")
                if not f:
                    S.facts[("missing", fr.fid)] = True
                return True
            if x[0] in ("cnt", "type0", "ntypes", "dim", "ntet") and y[0] == "k":
                lo, hi = S.facts.get(("iv", x), (0, INF))
                if x[0] == "cnt":
                    S.facts["done"] = True
                iv = meet((lo, hi), op, y[1])
                if iv[0] > iv[1]:
                    return False
                S.facts[("iv", x)] = iv
        return True

    def scan(self, path):
        """how far the group of equal triangles that is examined can extend"""
        if len(path) < 2 or path[-2][0] != "[" or not isinstance(path[-2][1], tuple) or path[-2][1][0] != "s":
            return
        r = self.ranges.get(path[-2][1][1])
        if r is None:
            return
        hi = r[2].sym
        r2 = self.ranges.get(hi)
        if r2 is None:
            self.scans.add("size" if isinstance(hi, tuple) and "size" in str(hi)[:300] else "?")
        elif r2[1] == "<=":
            self.scans.add("incl")
        elif r2[1] in ("<", "!="):
            h = r2[2].sym
            self.scans.add("?" if isinstance(h, tuple) and h[:2] == ("b", "+") else "excl" if "size" in str(h)[:400] else "?")

    def on_loop(self, kind, node, S, fr):
        if S.facts.get("done"):
            S.facts["closed"] = True
        S.facts.pop("isSurf", None)

    def on_algo_iter(self, sn, par, e, S, fr):
        S.facts.pop("isSurf", None)

    def join_facts(self, a, b):
        out = {}
        for k in set(a) | set(b):
            if isinstance(k, tuple) and k[0] == "iv":
                x, y = a.get(k), b.get(k)
                if x and y:
                    out[k] = (min(x[0], y[0]), max(x[1], y[1]))
            elif k in ("counted", "rejected") or k[0] == "missing":
                out[k] = a.get(k) or b.get(k)
            elif a.get(k) == b.get(k):
                out[k] = a[k]
        return out

    def on_return(self, v, node, S, fr):
        S.facts.pop("isSurf", None)
        if "counted" in S.facts and not fr.fn.is_lambda:
            S.facts["done"] = True
        if fr.fn is self.top:
            return
        if fr.parent is not None and fr.parent.fn is self.top and "counted" in S.facts:
            good = v.c if v.c is not NOC else None
            ivs = {k[1]: i for k, i in S.facts.items() if isinstance(k, tuple) and k[0] == "iv" and k[1][0] in ("cnt", "ntet")}
            if good is None or good:
                self.accepts.append((dict(ivs), S.facts.get("same"), S.facts.get("app"), loc(node) if node else "?", fr.fn.name, good))
            else:
                S.facts["rejected"] = True
            for k in [k for k in S.facts if k in ("counted", "same", "done", "app", "closed") or isinstance(k, tuple) and k[0] == "iv" and k[1][0] == "cnt"]:
                del S.facts[k]

    def on_exit(self, name, args, node, S, fr):
        c = args[0].v.c if args else NOC
        sn = name.rsplit("::", 1)[-1]
        if sn in ("exit", "_exit", "quick_exit") and c is not NOC:
            if c == 0:
                self.ctx.violation("exit status|%s" % fr.fn.name, "%s in %s" % (loc(node), fr.fn.name), "a mesh that cannot be used ends the program with a success status")
            else:
                self.ctx.ok("refusals end the program with a failure status", "%s in %s" % (loc(node), fr.fn.name))

    def on_index(self, paths, idx, e, S, fr):
        for p in paths or ():
            if p[-1] == (".", self.nodef) and isinstance(idx.sym, tuple):
                if not self.tagged(idx.sym):
                    continue
                good = False
                for k, taken in S.assumed.items():
                    if isinstance(k, tuple) and k[:1] == ("b",) and len(k) == 4 and k[1] in ("<", "<=") and idx.sym in (k[2], k[3]):
                        other = k[3] if k[2] == idx.sym else k[2]
                        if "size" not in str(other)[:400]:
                            continue
                        if k[1] == "<" and k[2] == idx.sym and taken:
                            good = True
                        if k[1] == "<=" and k[3] == idx.sym and not taken:
                            good = True
                if good:
                    self.ctx.ok("node numbers of the file checked against the number of nodes", "%s in %s" % (loc(e), fr.fn.name))
                else:
                    self.ctx.violation("node number", "%s in %s" % (loc(e), fr.fn.name), "a node number read from the mesh file is used without having been checked to be below the number of nodes")

    def tagged(self, sym):
        if isinstance(sym, tuple):
            if sym[:1] == ("ld",) and isinstance(sym[1], tuple) and any(sym[1][:len(p)] == p for p in self.tagpaths):
                return True
            return any(self.tagged(x) for x in sym)
        return False


def parity(p):
    return sum(1 for i in range(len(p)) for j in range(i + 1, len(p)) if p[i] > p[j]) % 2


def run(ctx):
    prog = ctx.program()
    ctx.rule("the constructor of the mesh goes on only with: dimension 3; tetrahedrons as the only volume elements and triangles as the only surface elements; every region of the "
             "settings found; at least one tetrahedron; for every set of three vertices: at most one surface triangle, one or two tetrahedron faces, and no surface triangle between two "
             "tetrahedrons of the same region. Otherwise exit with a non-zero status")
    rl = roles(prog, ctx)
    meshrec = next((r for r in prog.records.values() if any(re.match(r"^std::vector<(class |struct )?Tetra::Tet\b", f["t"].c) and not f["t"].ref for f in r.get("fields", []))), None)
    ctx.need(rl and meshrec, "triangle class or mesh class not recognised")
    tetf = next(f["d"] for f in meshrec["fields"] if re.match(r"^std::vector<(class |struct )?Tetra::Tet\b", f["t"].c))
    nodef = next(f["d"] for f in meshrec["fields"] if re.match(r"^std::vector<(class |struct )?Nodes::Node\b", f["t"].c))
    ctors = [f for f in prog.fns.values() if f.ctor and f.body is not None and f.clsn == meshrec["n"] and not f.implicit and not f.defaulted]
    for c in ctors:
        eng = Eng(prog, ctx, rl, meshrec, tetf, nodef)
        eng.top = c
        binds = {i: V(("c", "bool", False), False) for i, p in enumerate(c.params) if p["t"].c == "bool"}
        out = eng.run(c, binds=binds)
        judge(ctx, eng, out, c)
    ctx.min("groups of coinciding triangles that are accepted", 1)
    ctx.min("refusals end the program with a failure status", 2)


def judge(ctx, eng, out, c):
    seen = set()
    for ivs, same, app, where, fn, good in eng.accepts:
        s, t = ivs.get(("cnt", "surf"), (0, INF)), ivs.get(("cnt", "tet"), (0, INF))
        n = ivs.get(("ntet",), (0, INF))
        k = (s, t, same, app, n)
        if k in seen:
            continue
        seen.add(k)
        w = "%s in %s" % (where, fn)
        bad = False
        if n[0] < 1:
            ctx.violation("no tetrahedron", w, "a mesh without any tetrahedron is accepted")
            bad = True
        if s[1] > 1:
            ctx.violation("duplicate surface triangle", w, "a mesh with the same surface triangle several times is accepted")
            bad = True
        if t[0] < 1:
            ctx.violation("triangle without tetrahedron", w, "a mesh with a surface triangle that is no face of a tetrahedron is accepted")
            bad = True
        if t[1] > 2:
            ctx.violation("overlapping tetrahedrons", w, "a mesh with a face shared by more than two tetrahedrons is accepted")
            bad = True
        if not bad and t == (2, 2) and s == (1, 1) and same is not False:
            ctx.violation("internal triangle", w, "a mesh with a surface triangle between two tetrahedrons of the same region is accepted")
            bad = True
        if not bad and s == (0, 0):
            if (t == (1, 1) or t == (2, 2) and same is not True) and not app:
                ctx.violation("missing surface", w, "a face on the boundary of a region gets no surface element")
            if t == (2, 2) and same is True and app:
                ctx.violation("extra surface", w, "a face inside a region gets a surface element")
        elif not bad and s[0] >= 1 and app:
            ctx.violation("surface twice", w, "a face that already has a surface element gets another one")
        if not bad:
            ctx.ok("groups of coinciding triangles that are accepted", "%s surface triangle(s), %s tetrahedron face(s), same region: %s" % (int(s[0]), int(t[0]), same))
    if eng.scans and eng.scans <= {"excl"}:
        ctx.violation("last group", loc(c.body), "the last group of coinciding triangles is never examined")
    fs = {}
    for ks, where in eng.faces:
        fs.setdefault(ks, where)
    if fs and all(all(isinstance(k, int) for k in ks) for ks in fs):
        sets = {}
        for ks, where in fs.items():
            if len(set(ks)) != 3 or not set(ks) <= set(range(4)):
                ctx.violation("face", where, "the face %s of a tetrahedron does not have three different vertices" % (ks,))
                continue
            sets.setdefault(frozenset(ks), []).append((ks, where))
        miss = [x for x in range(4) if frozenset(set(range(4)) - {x}) not in sets]
        if miss:
            ctx.violation("missing face", next(iter(fs.values())), "the face opposite to vertex %d of the tetrahedrons is not examined" % miss[0])
        elif any(len(v) > 1 for v in sets.values()):
            ctx.violation("face twice", next(iter(fs.values())), "a face of the tetrahedrons is examined twice")
        else:
            ctx.ok("faces of a tetrahedron examined", "4 faces at %s" % ", ".join(sorted(fs.values())))
        par = {parity(ks + tuple(set(range(4)) - set(ks))) for ks in fs if len(set(ks)) == 3}
        if len(par) > 1:
            ctx.violation("face orientation", next(iter(fs.values())), "the faces of the tetrahedrons are not all oriented to the same side")
    for r in out:
        S = r[1]
        f = S.facts
        if f.get("rejected"):
            ctx.violation("rejected mesh", loc(c.body), "the construction of the mesh goes on after the mesh was found to be invalid")
        if any(isinstance(k, tuple) and k[0] == "missing" for k in f):
            ctx.violation("missing region", loc(c.body), "the construction of the mesh goes on when a region of the settings is not in the mesh file")
        iv = {k[1]: v for k, v in f.items() if isinstance(k, tuple) and k[0] == "iv"}
        if not eng.typed:
            continue
        if iv.get(("dim",), (0, INF)) != (3, 3):
            ctx.violation("dimension", loc(c.body), "a mesh that is not three-dimensional is accepted")
        n3, t3 = iv.get(("ntypes", 3), (0, INF)), iv.get(("type0", 3))
        if n3[1] > 1 or n3[0] < 1 or t3 != (4, 4):
            ctx.violation("volume elements", loc(c.body), "a mesh with volume elements that are not tetrahedrons is accepted")
        n2, t2 = iv.get(("ntypes", 2), (0, INF)), iv.get(("type0", 2))
        if n2 != (0, 0) and (n2[1] > 1 or t2 != (2, 2)):
            ctx.violation("surface elements", loc(c.body), "a mesh with surface elements that are not triangles is accepted")
        ctx.ok("accepted element types", "volume %s, surface %s" % (t3, t2 if n2 != (0, 0) else "none"))
