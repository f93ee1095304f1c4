"""M03: every index designates an object of the kind that the indexed container holds.

Index-space inference by unification over an inlined run of the whole program: containers of nodes, tetrahedrons, triangles and regions have
rigid index spaces by their element type; a container filled by appending has a space of its own; the index space and the element space of
every other container is inferred from how it is sized, filled and indexed.  Two different rigid spaces for one container is a violation."""
import re
from sa.interp import Engine, V, NOC, Domain, State, gen, strip
from sa.lib import loc, fieldname

RIGID = [(r"^std::vector<(class |struct )?Nodes::Node\b", "nodes"), (r"^std::vector<(class |struct )?Tetra::Tet\b", "tetrahedrons"),
         (r"^std::vector<(class |struct )?Triangle::Tri\b", "triangles"), (r"^std::vector<(class |struct )?Tetra::prm\b", "volume regions"),
         (r"^std::vector<(class |struct )?Triangle::prm\b", "surface regions")]


def rigid(t):
    c = re.sub(r"^const ", "", (t.c or "")) if t is not None else ""
    for rx, n in RIGID:
        if re.search(rx, c):
            return n
    return None


MULTI = {}


def cid(path):
    """identity of a container: its field; the enclosing fields are kept when the class has several instances"""
    g = gen(path)
    i = len(g)
    while i > 0:
        i -= 1
        if g[i][0] == "." and g[i][1] in MULTI and not MULTI[g[i][1]] and (i == 0 or g[i - 1][0] != "["):
            return g[i:]
    return g


def show_c(c):
    c = [x for i, x in enumerate(c) if x[0] != "." or not any(y[0] == "." for y in c[i + 1:])]
    if any(x[0] == "." for x in c):
        c = c[[x[0] for x in c].index("."):]
    s = "".join("[]" if x[0] == "[" else fieldname(x) if x[0] == "." else str(x[1]).rsplit(":", 1)[-1].rsplit("@", 1)[-1] for x in c)
    return s


class Space(Domain):
    name = "sp"

    def __init__(self, roles):
        self.roles = roles

    def default(self, eng, path, t):
        if t is not None and t.b != "int":
            return None
        if path[-1][0] == ".":
            r = self.roles.get(path[-1][1])
            return r if r else ("fld", cid(path))
        if path[-1][0] == "[":
            if len(path) > 1 and path[-2][0] == "." and path[-2][1] in self.roles:
                return self.roles[path[-2][1]]
            return ("el", cid(path[:-1]))
        return None

    def cast(self, eng, a, node):
        return a.f.get("sp")

    def un(self, eng, op, a, node, S):
        return None

    def get(self, eng, v):
        s = v.f.get("sp")
        if s is None:
            r = eng.ranges.get(v.sym)
            if r is not None:
                lo, op, hi = r
                h = hi.f.get("sp")
                if lo.c == 0 and lo.c is not NOC and op in ("<", "!=") and h:
                    return self.from_size(h)
        return s

    def from_size(self, h):
        if h[0] == "#":
            return ("ix", h[1])
        if h[0] == "mul":
            x = self.from_size(h[2])
            return ("mul", h[1], x) if x else None
        return None

    def bin(self, eng, op, a, b, node, S):
        if op not in ("*", "+", "-", "*="):
            return None
        x, y = self.get(eng, a), self.get(eng, b)
        if op == "*":
            if y is not None and a.c is not NOC and isinstance(a.c, int):
                x, c = y, a.c
            elif x is not None and b.c is not NOC and isinstance(b.c, int):
                c = b.c
            else:
                return None
            return x if c == 1 else ("mul", c, x)
        if op == "+":
            if isinstance(x, tuple) and x[0] == "mul" and not (isinstance(y, tuple) and y[0] == "mul") and (x[2][0] != "#" if isinstance(x[2], tuple) else True):
                return x
            if isinstance(y, tuple) and y[0] == "mul" and not (isinstance(x, tuple) and x[0] == "mul") and (y[2][0] != "#" if isinstance(y[2], tuple) else True):
                return y
        return None

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if sn == "size" and obj is not None and obj.p and name.startswith("std::"):
            for p in obj.p:
                eng.typed(p, strip(obj.node).get("t") if obj.node is not None else None)
            return ("#", cid(obj.p[0]))
        if node.get("k") == "Construct" and node.get("cls") == "std::vector" and args and not args[0].v.ptr:
            s = args[0].v.f.get("sp")
            return ("vec", s) if s else None
        return None

    def join(self, a, b):
        if a == b:
            return a
        if a is None or b is None or "#" in (a[0], b[0]) or "vec" in (a[0], b[0]):
            return None
        x, y = self.eng.find(self.eng.term(a)), self.eng.find(self.eng.term(b))
        return x if x == y else None


class Conflict(Exception):
    pass


class Eng(Engine):
    def __init__(self, prog, ctx, roles):
        self.dom = Space(roles)
        self.dom.eng = self
        Engine.__init__(self, prog, [self.dom])
        self.ctx, self.roles = ctx, roles
        self.bind = {}
        self.why = {}
        self.types = {}
        self.owned = set()
        self.mixed = set()

    # ---- unification
    def term(self, s):
        """facet -> term"""
        if isinstance(s, str):
            return s
        if s[0] == "ix":
            return self.ixterm(s[1])
        if s[0] == "mul":
            return ("mul", s[1], self.term(s[2]))
        return s

    def ixterm(self, c):
        t = self.types.get(c)
        return t if t else ("ix", c)

    def find(self, t):
        while isinstance(t, tuple) and t[0] in ("ix", "el", "fld") and t in self.bind:
            t = self.bind[t]
        return t

    def unify(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        va = isinstance(a, tuple) and a[0] in ("ix", "el", "fld")
        vb = isinstance(b, tuple) and b[0] in ("ix", "el", "fld")
        if va:
            self.bind[a] = b
            return True
        if vb:
            self.bind[b] = a
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "mul" and a[1] == b[1]:
            return self.unify(a[2], b[2])
        return False

    def show(self, t):
        t = self.find(t)
        if isinstance(t, str):
            return t
        if t[0] == "mul":
            return "%d values per element of %s" % (t[1], self.show(t[2]))
        if t[0] == "own":
            return "positions in '%s'" % show_c(t[1])
        return str(t[0])

    def meet(self, what, term, sp, e, fr):
        """term is used as space sp at e"""
        if sp is None or (isinstance(sp, tuple) and sp[0] in ("#", "vec")):
            return
        b = self.term(sp)
        if isinstance(term, tuple) and term[0] == "fld":
            # a tagged field may hold indices of several kinds: then nothing is known about it
            if self.find(term) != "any" and self.find(b) != "any" and not self.unify(term, b):
                self.mixed.add(term)
                self.bind[term] = "any"
            return
        if "any" in (self.find(term), self.find(b)):
            return
        if not self.unify(term, b):
            first = self.why.get(self.key(term))
            self.ctx.violation("%s|%s|%s" % (what, self.show(term), self.show(b)), "%s (%s)" % (loc(e), " > ".join(fr.chain()[-3:])),
                               "%s: %s expected, %s used%s" % (what, self.show(term), self.show(b), "; the former comes from " + first if first else ""))
        else:
            self.why.setdefault(self.key(term), "%s in %s" % (loc(e), fr.fn.name))
            self.ctx.ok("index uses consistent", "%s at %s" % (what, loc(e)))

    def key(self, t):
        return str(t)

    def typed(self, p, t):
        c = cid(p)
        r = rigid(t)
        if r and c not in self.types:
            self.types[c] = r
        return c

    def load(self, path, S, t=None, node=None, fr=None):
        v = Engine.load(self, path, S, t, node, fr)
        if "sp" not in v.f and path[-1][0] in (".", "[") and len(path) > 1 and v.obj is None:
            x = self.dom.default(self, path, t)
            if x is not None:
                v = v.with_(f=dict(v.f, sp=x))
        return v

    def store(self, path, v, S, node, fr, weak=False, quiet=False):
        if "sp" not in v.f:
            x = self.dom.get(self, v)
            if x is not None:
                v = v.with_(f=dict(v.f, sp=self.find(self.term(x))))
        Engine.store(self, path, v, S, node, fr, weak, quiet)

    # ---- hooks
    def on_index(self, paths, idx, e, S, fr):
        if not paths:
            return
        b = e.get("obj") or e.get("a")
        t = strip(b).get("t") if isinstance(b, dict) else None
        if t is None or t.rec != "std::vector":
            return
        for p in paths:
            c = self.typed(p, t)
            self.meet("index of '%s'" % show_c(c), self.ixterm(c), self.dom.get(self, idx), e, fr)

    def on_append(self, path, v, S, e, fr):
        c = cid(path)
        if c not in self.types and c[0][0] == "." and c not in self.owned:
            b = e.get("obj")
            t = strip(b).get("t") if isinstance(b, dict) else None
            if rigid(t):
                self.types[c] = rigid(t)
            elif t is not None and t.rec == "std::vector":
                self.owned.add(c)
                self.unify(("ix", c), ("own", c))

    def on_resize(self, paths, n, e, S, fr):
        s = n.f.get("sp")
        b = e.get("obj")
        t = strip(b).get("t") if isinstance(b, dict) else None
        for p in paths or ():
            c = self.typed(p, t)
            x = self.dom.from_size(s) if isinstance(s, tuple) else None
            if x:
                self.meet("size of '%s'" % show_c(c), self.ixterm(c), x, e, fr)

    def on_store(self, path, v, S, node, fr):
        s = v.f.get("sp")
        if isinstance(s, tuple) and s[0] == "vec":
            c = cid(path)
            x = self.dom.from_size(s[1]) if isinstance(s[1], tuple) else None
            if x and path[-1][0] == "." and isinstance(node, dict):
                self.meet("size of '%s'" % show_c(c), self.ixterm(c), x, node, fr)
            return
        if path[-1][0] == "." and v.obj is not None and v.obj[-1][0] == "." and v.obj != path:
            a, b = cid(path), cid(v.obj)
            ft = self.field_type(path[-1][1])
            if ft is not None and ft.rec == "std::vector":
                self.meet("copy into '%s'" % show_c(a), self.ixterm(a), ("ix", b), node, fr)
                return
        s = self.dom.get(self, v)
        if s is None or (isinstance(s, tuple) and s[0] in ("#", "vec")):
            return
        if path[-1][0] == "[" and len(path) > 1:
            if path[-2][0] == "." and path[-2][1] in self.roles:
                self.meet("values of '%s'" % fieldname(path[-2]), self.roles[path[-2][1]], s, node, fr)
            elif path[-1][0] == "[":
                c = cid(path[:-1])
                self.meet("values of '%s'" % show_c(c), ("el", c), s, node, fr)
        elif path[-1][0] == ".":
            r = self.roles.get(path[-1][1])
            self.meet("value of '%s'" % fieldname(path[-1]), r if r else ("fld", cid(path)), s, node, fr)


def roles_of(prog, ctx):
    out = {}
    for r in prog.records.values():
        n = r["n"]
        base = n.split("<")[0]
        for f in r.get("fields", []):
            if base == "element" and "int" in f["t"].c and re.search(r"array<(const )?int", f["t"].c):
                out[f["d"]] = "nodes"
            if base == "Tetra::Tet" and f["t"].b == "int" and not f["t"].const:
                out[f["d"]] = "tetrahedrons"
            if base == "element" and f["t"].b == "int":
                out[f["d"]] = "volume regions" if "#VI4#" in f["d"] else "surface regions" if "#VI3#" in f["d"] else None
    return {k: v for k, v in out.items() if v}


def run(ctx):
    prog = ctx.program()
    ctx.rule("every container has one index space; spaces of nodes, tetrahedrons, triangles, volume and surface regions, and of each appended list are distinct")
    roles = roles_of(prog, ctx)
    held = {}
    for r in prog.records.values():
        for f in r.get("fields", []):
            if f["t"].recid and not f["t"].ref and not f["t"].ptr:
                held[f["t"].recid] = held.get(f["t"].recid, 0) + 1
    MULTI.clear()
    for rid, r in prog.records.items():
        for f in r.get("fields", []):
            if not r["n"].startswith("std::"):
                MULTI[f["d"]] = held.get(rid, 0) > 1
    ctx.need({"nodes", "tetrahedrons", "volume regions", "surface regions"} <= set(roles.values()), "index fields of the elements not found: %s" % roles)
    main = [f for f in prog.fns.values() if f.name == "main" and f.body is not None]
    ctx.need(main, "no main function")
    eng = Eng(prog, ctx, roles)
    eng.run(main[0])
    ctx.cov["containers"] = sorted({show_c(t[1]) + " : " + eng.show(t) for t in list(eng.bind) if t[0] == "ix" and any(x[0] == "." for x in t[1])})
    ctx.min("index uses consistent", 60)
