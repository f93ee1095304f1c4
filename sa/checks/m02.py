"""M02: renumbering the nodes of a mesh changes no element and no table.

The constructor of the mesh class is interpreted; the stores that permute the node array, that build the old-to-new table and that rewrite the
vertex numbers are recognised by the symbolic access paths of what is stored where."""
import re
from sa.interp import Engine, V, NOC, Domain, State, gen, strip, idx_key
from sa.lib import loc, fieldname, LabDom
from sa.checks.m03 import roles_of, rigid


class FromInd(Domain):
    """the value is a vertex number read from an element"""
    name = "fi"

    def __init__(self, ind):
        self.ind = ind

    def default(self, eng, path, t):
        if path[-1][0] == "[" and len(path) > 1 and path[-2][0] == "." and path[-2][1] in self.ind:
            return True
        return None

    def cast(self, eng, a, node):
        return a.f.get("fi")

    def un(self, eng, op, a, node, S):
        return None

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if sn in ("minmax", "min", "max", "make_pair", "pair") and any(a.v.f.get("fi") for a in args):
            return True
        return None

    def elem(self, eng, v, key):
        return v.f.get("fi")

    def join(self, a, b):
        return True if a and b else None


def ld_of(key):
    """key of the form ('s', ('ld', C + ('[', k)))  ->  (C, k)"""
    if isinstance(key, tuple) and key[0] == "s" and isinstance(key[1], tuple) and key[1][:1] == ("ld",):
        p = key[1][1]
        if isinstance(p, tuple) and p and p[-1][0] == "[":
            return p[:-1], p[-1][1]
    return None


class Eng(Engine):
    def __init__(self, prog, ctx, ind, nodef, own):
        Engine.__init__(self, prog, [LabDom(), FromInd(ind)], nonempty=True)
        self.ctx, self.ind, self.nodef, self.own = ctx, ind, nodef, own
        self.perm = {}     # form -> (container, site)
        self.maps = {}     # container -> ('inv', P) | ('fwd', P)
        self.iota = {}
        self.ren = {}      # element container -> {k: set(sites)}
        self.renmap = {}
        self.loads = []

    def load(self, path, S, t=None, node=None, fr=None):
        v = Engine.load(self, path, S, t, node, fr)
        if "fi" not in v.f and len(path) > 1 and path[-1][0] == "[" and path[-2][0] == "." and path[-2][1] in self.ind and v.obj is None:
            v = v.with_(f=dict(v.f, fi=True))
        return v

    def on_fill(self, cont, v, sn, S, e, fr, whole):
        if sn == "iota":
            self.iota[gen(cont)] = (v.c, whole, loc(e))

    def on_store(self, path, v, S, node, fr):
        if not isinstance(node, dict):
            return
        # permutation of the node array
        idx = [i for i, s in enumerate(path) if s[0] == "." and s[1] == self.nodef]
        if idx and len(path) > idx[0] + 1 and path[idx[0] + 1][0] == "[":
            a = path[idx[0] + 1][1]
            sym = v.sym
            if v.obj is not None:
                sym = ("ld", v.obj)
            if isinstance(sym, tuple) and sym[:1] == ("ld",):
                src = sym[1]
                ks = [(i, s[1]) for i, s in enumerate(src) if s[0] == "[" and isinstance(s[1], tuple)]
                lab = v.f.get("lab")
                if ks and src[:1] != path[:1] or (ks and src[0][0] in ("v", "t")):
                    i0, b = ks[0]
                    from_node = (isinstance(lab, tuple) and any(s == (".", self.nodef) for s in lab)) or self.copy_of_node(src[:i0], S)
                    if from_node:
                        self.permute(a, b, path[:idx[0] + 1], node, fr, S)
                elif ks and src[:idx[0] + 1] == path[:idx[0] + 1] and ks[0][1] != a:
                    self.ctx.violation("in place", loc(node), "the nodes are permuted in place: a node can be overwritten before it is moved")
        # tables
        if path[-1][0] == "[":
            cont, k = path[:-1], path[-1][1]
            l = ld_of(k)
            if l and v.sym is not None and idx_key(v) == l[1]:
                self.maps[gen(cont)] = ("inv", gen(l[0]))
            else:
                l2 = ld_of(idx_key(v))
                if l2 and l2[1] == k and len(cont[-1:]) and cont[-1][0] == "." and cont[-1][1] not in self.ind:
                    self.maps[gen(cont)] = ("fwd", gen(l2[0]))
            # vertex numbers
            if cont[-1][0] == "." and cont[-1][1] in self.ind:
                self.vertex(path, k, v, node, fr, S)
            elif v.f.get("fi") and cont[-1][0] == "." and cont[-1][1] in self.own and not S.facts.get("sorted"):
                self.early.append((cont[-1], loc(node), fr.fn.name))

    def copy_of_node(self, p, S):
        x = S.get(p)
        return x is not None and x.obj is not None and any(s == (".", self.nodef) for s in x.obj)

    def permute(self, a, b, npath, node, fr, S):
        la, lb = ld_of(a), ld_of(b)
        S.facts["permuted"] = True
        if lb and lb[1] == a:
            self.perm[("gather", gen(lb[0]))] = loc(node)
        elif la and la[1] == b:
            self.perm[("scatter", gen(la[0]))] = loc(node)
        elif a == b:
            pass
        else:
            self.ctx.violation("node permutation", "%s in %s" % (loc(node), fr.fn.name), "nodes are moved by an index that does not come from the permutation table at the target position")
        if a != b:
            full = self.full_key(a if la is None or lb is not None and lb[1] == a else b, npath)
            if full is False:
                self.ctx.violation("partial permutation", "%s in %s" % (loc(node), fr.fn.name), "not all the nodes are moved")

    def vertex(self, path, k, v, node, fr, S):
        old = S.get(path)
        key = idx_key(self.load(path, S))
        l = ld_of(idx_key(v))
        if l and any(s[0] == "." and s[1] in self.ind for s in l[0]):
            return      # copied from an element
        if l is None:
            return      # not a lookup: a constructor
        M, kk = l
        if gen(M) not in self.maps and not any(s[0] == "." and s[1] in self.own for s in M):
            return
        el = path[:-2]
        ek = el[-1][1] if el and el[-1][0] == "[" else None
        cls = path[-2][1]
        if kk != key:
            self.ctx.violation("vertex|%s" % fieldname(path[-2]), "%s in %s" % (loc(node), fr.fn.name), "a vertex number is replaced by the new number of another vertex")
            return
        if el[-1:] and el[-1][0] == "[" and self.full_key(ek, el[:-1]) is False:
            self.ctx.violation("partial renumbering|%s" % cls, "%s in %s" % (loc(node), fr.fn.name), "only a part of the elements is renumbered")
        self.ren.setdefault(cls, {}).setdefault(k if not isinstance(k, tuple) else ("loop", self.ranges.get(k[1], (None,))[0] is not None and self.ranges[k[1]][0].c, self.hi(k)), set()).add(id(node))
        self.renmap.setdefault(cls, set()).add(gen(M))
        S.facts["sorted"] = True
        self.ctx.ok("vertex numbers rewritten", "%s[%s] at %s" % (cls[-20:], k if not isinstance(k, tuple) else "i", loc(node)))

    def hi(self, k):
        r = self.ranges.get(k[1])
        return (r[1], r[2].c) if r and r[2].c is not NOC else None

    def on_index(self, paths, idx, e, S, fr):
        if idx.f.get("fi") and not S.facts.get("sorted"):
            for p in paths or ():
                if p[-1][0] == "." and p[-1][1] in self.own and p[-1][1] != self.nodef and gen(p) not in self.maps:
                    self.early.append((p[-1], loc(e), fr.fn.name))


def run(ctx):
    prog = ctx.program()
    ctx.rule("the nodes are moved by a permutation P from a copy; the table T is the inverse of P; every vertex number v of every element becomes T[v], once; "
             "no table of the mesh is indexed by or filled with vertex numbers before that")
    roles = roles_of(prog, ctx)
    ind = {d for d, r in roles.items() if r == "nodes"}
    nodef = None
    mesh = None
    for rid, r in prog.records.items():
        for f in r.get("fields", []):
            if rigid(f["t"]) == "nodes" and not f["t"].ref and not f["t"].ptr and not f["t"].const:
                nodef, mesh = f["d"], r
    ctx.need(nodef and ind, "node container of the mesh not found")
    own = {f["d"] for f in mesh["fields"]}
    ctors = [f for f in prog.fns.values() if f.ctor and f.body is not None and f.clsn == mesh["n"] and not f.implicit and not f.defaulted]
    ctx.need(ctors, "no constructor of the mesh")
    for c in ctors:
        eng = Eng(prog, ctx, ind, nodef, own)
        eng.early = []
        eng.run(c)
        if not eng.perm:
            if eng.ren:
                ctx.violation("numbers without nodes", loc(c.body), "vertex numbers are rewritten but the nodes are not moved")
            ctx.ok("constructors that keep the numbering", c.name)
            continue
        ctx.need(len(eng.perm) == 1, "several node permutations: %s" % eng.perm)
        (form, P), site = next(iter(eng.perm.items()))
        ctx.ok("node permutations", "%s at %s" % (form, site))
        i = eng.iota.get(P)
        if i is not None:
            if i[0] != 0 or not i[1]:
                ctx.violation("permutation table", i[2], "the permutation table is not initialised with 0, 1, 2, ...")
            else:
                ctx.ok("permutation tables", i[2])
        for cls in sorted(ind):
            n = int(re.search(r"#VI(\d+)#", cls).group(1))
            got = eng.ren.get(cls, {})
            for M in eng.renmap.get(cls, ()):
                m = eng.maps.get(M)
                good = (form == "gather" and m == ("inv", P)) or (form == "scatter" and (M == P or m == ("fwd", P)))
                if not good:
                    ctx.violation("table|%s" % fieldname(M[-1]), site, "the table used to renumber the vertices is not the inverse of the permutation applied to the nodes")
                else:
                    ctx.ok("renumbering tables", "%s for %d-node elements" % (fieldname(M[-1]), n))
            ks = {k for k in got if not isinstance(k, tuple)}
            if any(isinstance(k, tuple) and k[1] == 0 and k[2] in (("<", n), ("<=", n - 1), ("!=", n)) for k in got):
                ks |= set(range(n))
            if any(isinstance(k, tuple) and k[2] is None for k in got):
                ks |= set(range(n))
            miss = set(range(n)) - ks
            if miss:
                ctx.violation("vertices not renumbered|%d" % n, loc(c.body), "vertices %s of the %d-node elements keep their old number after the nodes were moved" % (sorted(miss), n))
            twice = [k for k, s in got.items() if len(s) > 1]
            if twice:
                ctx.violation("renumbered twice|%d" % n, loc(c.body), "vertices %s of the %d-node elements are renumbered twice" % (twice, n))
        for f, where, fn in eng.early:
            ctx.violation("early|%s" % fieldname(f), "%s in %s" % (where, fn), "'%s' is built with vertex numbers that are changed later by the renumbering" % fieldname(f))
    ctx.min("node permutations", 1)
    ctx.min("vertex numbers rewritten", 2)
