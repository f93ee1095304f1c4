"""P03: the potential used for the demagnetising field is that of the charges of the magnetisation."""
import math
import re

from sa.lib import loc
from sa.checks.kspec import *  # noqa
from sa.checks.kspec import P
from sa.checks.kern import Tab, symstr, Clo
from sa.checks import kspec

R3 = range(3)


def names(label, field, cls):
    if field == "p" and (cls or "").endswith("Node"):
        return "p@" + (label or "")
    return kspec.names(label, field, cls)


def gauss(n):
    return lambda k, o, a, e: Tab(n)


def tot(K, x):
    x = K.ten(K.val(x))
    return x.e[0].total() if len(x.e) == 1 and x.e[0] is not None else None


def fieldof(o, name):
    for d, c in o.f.items():
        if d.rsplit("@", 1)[-1] == name:
            return c.val
    return None


def run(ctx):
    prog = ctx.program()
    ctx.rule("normal forms: charges -Ms w div u in the tetrahedra, (jump of Ms) w u.n on the triangles; the same numbering of the sources where they are placed and where they are filled; "
             "potential (norm pot + correction) / 4 pi of the charges of u for phi, of its rate of change for phiv; sources and potentials renewed before each evaluation")
    ctx.assume("ScalFMM's execute adds charge over distance, in scaled coordinates; the closed form of the potential of a triangle (Tri::potential) is not decided")
    charges(ctx, prog)
    insertion(ctx, prog)
    potential(ctx, prog)


LAYOUT = {}


def charges(ctx, prog):
    LAYOUT.clear()
    fn = fn_named(prog, "scal_fmm::fmm::calc_charges")
    if fn is None:
        ctx.undecide("the charges")
        return
    where = loc(fn.body)
    stubs = {"Tetra::Tet::getPtGauss": gauss("gT"), "Triangle::Tri::getPtGauss": gauss("gS"),
             "Triangle::Tri::potential": lambda k, o, a, e: S(atom("potential[%s]" % symstr(k.val(a[1])) if len(a) > 1 else "potential"))}
    K = Kern(prog, names, stubs)
    K.exact = True

    def go():
        o = Obj("fmm", "scal_fmm::fmm")
        K.inline(fn, o, [Fun("g"), View(Cell(Obj("msh", "Mesh::mesh")))], {"l": ("root",)})
        return fieldof(o, "srcDen"), fieldof(o, "corr")
    try:
        rs = K.runs(go)
    except Unsup as x:
        ctx.undecide("the charges (%s)" % x)
        return
    T = P(*[(-1, "Ms", "wT", "g_%d" % d, "da_%d" % d) for d in R3])
    Sf = P(*[(1, "dMs", "wS", "aS", "g_%d" % d, "n_%d" % d) for d in R3])
    for r, facts in rs:
        if r is None:
            continue
        src, corr = r
        zs = zeros(facts)
        if not isinstance(src, Arr) or not isinstance(corr, Arr) or not src.e:
            ctx.undecide("the charges")
            continue
        lay = {}
        for k, c in src.e.items():
            p = tot(K, c.val)
            if p is None or not str(k).isdigit():
                ctx.undecide("charge %s" % k)
                continue
            if same(p, T):
                lay[int(k)] = "T"
                ctx.ok("charges", "tetrahedron")
            elif same(drop(p, zs), drop(Sf, zs)):
                lay[int(k)] = "S"
                ctx.ok("charges", "triangle")
            else:
                vol = any(x == "wT" for m in p for x, _ in m)
                ctx.violation("charge|%s" % ("tetrahedron" if vol else "triangle"), where, "the charge of a %s is not %s: %s" % (
                    "tetrahedron" if vol else "triangle", "-Ms w div u" if vol else "dMs w u.n", diff(p, T if vol else Sf)))
        if lay and "dMs" not in zs:
            LAYOUT["fill"] = "".join(lay.get(i, "?") for i in range(max(lay) + 1))
        if "dMs" in zs:
            continue
        n = sum(1 for v in lay.values() if v == "S")
        if n and len(lay) == len(src.e):
            done = {m.group(1) for m in (re.match(r"ind\[(\d+)\]\+0$", str(k)) for k in corr.e) if m}
            if not [k for k in corr.e if not re.match(r"ind\[(\d+)\]\+0$", str(k))]:
                for i in range(3):
                    if str(i) not in done:
                        ctx.violation("correction|missing", where, "node %d of a charged triangle gets no correction of its potential%s" % (
                            i, " when " + ", ".join(sorted(map(str, facts)))[:120] if facts else ""))
        for k, c in corr.e.items():
            p = tot(K, c.val)
            m = re.match(r"ind\[(\d+)\]\+0$", str(k))
            if p is None or not m:
                ctx.undecide("correction of the potential")
                continue
            i = m.group(1)
            lab = [a for mm in p for a, _ in mm if "norm(" in a]
            nod = re.search(r"p@([^ *;]*?)_\d", lab[0]) if lab else None
            if not nod or "ind[%s]" % i not in nod.group(1):
                if lab:
                    ctx.violation("correction|node", where, "the correction of the potential at node %s of a triangle is not computed from the position of that node" % i)
                    continue
            want = P((1, "potential[%s]" % i))
            for j in range(n):
                d = "norm(%s)" % ";".join(pstr(padd(P((1, "p@%s_%d" % (nod.group(1), q))), P((1, "gS[%d,%d]" % (q, j))), -1.0)) for q in R3) if nod else "?"
                want = padd(want, pmul(Sf, P((-1, (d, -1)))))
            alt = {}
            for j in range(n):
                d = "norm(%s)" % ";".join(pstr(padd(P((1, "gS[%d,%d]" % (q, j))), P((1, "p@%s_%d" % (nod.group(1), q))), -1.0)) for q in R3) if nod else "?"
                alt = padd(alt, pmul(Sf, P((-1, (d, -1)))))
            alt = padd(alt, P((1, "potential[%s]" % i)))
            if same(p, want) or same(p, alt):
                ctx.ok("correction of the potential", "node %s of a triangle" % i)
            else:
                ctx.violation("correction|value", where, "the correction of the potential at a node of a triangle is not its exact potential less that of its Gauss points: %s" % diff(p, want))


def insertion(ctx, prog):
    """where the sources are placed: in the order in which they are filled, numbered from the number of nodes on"""
    fn = next((f for f in prog.fns.values() if f.name.startswith("scal_fmm::fmm::fmm") and f.ctor and f.body is not None), None)
    if fn is None or "fill" not in LAYOUT:
        ctx.undecide("placement of the sources")
        return
    where = loc(fn.body)
    rec = []

    def ins(k, o, a, e):
        v = [k.val(x) for x in a]
        rec.append((v, e))
        return None

    def point(k, o, a, e):
        return None
    stubs = {"Tetra::Tet::getPtGauss": gauss("gT"), "Triangle::Tri::getPtGauss": gauss("gS"), "omp_set_num_threads": lambda k, o, a, e: None}
    for f in prog.fns.values():
        if re.search(r"(Octree|FOctree)\b.*::insert$", re.sub(r"<.*>", "", f.name)):
            stubs[f.name] = ins
    K = Kern(prog, names, stubs)
    K.exact = True

    def go():
        del rec[:]
        o = Obj("fmm", "scal_fmm::fmm")
        args = []
        for p in fn.params:
            rec_ = (p["t"].rec or "")
            args.append(View(Cell(Obj("msh", "Mesh::mesh"))) if "mesh" in p["t"].c else View(Cell(Arr(p["n"], None))) if "vector" in rec_ else Sym(p["n"]))
        for p, a in zip(fn.params, args):
            pass
        env = {}
        for p, a in zip(fn.params, args):
            env[p["d"]] = a if isinstance(a, View) else View(Cell(a, p["t"]))
        env["this"] = View(Cell(o))
        K.chain = ()
        K.ex(fn.body, env)
        return list(rec)
    try:
        rs = K.runs(go)
    except Unsup as x:
        ctx.undecide("placement of the sources (%s)" % x)
        return
    enum = {}
    for e in prog.enums.values():
        for n, v, *_ in e["c"]:
            enum[n] = v
    src = [v for n, v in enum.items() if n.endswith("TypeSource")]
    for r, facts in rs:
        if r is None:
            continue
        lay = {}
        for v, e in r:
            if len(v) < 3:
                ctx.undecide("placement of a source")
                continue
            pos, typ, idx = v[0], v[1], v[2]
            if src and typ not in src:
                continue
            if not isinstance(idx, Sym) or idx.name != "size(magNode)":
                lay = None
                ctx.undecide("number of a source")
                break
            s = str(pos) if isinstance(pos, str) else "|".join(pstr(f.total()) if f is not None else "?" for f in pos.e) if isinstance(pos, Ten) else "?"
            m = re.findall(r"g([TS])\[(\d),(\d+)\]", s)
            lay[idx.off] = m[0][0] if m and len({x[0] for x in m}) == 1 else "?"
        if lay:
            got = "".join(lay.get(i, "?") for i in range(max(lay) + 1))
            if "?" in got:
                ctx.undecide("position of the sources")
            elif got == LAYOUT["fill"]:
                ctx.ok("numbering of the sources", "%d of a tetrahedron, then %d of a triangle" % (got.count("T"), got.count("S")))
            else:
                ctx.violation("numbering", where, "the sources are placed in the order %s and filled in the order %s" % (got, LAYOUT["fill"]))


def potential(ctx, prog):
    fn = fn_named(prog, "scal_fmm::fmm::calc_demag")
    if fn is None:
        ctx.undecide("the potential")
        return
    where = loc(fn.body)
    ev = []
    st = {}

    def ch(k, o, a, e):
        node = Obj("node", "Nodes::Node")
        g = k.val(a[0])
        x = k.val(k.apply(g, [View(Cell(node))], e))
        ev.append(("charges", [pstr(f.total()) if f is not None else "?" for f in x.e] if isinstance(x, Ten) else None))
        st["Q"], st["pot"] = None, None

    def leafs(k, o, a, e):
        k.apply(k.val(a[0]), [View(Cell(Obj("leaf", None)))], e)

    def pots(k, o, a, e):
        if st.get("pot") is None:
            st["pot"] = Arr("pot%d" % len([x for x in ev if x[0] == "execute"]), None)
        return st["pot"]

    def qs(k, o, a, e):
        if st.get("Q") is None:
            st["Q"] = Arr("Q", None)
        return st["Q"]

    def idx(k, o, a, e):
        return Arr("indexes", None)

    def execute(k, o, a, e):
        Q, pt = st.get("Q"), st.get("pot")
        ev.append(("execute", {x: pstr(tot(k, c.val) or {}) for x, c in Q.e.items()} if Q is not None else None,
                   pt is not None and pt.init is not None and not pt.init.e[0].total(), st.get("reset")))
        st["pot"] = None
        st["reset"] = False

    def cells(k, o, a, e):
        k.apply(k.val(a[0]), [View(Cell(Obj("cell", None)))], e)

    def reset(k, o, a, e):
        st["reset"] = True
    stubs = {"scal_fmm::fmm::calc_charges": ch}
    for f in prog.fns.values():
        b = re.sub(r"<.*>", "", f.name.split("(")[0])
        last = b.rsplit("::", 1)[-1]
        if f.repo and b.startswith("scal_fmm"):
            continue
        h = {"forEachLeaf": leafs, "getPotentials": pots, "getPhysicalValues": qs, "getIndexes": idx, "execute": execute, "forEachCell": cells, "resetToInitialState": reset}.get(last)
        if h:
            stubs[f.name] = h
    K = Kern(prog, names, stubs)
    K.exact = True

    def go():
        del ev[:]
        st.clear()
        o = Obj("fmm", "scal_fmm::fmm")
        m = Obj("msh", "Mesh::mesh")
        K.inline(fn, o, [View(Cell(m))], {"l": ("root",)})
        out = {}
        nd = fieldof(m, "node")
        for k, c in (nd.e.items() if isinstance(nd, Arr) else ()):
            d = fieldof(c.val, "d") if isinstance(c.val, Obj) else None
            for kk, cc in (d.e.items() if isinstance(d, Arr) else ()):
                for f in ("phi", "phiv"):
                    x = fieldof(cc.val, f) if isinstance(cc.val, Obj) else None
                    if x is not None:
                        out[(k, kk, f)] = tot(K, x)
        return list(ev), out
    try:
        rs = K.runs(go)
    except Unsup as x:
        ctx.undecide("the potential (%s)" % x)
        return
    for r, facts in rs:
        if r is None:
            continue
        evs, out = r
        ex = [e for e in evs if e[0] == "execute"]
        if not ex or not out:
            ctx.undecide("the potential")
            continue
        cur, gets = None, []
        for e in evs:
            if e[0] == "charges":
                cur = e[1]
            else:
                gets.append(cur)
                _, Q, pz, rz = e
                if Q is None:
                    ctx.violation("sources|old", where, "the potential is computed with the sources of an earlier state")
                else:
                    for i, v in Q.items():
                        n = "indexes[%s]" % i
                        w = "1*srcDen[%s - (size(magNode))+0]" % n
                        if v == w:
                            ctx.ok("sources renewed", "evaluation %d" % len(gets))
                        elif re.match(r"1\*srcDen\[", v):
                            ctx.violation("sources|index", where, "the source numbered n is not charge n - (number of nodes)")
                        else:
                            ctx.undecide("value of a source")
                if pz:
                    ctx.ok("potentials zeroed", "evaluation %d" % len(gets))
                else:
                    ctx.violation("potentials|old", where, "the potentials of the targets are not set to zero before the evaluation")
                if rz:
                    ctx.ok("expansions reset", "evaluation %d" % len(gets))
                else:
                    ctx.violation("cells|old", where, "the expansions of the cells are not reset before the evaluation")
                cur = None
        for (k, kk, f), p in out.items():
            if p is None:
                ctx.undecide("value of %s" % f)
                continue
            if str(kk) != "1":
                ctx.violation("potential|step", where, "%s is not stored for the new time step" % f)
                continue
            m = [a for mm in p for a, _ in mm if a.startswith("pot")]
            mm = re.match(r"pot(\d+)\[(.*)\]$", m[0]) if m else None
            if not mm:
                ctx.violation("potential|%s" % f, where, "%s does not depend on the potential computed" % f)
                continue
            e, i = int(mm.group(1)), mm.group(2)
            want = P((1 / (4 * math.pi), m[0], "norm"), (1 / (4 * math.pi), "corr[indexes[%s]+0]" % i))
            base = "u" if f == "phi" else "v"
            if not same(p, want):
                ctx.violation("potential|value %s" % f, where, "%s is not (norm potential + correction) / 4 pi: %s" % (f, diff(p, want)))
            elif str(k) != "indexes[%s]+0" % i:
                ctx.violation("potential|node %s" % f, where, "%s is stored at another node" % f)
            elif e - 1 < len(gets) and gets[e - 1] is not None and gets[e - 1] != ["1*%s@1_%d" % (base, q) for q in R3]:
                ctx.violation("potential|source %s" % f, where, "%s is computed from %s" % (f, ", ".join(gets[e - 1])))
            else:
                ctx.ok("potentials", f)
        for f in ("phi", "phiv"):
            if not any(x[2] == f for x in out) and not ctx.undecided:
                ctx.violation("potential|none %s" % f, where, "%s is not computed" % f)
