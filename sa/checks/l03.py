"""L03: assembly of the linear systems and use of their solution.

Constant loops unrolled, indices as linear forms over the node numbers of the element: which entry of the element matrix is added where."""
from sa.lib import loc
from sa.checks.kspec import *  # noqa
from sa.checks.kspec import names, P
from sa.checks.kern import Tab, symstr
import re


def lin(dim, node, d):
    return "%sind[%d]+%d" % ("%d*" % dim if dim > 1 else "", node, d)


def run(ctx):
    prog = ctx.program()
    ctx.rule("assembly: with indices as linear forms over the node numbers, entry (d N + i, d' N + j) of an element matrix is added once at row dim ind[i] + d, "
             "column dim ind[j] + d', entry d N + i of an element vector at dim ind[i] + d, and no other entry anywhere")
    ctx.rule("use: of the solution, entries 2 i and 2 i + 1 go to node i as the components along ep and eq of the new rate of change, times gamma0")
    fns = [f for f in prog.fns.values() if re.match(r"solver<\d+>::build(Mat|Vect)$", f.name) and f.body is not None]
    ctx.need(len(fns) >= 2, "the assembly functions are gone")
    for fn in fns:
        dim = int(re.match(r"solver<(\d+)>", fn.name).group(1))
        m = re.search(r"array<int, (\d+)", fn.params[0]["t"].c)
        what = "%s, %s nodes" % (fn.name, m.group(1) if m else "?")
        if not m or len(fn.params) != 2:
            ctx.undecide(what)
            continue
        n = int(m.group(1))
        mat = fn.name.endswith("Mat")
        rec = []

        def add(k, o, a, e):
            x = k.ten(a[2])
            rec.append((symstr(k.val(a[0])), symstr(k.val(a[1])), pstr(x.e[0].total()) if x.e[0] is not None else "?"))
        K = Kern(prog, names, {"algebra::SparseMatrix::add": add, "algebra::w_sparseMat::add": add})
        K.exact = True

        def go():
            del rec[:]
            o = Obj("solver", "solver")
            K.inline(fn, o, [View(Cell(Arr("ind", None))), View(Cell(Tab("Ke") if mat else Arr("Le", None)))], {"l": ("root",)})
            out = list(rec)
            for d, c in o.f.items():
                if d.endswith("@L_rhs") and isinstance(c.val, Arr):
                    for k, x in c.val.e.items():
                        v = K.ten(x.val).e[0]
                        p = v.total() if v is not None else None
                        if p is None:
                            out.append((k, "?"))
                            continue
                        old = "L_rhs[%s]" % k
                        if old not in [a for mm in p for a, _ in mm]:
                            out.append((k, "overwritten"))
                        for mm, cc in sorted(p.items()):
                            if mm != ((old, 1),):
                                out.append((k, pstr({mm: cc})))
            return out
        try:
            rs = K.runs(go)
        except Unsup as x:
            ctx.undecide("%s (%s)" % (what, x))
            continue
        R = [(i, d) for i in range(n) for d in range(dim)]
        if mat:
            want = sorted((lin(dim, i, d), lin(dim, j, b), "1*Ke[%d,%d]" % (d * n + i, b * n + j)) for i, d in R for j, b in R)
        else:
            want = sorted((lin(dim, i, d), "1*Le[%d]" % (d * n + i)) for i, d in R)
        for r, facts in rs:
            if r is None:
                continue
            got = sorted(r)
            if any("?" in x for t in got for x in t) or not got:
                ctx.undecide(what)
            elif got == want:
                ctx.ok("assembly", what)
            else:
                bad = [x for x in got if x not in want] or [x for x in want if x not in got] or [x for x in got if got.count(x) != 1]
                ctx.violation("assembly|%s" % what, loc(fn.body), "%s: %s" % (what, ", ".join(bad[0]) + (" (should not be added)" if bad[0] not in want else " (missing or added more than once)")))
    use(ctx, prog)
    evol(ctx, prog)


def use(ctx, prog):
    fn = fn_named(prog, "LinAlgebra::solve")
    ctx.need(fn is not None, "LinAlgebra::solve is gone")
    ups, sys = [], []

    def upd(k, o, a, e):
        ups.append(([k.val(x) for x in a], e))

    def bicg(k, o, a, e):
        sys.append([getattr(k.val(x), "label", None) for x in a])
        return None
    nop = lambda k, o, a, e: None  # noqa
    stubs = {"Mesh::mesh::updateNode": upd, "LinAlgebra::buildInitGuess": nop, "algebra::applyMask": nop, "algebra::bicg_dir": bicg,
             "algebra::SparseMatrix::clear": nop, "algebra::SparseMatrix::set": nop}
    for f in prog.fns.values():
        if re.match(r"solver<\d+>::build(Mat|Vect)$", f.name):
            stubs[f.name] = nop
        if f.name.startswith("algebra::bicg_dir"):
            stubs[f.name] = bicg
        if f.name.startswith("algebra::applyMask"):
            stubs[f.name] = nop
        if f.name.startswith(("algebra::iteration", "chronometer::")):
            stubs[f.name] = lambda k, o, a, e: k.default(e.get("t"), "it", "it")
    K = Kern(prog, names, stubs)
    K.exact = True

    def go():
        del ups[:], sys[:]
        o = Obj("la", "LinAlgebra")
        K.inline(fn, o, [View(Cell(Obj("timing", "timing")))], {"l": ("root",)})
        return list(ups), list(sys)
    try:
        rs = K.runs(go)
    except Unsup as x:
        ctx.undecide("LinAlgebra::solve (%s)" % x)
        return
    n = 0
    for r, facts in rs:
        if r is None:
            continue
        for a, e in r[0]:
            n += 1
            if len(a) != 4 or not isinstance(a[0], Sym):
                ctx.undecide("update of a node in LinAlgebra::solve")
                continue
            t = [K.ten(x) for x in a[1:]]
            if any(x.e[0] is None for x in t):
                ctx.undecide("update of a node in LinAlgebra::solve")
                continue
            i = a[0].name
            g = [pstr(x.e[0].total()) for x in t]
            w = ["1*Xw[2*%s+%d]" % (i, 2 * a[0].off + b) for b in (0, 1)] + ["1*dt"]
            if g == w:
                ctx.ok("use of the solution", "LinAlgebra::solve")
            else:
                ctx.violation("use|solve", loc(e), "node %s is moved with (%s), not with (%s)" % ("i", ", ".join(g).replace(i, "i"), ", ".join(w).replace(i, "i")))
        for l in r[1]:
            if None in l[1:4]:
                ctx.undecide("arguments of the solver")
            elif l[1:4] == ["K", "Xw", "L_rhs"]:
                ctx.ok("system solved", "LinAlgebra::solve")
            else:
                ctx.violation("system|solve", loc(fn.body), "the system solved is made of %s" % ", ".join(l[1:4]))
    if not n:
        ctx.undecide("update of the nodes in LinAlgebra::solve")


def evol(ctx, prog):
    fn = fn_named(prog, "Mesh::mesh::updateNode")
    ctx.need(fn is not None, "Mesh::mesh::updateNode is gone")
    K = Kern(prog, names, {})

    def go():
        o = Obj("msh", "Mesh::mesh")
        K.inline(fn, o, [Sym("i")] + [S(atom(x)) for x in ("vp", "vq", "dt")], {"l": ("root",)})
        node = None
        for d, c in o.f.items():
            if d.endswith("@node") and isinstance(c.val, Arr):
                node = next((x.val for x in c.val.e.values() if isinstance(x.val, Obj)), None)
        out = {}
        for d, c in (node.f.items() if node is not None else ()):
            if d.endswith("@d") and isinstance(c.val, Arr):
                for k, x in c.val.e.items():
                    if isinstance(x.val, Obj):
                        for dd, cc in x.val.f.items():
                            out[(dd.rsplit("@", 1)[-1], k)] = K.val(cc.val)
        return out
    try:
        rs = K.runs(go)
    except Unsup as x:
        ctx.undecide("evolution of a node (%s)" % x)
        return
    v = [P((1, "gamma0", "vp", "ep_%d" % k), (1, "gamma0", "vq", "eq_%d" % k)) for k in range(3)]
    u = [padd(P((1, "u@0_%d" % k)), pmul(P((1, "dt")), v[k])) for k in range(3)]
    nrm = pinv(atom("norm(%s)" % ";".join(pstr(x) for x in u)))
    u = [pmul(x, nrm) for x in u]
    for r, facts in rs:
        if r is None:
            continue
        for name, want in (("v", v), ("u", u)):
            x = r.get((name, 1))
            if not isinstance(x, Ten) or len(x.e) != 3 or None in x.e:
                ctx.undecide("new %s of a node" % name)
                continue
            for k in range(3):
                if same(x.e[k].total(), want[k]):
                    ctx.ok("evolution", "%s, component %d" % (name, k))
                else:
                    ctx.violation("evolution|%s" % name, loc(fn.body), "the new %s of a node is not %s: %s" % (
                        "rate of change" if name == "v" else "magnetisation", "gamma0 (vp ep + vq eq)" if name == "v" else "u + dt v, normalised", diff(x.e[k].total(), want[k])))
