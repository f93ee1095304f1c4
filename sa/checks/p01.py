"""P01: the energies reported are those of the discretised energy functional."""
from sa.lib import loc
from sa.checks.kspec import *  # noqa

TERMS = ("EXCHANGE", "ANISOTROPY", "DEMAG", "ZEEMAN")


def spec(kind, st="@1"):
    R3 = range(3)
    u = ["u%s_%d" % (st, k) for k in R3]
    phi = "phi" + st
    ex = P(*[(1, "A", "wT", ("da_%d" % d, 2), (u[k], 2)) for d in R3 for k in R3])
    an = P(*[(-1, "K", "wT", ("aT", 2), u[i], u[j], "uk_%d" % i, "uk_%d" % j) for i in R3 for j in R3])
    an = padd(an, P(*[(1, "K3", "wT", ("aT", 4), (u[i], 2), (u[(i + 1) % 3], 2)) for i in R3]))
    an = padd(an, P(*[(-1, "Ks", "wS", ("aS", 2), u[i], u[j], "ukS_%d" % i, "ukS_%d" % j) for i in R3 for j in R3]))
    de = P(*[(-0.5, "mu0", "Ms", "wT", u[d], "da_%d" % d, "aT", phi) for d in R3])
    de = padd(de, P(*[(0.5, "mu0", "dMs", "wS", ("aS", 2), u[d], "n_%d" % d, phi) for d in R3]))
    if kind == "RtoR3":
        ze = P(*[(-1, "mu0", "Ms", "wT", "aT", u[d], "H_%d" % d) for d in R3])
    else:
        ze = P(*[(-1, "mu0", "Ms", "wT", "aT", u[d], "Ht", "extSpaceField_%d" % d) for d in R3])
    return {"EXCHANGE": ex, "ANISOTROPY": an, "DEMAG": de, "ZEEMAN": ze}


def isarg(k, args, n, name):
    if len(args) <= n:
        return False
    x = k.ten(args[n])
    return x.e[0] is not None and pstr(x.e[0].total()) == "1*" + name


def field_stubs():
    def getField(k, obj, args, e):
        return vec([atom(("H_%d" if isarg(k, args, 0, "t") else "Hother_%d") % i) for i in range(3)])

    def getTime(k, obj, args, e):
        return S(atom("Ht" if isarg(k, args, 0, "t") else "Htother"))
    return {"Settings::getField": getField, "Settings::getFieldTime": getTime}


def run(ctx):
    prog = ctx.program()
    ctx.rule("normal forms: each energy term of Fem::energy, as a polynomial over the material constants, the weights, the shape functions "
             "and the nodal values of the new time step, is that of the discretised energy functional, in every partition of the tests on the way")
    ctx.assume("sums over nodes, Gauss points and elements are represented by one generic node, point and element")
    fn = fn_named(prog, "Fem::energy")
    ctx.need(fn is not None, "Fem::energy is gone")
    enum = {}
    for e in prog.enums.values():
        for n, v, *_ in e["c"]:
            enum[n] = v
    ctx.need(all(t in enum for t in TERMS) and "RtoR3" in enum and "R4toR3" in enum, "the energy terms or the kinds of field are gone")
    where = loc(fn.body) if fn.body else "src/energy.cpp"
    for kind in ("RtoR3", "R4toR3"):
        K = Kern(prog, names, field_stubs())
        want = spec(kind)

        def go():
            fem = Obj("fem", "Fem")
            st = Obj("settings", "Settings")
            go.E = setfield(prog, fem, "c:@S@Fem", "E", Arr("E", None))
            go.tot = setfield(prog, fem, "c:@S@Fem", "Etot", S(atom("oldEtot")))
            setfield(prog, st, "c:@S@Settings", "field_type", enum[kind])
            setfield(prog, st, "c:@S@Settings", "verbose", 0)
            K.inline(fn, fem, [S(atom("t")), View(Cell(st))], {"l": ("root",)})
            return fem
        try:
            rs = K.runs(go)
        except Unsup as x:
            ctx.undecide("Fem::energy uses a construct that is not followed (%s)" % x)
            continue
        for r, facts in rs:
            if r is None:
                continue
            zs = zeros(facts)
            arr = r.f[go.E].val
            tot = {}
            for t in TERMS:
                c = arr.e.get(enum[t]) if isinstance(arr, Arr) else None
                x = c.val if c is not None else (getattr(arr, "init", None) if "*" not in getattr(arr, "e", {"*": 0}) else None)
                x = K.val(x)
                g = x.e[0].total() if isinstance(x, Ten) and len(x.e) == 1 and x.e[0] is not None else None
                if g is None:
                    ctx.undecide("%s (%s) is not followed" % (t, kind))
                    tot = None
                    continue
                if tot is not None:
                    tot = padd(tot, g)
                g, w = frame(drop(g, zs)), drop(want[t], zs)
                if same(g, w):
                    ctx.ok("energy terms", "%s, %s" % (t, kind))
                else:
                    ctx.violation("energy|%s" % t, where, "the %s energy is not that of the energy functional: %s" % (t.lower(), diff(g, w)))
            x = K.val(r.f[go.tot].val)
            g = x.e[0].total() if isinstance(x, Ten) and len(x.e) == 1 and x.e[0] is not None else None
            if g is None or tot is None:
                ctx.undecide("the total energy is not followed")
            elif same(g, tot):
                ctx.ok("total energy", kind)
            else:
                ctx.violation("energy|total", where, "the total energy is not the sum of the terms: %s" % diff(g, tot))
        partials(ctx, K)


def partials(ctx, K):
    for site, h, n in sorted(K.partial, key=str):
        ctx.violation("partial|%s" % (site[0] if site else "?"), "%s:%s" % site[:2] if site else "?", "a loop over the first %d of %d entries leaves the others out" % (h, n))
